// SO(3) helpers and the stopwatch.
#include "driver.hpp"
#include "factorama/random_utils.hpp"
#include "factorama/stopwatch.hpp"
#include <Eigen/Geometry>
#include <chrono>
#include <thread>
using namespace factorama;

static std::map<int, Stopwatch> watches;
static double now() { static const auto t0 = std::chrono::high_resolution_clock::now(); return std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count(); }

bool op_misc(World& w, const std::string& op, In& in, Out& o) {
    auto m3 = [](const VecX& d) { Eigen::Matrix3d m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m(r, c) = d(3 * r + c); return m; };
    if (op == "exp") { VecX d = in.vec(); o.kv("d", d); o.km("r", ExpMapSO3(d)); return true; }
    if (op == "log") { VecX d = in.vec(); o.kv("d", d); o.kv("r", LogMapSO3(m3(d))); return true; }
    if (op == "explog") { VecX d = in.vec(); o.kv("d", d); Eigen::Matrix3d R = ExpMapSO3(d); o.km("e", R); o.kv("r", LogMapSO3(R)); return true; }
    if (op == "skew") { VecX d = in.vec(); o.kv("d", d); Eigen::Matrix3d m = skew_symmetric(d); o.km("r", m); o.kv("u", unskew(m)); return true; }
    if (op == "unskew") { VecX d = in.vec(); o.kv("d", d); o.kv("r", unskew(m3(d))); return true; }
    if (op == "ijac") { VecX d = in.vec(); o.kv("d", d); o.km("r", compute_inverse_right_jacobian_so3(d)); return true; }
    if (op == "sw") {
        int k = in.num(); std::string a = in.str(); o.k("s", k); o.ks("a", a); auto& s = watches[k];
        double t0 = now(), e = 0, t1;
        if (a == "start") { s.start(); t1 = now(); } else if (a == "stop") { s.stop(); t1 = now(); } else if (a == "reset") { s.reset(); t1 = now(); }
        else if (a == "elapsed") { e = s.elapsed(); t1 = now(); }
        else { int us = std::atoi(a.c_str()); if (us > 3000) std::this_thread::sleep_for(std::chrono::microseconds(us)); else while (now() - t0 < us * 1e-6) {} t1 = now(); }
        o.kr("t0", t0); o.kr("t1", t1); o.kr("e", e); return true;
    }
    if (op == "note") { o.ks("txt", in.str()); std::vector<int> n; while (in.more()) n.push_back(in.num()); o.kints("n", n); return true; }   // no call: an instruction to the specification
    return false;
}
