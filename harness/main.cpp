#include "driver.hpp"
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

static int out_fd;
static void emit(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) { ssize_t n = ::write(out_fd, s.data() + o, s.size() - o); if (n <= 0) _exit(98); o += n; }
}

// Variables whose observable state differs from what was last recorded.
static void changes(World& w, Out& o) {
    o.key("ch"); o.sep(); o.open('[');
    for (auto& p : w.vars) {
        Out t; var_record(t, p.second.get());
        auto& l = w.last[p.first];
        if (l != t.s) { l = t.s; o.sep(); o.s += "{\"s\":" + std::to_string(p.first) + "," + t.s + "}"; }
    }
    o.close(']');
}

static void run(const std::vector<std::string>& lines, size_t from, int ep) {
    World w;
    for (size_t i = from; i < lines.size() && lines[i].compare(0, 3, "ep "); i++) {
        if (lines[i].empty() || lines[i][0] == '#') continue;
        In in; std::istringstream ss(lines[i]); std::string tok; while (ss >> tok) in.t.push_back(tok);
        if (in.t.empty()) continue;
        std::string op = in.str();
        Out o; o.open('{'); o.k("ep", ep); o.k("ln", (long long)(i - from + 1)); o.ks("op", op);
        const size_t mark = o.s.size(); const int depth = o.depth;
        std::string err; bool ok = true;
        try {
            if (!(op_var(w, op, in, o) || op_graph(w, op, in, o) || op_opt(w, op, in, o) || op_misc(w, op, in, o))) { std::fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(97); }
        } catch (const std::exception& e) { ok = false; err = e.what(); }
        catch (...) { ok = false; err = "non-standard exception"; }
        if (!ok && (o.depth != depth || o.s.back() == ':')) { o.s.resize(mark); o.depth = depth; o.first = false; }     // thrown in the middle of a value
        o.k("ok", ok); if (!ok) o.ks("err", err);
        changes(w, o);
        o.close('}'); o.s += '\n';
        emit(o.s);
    }
    Out o; o.open('{'); o.k("ep", ep); o.ks("op", "end"); o.k("ok", 1); o.key("ch"); o.sep(); o.open('['); o.close(']'); o.close('}'); o.s += '\n'; emit(o.s);
}

int main(int argc, char** argv) {
    if (argc < 3) { std::fprintf(stderr, "usage: driver SCRIPT OUT [timeout]\n"); return 97; }
    int tmo = argc > 3 ? std::atoi(argv[3]) : 20;
    std::ifstream f(argv[1]); if (!f) return 97;
    std::vector<std::string> lines; std::string l; while (std::getline(f, l)) lines.push_back(l);
    out_fd = ::open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (out_fd < 0) return 97;
    for (size_t i = 0; i < lines.size(); i++) {
        if (lines[i].compare(0, 3, "ep ")) continue;
        int ep = std::atoi(lines[i].c_str() + 3);
        pid_t p = fork();
        if (p == 0) {
            signal(SIGALRM, SIG_DFL); alarm(tmo);
            int n = ::open("/dev/null", O_WRONLY); ::dup2(n, 1); if (!getenv("DRIVER_STDERR")) { std::cerr.setstate(std::ios::failbit); }
            run(lines, i + 1, ep);
            _exit(0);
        }
        int st = 0; ::waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) { std::fprintf(stderr, "driver: harness error in episode %d\n", ep); return 97; }
            // terminate a partly written line, then record what happened (no action of the specification explains it)
            Out o; o.open('{'); o.k("ep", ep); o.ks("op", "crash"); o.k("ok", 0); o.k("sig", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)); o.key("ch"); o.sep(); o.open('['); o.close(']'); o.close('}'); o.s += '\n'; emit(o.s);
        }
    }
    return 0;
}
