// Conformance driver: executes a script of API calls on the real library and records, for every call,
// its arguments, its result and every variable whose observable state changed.  See DESIGN.md, "Driver".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include "factorama/base_types.hpp"

namespace factorama { class FactorGraph; class SparseOptimizer; struct OptimizerSettings; }

using VecX = Eigen::VectorXd;
using MatX = Eigen::MatrixXd;

// ---------------------------------------------------------------- JSON output
struct Out {
    std::string s;
    bool first = true;
    int depth = 0;
    void open(char c) { s += c; first = true; depth++; }
    void close(char c) { s += c; first = false; depth--; }
    void sep() { if (!first) s += ','; first = false; }
    void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; first = true; }
    void num(long long v) { sep(); s += std::to_string(v); }
    void real(double v) {
        sep();
        uint64_t b; std::memcpy(&b, &v, 8);
        char t[40]; std::snprintf(t, sizeof t, "[%d,%d]", int32_t(b >> 32), int32_t(b)); s += t;
    }
    void str(const std::string& v) {
        sep(); s += '"';
        for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) s += ' '; else s += c; }
        s += '"';
    }
    void k(const char* n, long long v) { key(n); num(v); }
    void kr(const char* n, double v) { key(n); real(v); }
    void ks(const char* n, const std::string& v) { key(n); str(v); }
    template <class V> void vec(const V& v) { sep(); open('['); for (Eigen::Index i = 0; i < v.size(); i++) real(v(i)); close(']'); }
    template <class V> void kv(const char* n, const V& v) { key(n); vec(v); }
    template <class M> void mat(const M& m) {   // list of rows
        sep(); open('[');
        for (Eigen::Index i = 0; i < m.rows(); i++) { sep(); open('['); for (Eigen::Index j = 0; j < m.cols(); j++) real(m(i, j)); close(']'); }
        close(']');
    }
    template <class M> void km(const char* n, const M& m) { key(n); mat(m); }
    void kints(const char* n, const std::vector<int>& v) { key(n); sep(); open('['); for (int i : v) num(i); close(']'); }
    // a matrix whose shape matters even when it is empty
    template <class M> void shaped(const M& m) { sep(); open('{'); k("r", m.rows()); k("c", m.cols()); key("m"); mat(m); close('}'); }
};

// ---------------------------------------------------------------- script input
struct In {
    std::vector<std::string> t;
    size_t i = 0;
    bool more() const { return i < t.size(); }
    std::string str() { if (i >= t.size()) { std::fprintf(stderr, "script: missing token in '%s'\n", t.empty() ? "" : t[0].c_str()); _exit(97); } return t[i++]; }
    int num() { return std::atoi(str().c_str()); }
    double real() { uint64_t b = std::strtoull(str().c_str(), nullptr, 16); double d; std::memcpy(&d, &b, 8); return d; }
    VecX vec() { int n = num(); VecX v(n); for (int k = 0; k < n; k++) v(k) = real(); return v; }
    MatX mat() { int r = num(), c = num(); MatX m(r, c); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) m(a, b) = real(); return m; }
    std::vector<int> ints() { int n = num(); std::vector<int> v(n); for (int& x : v) x = num(); return v; }
};

// ---------------------------------------------------------------- world
struct World {
    std::map<int, std::shared_ptr<factorama::Variable>> vars;
    std::map<int, std::string> last;                 // last recorded observable state of each variable
    std::map<int, std::shared_ptr<factorama::Factor>> facs;
    std::map<int, std::vector<int>> fac_vars;        // slots of each factor's variables
    std::map<int, std::vector<MatX>> reuse;          // Jacobian containers kept between calls
    std::map<int, std::shared_ptr<factorama::FactorGraph>> graphs;
    std::map<int, std::shared_ptr<factorama::SparseOptimizer>> opts;
    std::map<int, std::shared_ptr<factorama::FactorGraph>> ograph;   // the graph last given to each optimizer
    int var_slot(const factorama::Variable* v) const { for (auto& p : vars) if (p.second.get() == v) return p.first; return v ? -2 : -1; }
    int fac_slot(const factorama::Factor* f) const { for (auto& p : facs) if (p.second.get() == f) return p.first; return f ? -2 : -1; }
    factorama::Variable* var(int s) const { return s < 0 ? nullptr : vars.at(s).get(); }
};

std::shared_ptr<factorama::Variable> make_variable(In& in, const std::string& kind, int id);
std::shared_ptr<factorama::Factor> make_factor(World& w, const std::string& kind, int id, const std::vector<int>& vs, const VecX& d, const std::vector<int>& n);
void var_record(Out& o, const factorama::Variable* v);      // the fields of a variable's observable state
VecX factor_views(factorama::Factor* f);                      // what the accessors of a factor return
VecX factor_weights(factorama::Factor* f);
bool var_setter(factorama::Variable* v, const std::string& what, const VecX& d);
bool usr_arm(factorama::Factor* f, int resid_calls, int jac_calls);
bool op_var(World& w, const std::string& op, In& in, Out& o);
bool op_graph(World& w, const std::string& op, In& in, Out& o);
bool op_opt(World& w, const std::string& op, In& in, Out& o);
bool op_misc(World& w, const std::string& op, In& in, Out& o);
