// Operations on single variables and factors.
#include "text.hpp"
#include "factorama/kernels.hpp"
#include "factorama/numerical_jacobian.hpp"
#include <limits>
using namespace factorama;

static void jacs(Out& o, const char* key, const std::vector<MatX>& js) { o.key(key); o.sep(); o.open('['); for (auto& j : js) o.shaped(j); o.close(']'); }

// what a factor says about itself
static void factor_self(World& w, Factor* f, Out& o) {
    o.k("fid", f->id()); o.k("ft", int(f->type())); o.ks("ty", FactorType::factor_names[f->type()]); o.ks("nm", f->name());
    o.kv("fa", factor_views(f)); o.kv("ws", factor_weights(f)); std::vector<int> q; for (auto p : f->variables()) q.push_back(w.var_slot(p)); o.kints("fv", q);
}

bool op_var(World& w, const std::string& op, In& in, Out& o) {
    if (op == "var") {
        int s = in.num(); std::string k = in.str(); int id = in.num(), c = in.num();
        size_t at = in.i; VecX d = in.vec(); in.i = at;
        o.k("s", s); o.ks("k", k); o.k("id", id); o.k("c", c); o.kv("d", d);
        auto v = make_variable(in, k, id); if (c) v->set_constant(true); w.vars[s] = v; o.ks("nm", v->name()); return true;
    }
    if (op == "fac") {
        int s = in.num(); std::string k = in.str(); int id = in.num(); auto vs = in.ints(); VecX d = in.vec(); auto n = in.ints();
        o.k("s", s); o.ks("k", k); o.k("id", id); o.kints("vs", vs); o.kv("d", d); o.kints("n", n);
        w.facs[s] = make_factor(w, k, id, vs, d, n); w.fac_vars[s] = vs; w.reuse.erase(s);
        auto f = w.facs[s]; bool null = false; for (int v : vs) if (v < 0) null = true;
        o.k("rs", null ? -1 : f->residual_size()); factor_self(w, f.get(), o); return true;
    }
    if (op == "facq") { int s = in.num(); o.k("s", s); auto f = w.facs.at(s); o.k("rs", f->residual_size()); factor_self(w, f.get(), o); return true; }
    if (op == "setc") { int s = in.num(), c = in.num(); o.k("s", s); o.k("c", c); w.var(s)->set_constant(c); return true; }
    if (op == "vset") { int s = in.num(); VecX d = in.vec(); o.k("s", s); o.kv("d", d); w.var(s)->set_value_from_vector(d); return true; }
    if (op == "vinc") { int s = in.num(); VecX d = in.vec(); o.k("s", s); o.kv("d", d); w.var(s)->apply_increment(d); return true; }
    if (op == "vm") { int s = in.num(); std::string what = in.str(); VecX d = in.vec(); o.k("s", s); o.ks("w", what); o.kv("d", d); if (!var_setter(w.var(s), what, d)) _exit(97); return true; }
    if (op == "clone") { int s = in.num(), t = in.num(); o.k("s", s); o.k("to", t); auto c = w.var(s)->clone(); o.k("same", c.get() == w.var(s)); w.vars[t] = c; return true; }
    if (op == "vprint") {
        int s = in.num(); o.k("s", s); std::string t; { Capture c; w.var(s)->print(); t = c.text(); } auto ls = lines_of(t); std::vector<double> n; for (size_t i = 1; i < ls.size(); i++) n.insert(n.end(), ls[i].n.begin(), ls[i].n.end());
        o.ks("nm", w.var(s)->name()); o.ks("l1", ls.empty() ? "" : ls[0].raw); o.key("n1"); nums(o, ls.empty() ? std::vector<double>() : ls[0].n); o.key("n"); nums(o, n); return true;
    }
    if (op == "drop") { int s = in.num(); o.k("s", s); w.vars.erase(s); w.last.erase(s); return true; }
    if (op == "arm") { int s = in.num(), r = in.num(), j = in.num(); o.k("s", s); o.k("nr", r); o.k("nj", j); usr_arm(w.facs.at(s).get(), r, j); return true; }
    if (op == "fres") {     // both overloads, the second into a buffer full of junk
        int s = in.num(); o.k("s", s); auto f = w.facs.at(s);
        VecX a = f->compute_residual(); VecX b = VecX::Constant(f->residual_size(), std::numeric_limits<double>::quiet_NaN()); f->compute_residual(Eigen::Ref<VecX>(b));
        VecX big = VecX::Constant(f->residual_size() + 5, 777.0); f->compute_residual(big.segment(2, f->residual_size()));
        o.k("rs", f->residual_size()); o.kv("r1", a); o.kv("r2", b); o.kv("r3", big);
        VecX c = f->compute_residual(); o.kv("r4", c); return true;
    }
    if (op == "fjac") {     // mode 0 fresh, 1 kept container, 2 too many, 3 too few / wrong shapes, 4 NaN of the right count
        int s = in.num(), mode = in.num(); o.k("s", s); o.k("mode", mode); auto f = w.facs.at(s);
        std::vector<MatX> js; size_t nv = w.fac_vars[s].size(); double nan = std::numeric_limits<double>::quiet_NaN();
        if (mode == 1) js = w.reuse[s];
        if (mode == 2) js.assign(nv + 2, MatX::Constant(7, 7, nan));
        if (mode == 3) { js.assign(nv > 1 ? nv - 1 : 3, MatX::Constant(1, 2, 5.5)); }
        if (mode == 4) { int k = 0; for (int v : w.fac_vars[s]) js.push_back(MatX::Constant(f->residual_size(), w.var(v)->size() + (k++ % 2 ? 0 : 1), nan)); }
        if (mode == 5) { for (int v : w.fac_vars[s]) js.push_back(MatX::Constant(f->residual_size(), w.var(v)->size(), -3.25)); }
        f->compute_jacobians(js); w.reuse[s] = js; jacs(o, "j", js); return true;
    }
    if (op == "fd") {       // residuals at increments -2h,-h,h,2h along every direction of every non-constant variable
        int s = in.num(); VecX hs = in.vec(); o.k("s", s); o.kv("h", hs); auto f = w.facs.at(s);
        std::vector<MatX> js; f->compute_jacobians(js); jacs(o, "j", js);
        o.kv("r0", f->compute_residual());
        o.key("fd"); o.sep(); o.open('[');
        auto vs = f->variables();
        for (size_t i = 0; i < vs.size(); i++) {
            o.sep(); o.open('[');
            if (!vs[i]->is_constant()) for (int c = 0; c < vs[i]->size(); c++) {
                o.sep(); o.open('[');
                for (int m : {-2, -1, 1, 2}) {
                    // the increment acts on a clone whose value is then given to the variable, so that the
                    // variable itself ends exactly where it started
                    auto keep = vs[i]->clone(); VecX dx = VecX::Zero(vs[i]->size()); dx(c) = m * hs(i);
                    vs[i]->apply_increment(dx); o.vec(f->compute_residual()); vs[i]->set_value_from_vector(keep->value());
                }
                o.close(']');
            }
            o.close(']');
        }
        o.close(']'); return true;
    }
    if (op == "numj") {
        int s = in.num(); double eps = in.real(); o.k("s", s); o.kr("eps", eps); auto f = w.facs.at(s);
        std::vector<MatX> js; if (in.num()) js.assign(4, MatX::Constant(2, 2, 9.0));
        if (eps == 0) ComputeNumericalJacobians(*f, js); else ComputeNumericalJacobians(*f, js, eps);
        jacs(o, "j", js); return true;
    }
    if (op == "huber") {
        double delta = in.real(); VecX r = in.vec(); std::vector<MatX> js; int n = in.num(); for (int i = 0; i < n; i++) js.push_back(in.mat());
        o.kr("delta", delta); o.kv("r", r); jacs(o, "ji", js); HuberKernel k(delta); ResidualKernel& b = k;
        o.kv("hr", b.apply_to_residual(r)); b.apply_to_jacobians(r, js); jacs(o, "jo", js); o.kr("dd", k.delta());
        return true;
    }
    return false;
}
