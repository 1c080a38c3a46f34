// Operations on optimizers, and the witnesses the specification verifies steps with.
#include "text.hpp"
#include "factorama/sparse_optimizer.hpp"
#include <Eigen/Cholesky>
#include <Eigen/LU>
using namespace factorama;

static SparseOptimizer& O(World& w, int k) { auto& p = w.opts[k]; if (!p) p = std::make_shared<SparseOptimizer>(); return *p; }
static void stats(Out& o, const char* key, const OptimizerStats& s) {
    o.key(key); o.sep(); o.open('{'); o.k("v", s.valid); o.k("st", int(s.status)); o.kr("chi2", s.chi2); o.kr("dn", s.delta_norm); o.kr("rn", s.residual_norm); o.k("it", s.current_iteration); o.kr("lam", s.damping_parameter); o.k("rank", s.rank); o.close('}');
}
// the factors' own residuals at the current values, stacked ("t": 1 if one of them threw)
static void now_residuals(Out& o, const char* key, const std::shared_ptr<FactorGraph>& g) {
    std::vector<double> r; bool t = false;
    if (g) try { for (auto& f : g->get_all_factors()) { VecX q = f->compute_residual(); r.insert(r.end(), q.data(), q.data() + q.size()); } } catch (const std::exception&) { t = true; r.clear(); }
    o.key(key); o.sep(); o.open('{'); o.k("t", t); o.kv("r", VecX(Eigen::Map<VecX>(r.data(), r.size()))); o.close('}');
}
// the factors' own Jacobians at the current values ("ft": 1 if one of them threw)
static void now_jacobians(Out& o, const std::shared_ptr<FactorGraph>& g) {
    Out t; t.open('['); bool threw = false;
    if (g) try { for (auto& f : g->get_all_factors()) { std::vector<MatX> js; f->compute_jacobians(js); t.sep(); t.open('['); for (auto& j : js) t.mat(j); t.close(']'); } } catch (const std::exception&) { threw = true; }
    t.close(']');
    o.k("ft", threw); o.key("fj"); o.sep(); o.s += threw ? std::string("[]") : t.s; o.first = false;
}
// settings: method maxit steptol restol lam0 lammax up down lr
static OptimizerSettings settings(In& in, Out& o) {
    OptimizerSettings s; int m = in.num(); s.method = m ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton; s.max_num_iterations = in.num(); VecX d = in.vec();
    s.step_tolerance = d(0); s.residual_tolerance = d(1); s.initial_lambda = d(2); s.max_lambda = d(3); s.lambda_up_factor = d(4); s.lambda_down_factor = d(5); s.learning_rate = d(6);
    int verbose = in.num(); s.verbose = verbose;
    o.k("m", m); o.k("maxit", (long long)s.max_num_iterations); o.kv("d", d); return s;
}

static void settings_out(Out& o, const OptimizerSettings& s) {
    VecX d(7); d << s.step_tolerance, s.residual_tolerance, s.initial_lambda, s.max_lambda, s.lambda_up_factor, s.lambda_down_factor, s.learning_rate;
    o.k("gm", s.method == OptimizerMethod::LevenbergMarquardt); o.k("gk", (long long)s.max_num_iterations); o.kv("gd", d); o.k("gv", s.verbose); o.k("gr", s.check_rank_deficiency);
}

bool op_opt(World& w, const std::string& op, In& in, Out& o) {
    if (op == "setup") { int k = in.num(), g = in.num(); o.k("o", k); o.k("g", g); auto s = settings(in, o); w.ograph[k] = w.graphs.at(g); O(w, k).setup(w.graphs.at(g), s); return true; }
    if (op == "sdef") { settings_out(o, OptimizerSettings()); return true; }
    if (op == "sget") { int k = in.num(); o.k("o", k); settings_out(o, O(w, k).settings()); return true; }
    if (op == "stat") { int k = in.num(); o.k("o", k); stats(o, "i", O(w, k).initial_stats_); stats(o, "s", O(w, k).current_stats_); return true; }
    if (op == "run") { int k = in.num(); o.k("o", k); auto g = w.ograph[k]; now_residuals(o, "r0", g); std::exception_ptr e; std::string said; { Capture c; try { O(w, k).optimize(); } catch (...) { e = std::current_exception(); } said = c.text(); } if (O(w, k).settings().verbose && !e) text_out(o, said); else o.k("quiet", said.find("SparseOptimizer") == std::string::npos && said.find("Summary") == std::string::npos); stats(o, "i", O(w, k).initial_stats_); stats(o, "s", O(w, k).current_stats_); now_residuals(o, "r1", g); if (e) std::rethrow_exception(e); return true; }
    if (op == "prep") { int k = in.num(); o.k("o", k); now_jacobians(o, w.ograph[k]); O(w, k).prepare_to_estimate_covariances(); return true; }
    if (op == "pcov") { int k = in.num(); o.k("o", k); now_jacobians(o, w.ograph[k]); std::string t; { Capture c; O(w, k).print_all_covariances(); t = c.text(); }
        // what was printed under each heading, and what estimate_covariance() says of the graph's variables now
        o.key("pr"); o.sep(); o.open('['); bool open = false; std::string words; std::vector<double> ns;
        auto flush = [&] { if (open) { o.ks("w", words); o.key("n"); nums(o, ns); o.close('}'); } words.clear(); ns.clear(); };
        for (auto& l : lines_of(t)) { if (!l.raw.compare(0, 10, "variable: ")) { flush(); open = true; o.sep(); o.open('{'); o.ks("nm", l.raw.substr(10)); } else if (open) { words += l.label; ns.insert(ns.end(), l.n.begin(), l.n.end()); } }
        flush(); o.close(']');
        o.key("now"); o.sep(); o.open('['); auto g = w.ograph[k];
        if (g) for (auto& v : g->get_all_variables()) { bool ok = true; MatX P = O(w, k).estimate_covariance(v.get(), ok); o.sep(); o.open('{'); o.ks("nm", v->name()); o.k("v", ok); o.key("p"); o.shaped(P); o.close('}'); }
        o.close(']'); return true; }
    if (op == "cov") { int k = in.num(), s = in.num(); o.k("o", k); o.k("s", s); bool ok = true; MatX P = O(w, k).estimate_covariance(w.var(s), ok); o.k("valid", ok); o.key("p"); o.shaped(P); return true; }
    if (op == "wit") {
        // At the current values: J and r stacked from the factors' own Jacobians and residuals (columns: non-constant variables
        // in the order given), and for each lambda the solution dx of (J^T J + lambda I) dx = -J^T r, the state that
        // incrementing every variable by lr*dx leads to, and the residual there.  The values are then restored.
        auto vs = in.ints(), fs = in.ints(); double lr = in.real(); VecX lams = in.vec(); o.kints("vs", vs); o.kints("fs", fs); o.kr("lr", lr);
        std::map<const Variable*, int> col; int n = 0; for (int s : vs) { auto v = w.var(s); col[v] = n; if (!v->is_constant()) n += v->size(); }
        auto resid = [&](bool& threw) { std::vector<double> r; threw = false; try { for (int f : fs) { VecX q = w.facs.at(f)->compute_residual(); r.insert(r.end(), q.data(), q.data() + q.size()); } } catch (const std::exception&) { threw = true; r.clear(); } return VecX(Eigen::Map<VecX>(r.data(), r.size())); };
        bool threw, jthrew = false; VecX r = resid(threw); MatX J = MatX::Zero(r.size(), n);
        if (!threw) try {
            int row = 0;
            for (int f : fs) { std::vector<MatX> js; auto p = w.facs.at(f); p->compute_jacobians(js); auto fv = p->variables(); for (size_t i = 0; i < fv.size() && i < js.size(); i++) if (js[i].size() && !fv[i]->is_constant() && col.count(fv[i])) J.block(row, col[fv[i]], js[i].rows(), js[i].cols()) += js[i]; row += p->compute_residual().size(); }
        } catch (const std::exception&) { jthrew = true; }
        o.k("thr", threw || jthrew); o.key("j"); o.shaped(J); o.kv("r", r);
        o.key("tr"); o.sep(); o.open('[');
        std::vector<std::pair<Variable*, VecX>> keep; for (int s : vs) keep.push_back({w.var(s), w.var(s)->value()});
        for (int i = 0; i < lams.size() && !threw && !jthrew; i++) {
            MatX H = J.transpose() * J; for (int a = 0; a < n; a++) H(a, a) += lams(i);
            VecX b = -(J.transpose() * r); VecX dx = n ? VecX(H.partialPivLu().solve(b)) : VecX(0);
            for (int k = 0; k < 2 && n && dx.allFinite(); k++) { VecX c = H.partialPivLu().solve(VecX(b - H * dx)); if (c.allFinite()) dx += c; }
            o.sep(); o.open('{'); o.kr("lam", lams(i)); o.kv("dx", dx);
            VecX step = lr * dx; bool fine = step.allFinite();
            o.k("fin", fine);
            if (fine) {
                for (int s : vs) { auto v = w.var(s); if (!v->is_constant()) v->apply_increment(VecX(step.segment(col[v], v->size()))); }
                bool t2; VecX r2 = resid(t2);
                o.k("thr", t2); o.kv("r2", r2);
                o.key("x2"); o.sep(); o.open('['); for (auto& p : keep) o.vec(p.first->value()); o.close(']');
                for (auto& p : keep) if (!p.first->is_constant()) p.first->set_value_from_vector(p.second);
            }
            o.close('}');
        }
        o.close(']');
        return true;
    }
    return false;
}
