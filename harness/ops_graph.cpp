// Operations on factor graphs.
#include "text.hpp"
#include "factorama/factor_graph.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/rotation_variable.hpp"
using namespace factorama;

static FactorGraph& G(World& w, int g) { auto& p = w.graphs[g]; if (!p) p = std::make_shared<FactorGraph>(); return *p; }

static void layout(World& w, FactorGraph& g, Out& o) {
    o.k("nv", g.num_values()); o.k("nr", g.num_residuals());
    o.key("vp"); o.sep(); o.open('[');
    for (auto& v : g.get_all_variables()) { bool ok = false; auto p = g.variable_placement(v->id(), ok); o.sep(); o.open('['); o.num(w.var_slot(v.get())); o.num(ok); o.num(ok ? p.index : -1); o.num(ok ? p.dim : -1); o.num(ok ? w.var_slot(p.variable) : -1); o.close(']'); }
    o.close(']');
    // factor placements are keyed by position or by id: look them up by the factor they belong to
    std::map<const Factor*, FactorPlacement> fp; for (auto& p : g.factor_placement_map()) fp[p.second.factor] = p.second;
    o.k("vm", (long long)g.variable_placement_map().size()); o.k("fm", (long long)g.factor_placement_map().size());
    o.key("fp"); o.sep(); o.open('[');
    for (auto& f : g.get_all_factors()) { auto it = fp.find(f.get()); o.sep(); o.open('['); o.num(w.fac_slot(f.get())); o.num(it != fp.end()); o.num(it != fp.end() ? it->second.residual_index : -1); o.num(it != fp.end() ? it->second.residual_dim : -1); o.close(']'); }
    o.close(']');
    bool ok = true; g.variable_placement(987654321, ok); o.k("unk", ok);
}
static void shapedv(Out& o, const char* k, const VecX& v) { o.kv(k, v); }
static void factor_residuals(World& w, FactorGraph& g, Out& o) {
    o.key("fr"); o.sep(); o.open('['); for (auto& f : g.get_all_factors()) o.vec(f->compute_residual()); o.close(']');
}
static void factor_jacobians(World& w, FactorGraph& g, Out& o) {
    o.key("fj"); o.sep(); o.open('[');
    for (auto& f : g.get_all_factors()) { std::vector<MatX> js; f->compute_jacobians(js); o.sep(); o.open('['); for (auto& j : js) o.mat(j); o.close(']'); }
    o.close(']');
}
// A sparse matrix as a dense one, checking on the way that its storage is consistent (each stored entry once, rows in range).
static MatX densify(const Eigen::SparseMatrix<double>& s, int& bad) {
    MatX m = MatX::Zero(s.rows(), s.cols()); MatX seen = MatX::Zero(s.rows(), s.cols()); bad = 0;
    for (int k = 0; k < s.outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(s, k); it; ++it) {
            if (it.row() < 0 || it.row() >= s.rows() || it.col() < 0 || it.col() >= s.cols()) { bad++; continue; }
            if (seen(it.row(), it.col())++ > 0) bad++;
            m(it.row(), it.col()) += it.value();
        }
    return m;
}

bool op_graph(World& w, const std::string& op, In& in, Out& o) {
    if (op == "addv") { int g = in.num(), s = in.num(); o.k("g", g); o.k("s", s); G(w, g).add_variable(w.vars.at(s)); return true; }
    if (op == "addf") { int g = in.num(), s = in.num(); o.k("g", g); o.k("s", s); G(w, g).add_factor(w.facs.at(s)); return true; }
    if (op == "getv") { int g = in.num(), id = in.num(); o.k("g", g); o.k("id", id); o.k("r", w.var_slot(G(w, g).get_variable(id))); return true; }
    if (op == "lists") {
        int g = in.num(); o.k("g", g); auto& gr = G(w, g); std::vector<int> a, b; for (auto& v : gr.get_all_variables()) a.push_back(w.var_slot(v.get())); for (auto& f : gr.get_all_factors()) b.push_back(w.fac_slot(f.get()));
        o.kints("vs", a); o.kints("fs", b); o.k("num", gr.num_variables());
        auto T = [&](const char* k, auto list) { std::vector<int> c; for (auto& v : list) c.push_back(w.var_slot(v.get())); o.kints(k, c); };
        T("tpose", gr.get_variables_of_type<PoseVariable>()); T("tlm", gr.get_variables_of_type<LandmarkVariable>()); T("tgen", gr.get_variables_of_type<GenericVariable>());
        T("trot", gr.get_variables_of_type<RotationVariable>()); T("tir", gr.get_variables_of_type<InverseRangeVariable>()); T("tplane", gr.get_variables_of_type<PlaneVariable>()); T("tpose2", gr.get_variables_of_type<Pose2DVariable>());
        return true;
    }
    if (op == "fin") { int g = in.num(); o.k("g", g); G(w, g).finalize_structure(); layout(w, G(w, g), o); return true; }
    if (op == "lay") { int g = in.num(); o.k("g", g); layout(w, G(w, g), o); return true; }
    if (op == "print") { int g = in.num(); o.k("g", g); Capture c; G(w, g).print_structure(); text_out(o, c.text()); return true; }
    if (op == "pvars") {        // the whole list, and every variable on its own
        int g = in.num(); o.k("g", g); std::string all, each; { Capture c; G(w, g).print_variables(); all = c.text(); } { Capture c; for (auto& v : G(w, g).get_all_variables()) v->print(); each = c.text(); }
        o.k("eq", all.size() >= each.size() && !all.compare(all.size() - each.size(), each.size(), each)); o.k("more", (long long)lines_of(all.substr(0, all.size() - std::min(all.size(), each.size()))).size()); return true;
    }
    if (op == "pjac") {
        int g = in.num(), detailed = in.num(); o.k("g", g); o.k("det", detailed); std::string t; { Capture c; G(w, g).print_jacobian_and_residual(detailed != 0); t = c.text(); }
        o.kv("r", G(w, g).residual()); o.key("j"); o.shaped(G(w, g).jacobian()); factor_residuals(w, G(w, g), o); factor_jacobians(w, G(w, g), o);
        std::string rest; o.key("rows"); o.sep(); o.open('['); for (auto& l : lines_of(t)) { size_t b = l.raw.find_first_not_of(' '); if (b != std::string::npos && l.raw[b] == '[') nums(o, l.n); else rest += l.raw + "\n"; } o.close(']');
        text_out(o, rest); return true;
    }
    if (op == "flags") { int g = in.num(); o.k("g", g); o.k("jv", G(w, g).jacobian_valid()); o.k("rv", G(w, g).residual_valid()); return true; }
    if (op == "resid") {        // mode 0: cached overload; 1: output parameter starting as the given vector
        int g = in.num(), mode = in.num(); VecX junk = in.vec(); o.k("g", g); o.k("mode", mode);
        VecX r; if (mode == 0) r = G(w, g).compute_full_residual_vector(); else { r = junk; G(w, g).compute_full_residual_vector(r); }
        shapedv(o, "r", r); factor_residuals(w, G(w, g), o); return true;
    }
    if (op == "jac") { int g = in.num(); o.k("g", g); MatX m = G(w, g).compute_full_jacobian_matrix(); o.key("j"); o.shaped(m); factor_jacobians(w, G(w, g), o); return true; }
    if (op == "sjac") { int g = in.num(), alias = in.num(); o.k("g", g); (void)alias; int bad; MatX m = densify(G(w, g).compute_sparse_jacobian_matrix(), bad); o.k("bad", bad); o.key("j"); o.shaped(m); factor_jacobians(w, G(w, g), o); return true; }
    if (op == "both") { int g = in.num(); o.k("g", g); G(w, g).compute_full_jacobian_and_residual(); o.kv("r", G(w, g).residual()); o.key("j"); o.shaped(G(w, g).jacobian()); factor_residuals(w, G(w, g), o); factor_jacobians(w, G(w, g), o); return true; }
    if (op == "acc") {
        int g = in.num(); std::string k = in.str(); o.k("g", g); o.ks("w", k);
        if (k == "r") o.kv("r", G(w, g).residual()); else if (k == "j") { MatX m = G(w, g).jacobian(); o.key("j"); o.shaped(m); } else { int bad; MatX m = densify(G(w, g).sparse_jacobian(), bad); o.key("j"); o.shaped(m); }
        return true;
    }
    if (op == "getx") { int g = in.num(); o.k("g", g); VecX x = G(w, g).get_variable_vector(); o.kv("x", x); return true; }
    if (op == "setx") { int g = in.num(); VecX x = in.vec(); o.k("g", g); o.kv("d", x); G(w, g).set_variable_values_from_vector(x); return true; }
    if (op == "incx") { int g = in.num(); VecX x = in.vec(); o.k("g", g); o.kv("d", x); G(w, g).apply_increment(x); return true; }
    if (op == "ftest") { int g = in.num(); double tol = in.real(); int verb = in.num(); o.k("g", g); o.kr("tol", tol); o.k("r", G(w, g).detailed_factor_test(tol, verb != 0)); return true; }
    return false;
}
