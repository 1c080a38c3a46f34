// Construction and observation of variables and factors, and the user-defined types of the harness.
#include "driver.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/rotation_variable.hpp"
#include <cmath>
#include <limits>
#include <stdexcept>
using namespace factorama;
using Eigen::Matrix3d;
using Eigen::Vector2d;
using Eigen::Vector3d;

static Vector3d v3(const VecX& d, int i) { return d.segment<3>(i); }
static Matrix3d m3(const VecX& d, int i) { Matrix3d m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m(r, c) = d(i + 3 * r + c); return m; }

// A user-defined vector-space variable.
class UsrVariable : public Variable {
public:
    UsrVariable(int id, const VecX& x) : x_(x) { id_ = id; }
    int size() const override { return x_.size(); }
    const VecX& value() const override { return x_; }
    void set_value_from_vector(const VecX& x) override { if (x.size() != size()) throw std::runtime_error("size"); x_ = x; }
    void apply_increment(const VecX& dx) override { if (dx.size() != size()) throw std::runtime_error("size"); x_ += dx; }
    VariableType::VariableTypeEnum type() const override { return VariableType::custom; }
    std::shared_ptr<Variable> clone() const override { return std::make_shared<UsrVariable>(*this); }
    VecX x_;
};

// User-defined factors.  x is the concatenation of the variables' values.
//   0 linear:  w*(A x - b)                 d = [w, rows, A row-major..., b...]
//   1 rosen:   w*(10(x2 - x1^2), 1 - x1)    d = [w]
//   2 atan:    w*atan(a x1)                d = [w, a]
//   3 exp:     w*(exp(a x1) - c)           d = [w, a, c]
//   4 linear with a wrong Jacobian entry   d = [row, col, delta, w, rows, A..., b...]
//   5 region:  w*(x - p), residual := bad value if x1 > t   d = [w, t, bad, p...]
//   6 region:  w*(x - p), Jacobian entry := bad if x1 > t   d = [w, t, bad, p...]
//   7 region:  w*(x - p), throws in residual if x1 > t      d = [w, t, 0, p...]
//   8 region:  w*(x - p), throws in Jacobian if x1 > t      d = [w, t, 0, p...]
//   9 table:   (r, 0, ...)                d = [w, rows, n, (x, r, J, flag) * n]: the entry whose x is nearest to the first value;
//              J in row 0, column 0, else 0; flag 1: the residual throws, 2: the Jacobian throws
// arm(r, j): the r-th residual / j-th Jacobian evaluation from now on throws (0: never).
class UsrFactor : public Factor {
public:
    UsrFactor(int id, std::vector<Variable*> vs, int kind, VecX d) : vs_(vs), k_(kind), d_(d) { id_ = id; }
    VecX x() const { int n = 0; for (auto v : vs_) n += v->size(); VecX r(n); int o = 0; for (auto v : vs_) { r.segment(o, v->size()) = v->value(); o += v->size(); } return r; }
    int lin0() const { return k_ == 4 ? 3 : 0; }
    int residual_size() const override {
        switch (k_) { case 0: case 4: return int(d_(lin0() + 1)); case 1: return 2; case 2: case 3: return 1; case 9: return int(d_(1)); default: return int(d_.size()) - 3; }
    }
    int entry(double x) const { int b = 3; for (int i = 0; i < int(d_(2)); i++) if (std::abs(d_(3 + 4 * i) - x) < std::abs(d_(b) - x)) b = 3 + 4 * i; return b; }
    VecX compute_residual() const override {
        if (nr_ > 0 && --nr_ == 0) throw std::runtime_error("armed residual");
        VecX z = x(), r(residual_size());
        switch (k_) {
        case 0: case 4: { int o = lin0(), m = residual_size(), n = z.size(); for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += d_(o + 2 + i * n + j) * z(j); r(i) = d_(o) * (s - d_(o + 2 + m * n + i)); } break; }
        case 1: r << d_(0) * 10.0 * (z(1) - z(0) * z(0)), d_(0) * (1.0 - z(0)); break;
        case 2: r << d_(0) * std::atan(d_(1) * z(0)); break;
        case 3: r << d_(0) * (std::exp(d_(1) * z(0)) - d_(2)); break;
        case 9: { int e = entry(z(0)); if (d_(e + 3) == 1) throw std::runtime_error("usr residual"); r.setZero(); r(0) = d_(0) * d_(e + 1); break; }
        default:
            if (k_ == 7 && z(0) > d_(1)) throw std::runtime_error("usr residual");
            r = d_(0) * (z - d_.tail(z.size()));
            if (k_ == 5 && z(0) > d_(1)) r(0) = d_(2);
        }
        return r;
    }
    void compute_residual(Eigen::Ref<VecX> out) const override { out = compute_residual(); }
    void compute_jacobians(std::vector<MatX>& js) const override {
        if (nj_ > 0 && --nj_ == 0) throw std::runtime_error("armed jacobian");
        VecX z = x(); int m = residual_size(), n = z.size(); MatX J = MatX::Zero(m, n);
        switch (k_) {
        case 0: case 4: { int o = lin0(); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) J(i, j) = d_(o) * d_(o + 2 + i * n + j); if (k_ == 4) J(int(d_(0)), int(d_(1))) += d_(2); break; }
        case 1: J << -20.0 * d_(0) * z(0), 10.0 * d_(0), -d_(0), 0; break;
        case 2: J(0, 0) = d_(0) * d_(1) / (1 + d_(1) * d_(1) * z(0) * z(0)); break;
        case 3: J(0, 0) = d_(0) * d_(1) * std::exp(d_(1) * z(0)); break;
        case 9: { int e = entry(z(0)); if (d_(e + 3) == 2) throw std::runtime_error("usr jacobian"); J(0, 0) = d_(0) * d_(e + 2); break; }
        default:
            if (k_ == 8 && z(0) > d_(1)) throw std::runtime_error("usr jacobian");
            J.diagonal().setConstant(d_(0));
            if (k_ == 6 && z(0) > d_(1)) J(0, 0) = d_(2);
        }
        js.resize(vs_.size()); int o = 0;
        for (size_t i = 0; i < vs_.size(); i++) { int s = vs_[i]->size(); js[i] = vs_[i]->is_constant() ? MatX() : MatX(J.block(0, o, m, s)); o += s; }
    }
    std::vector<Variable*> variables() override { return vs_; }
    FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    std::vector<Variable*> vs_; int k_; VecX d_;
    mutable int nr_ = 0, nj_ = 0;
};
bool usr_arm(Factor* f, int r, int j) { auto u = dynamic_cast<UsrFactor*>(f); if (!u) return false; u->nr_ = r; u->nj_ = j; return true; }

std::shared_ptr<Variable> make_variable(In& in, const std::string& k, int id) {
    VecX d = in.vec();
    if (k == "pose") return std::make_shared<PoseVariable>(id, Eigen::Matrix<double, 6, 1>(d));
    if (k == "poseR") return std::make_shared<PoseVariable>(id, v3(d, 0), m3(d, 3));
    if (k == "lm") return std::make_shared<LandmarkVariable>(id, v3(d, 0));
    if (k == "gen") return std::make_shared<GenericVariable>(id, d);
    if (k == "rot") return std::make_shared<RotationVariable>(id, m3(d, 0));
    if (k == "ir") return std::make_shared<InverseRangeVariable>(id, v3(d, 0), v3(d, 3), d(6));
    if (k == "plane") return std::make_shared<PlaneVariable>(id, v3(d, 0), d(3));
    if (k == "pose2") return std::make_shared<Pose2DVariable>(id, v3(d, 0));
    if (k == "usr") return std::make_shared<UsrVariable>(id, d);
    std::fprintf(stderr, "unknown variable kind %s\n", k.c_str()); _exit(97);
}

std::shared_ptr<Factor> make_factor(World& w, const std::string& k, int id, const std::vector<int>& vs, const VecX& d, const std::vector<int>& n) {
    auto V = [&](int i) { return w.var(vs[i]); };
    auto PO = [&](int i) { return dynamic_cast<PoseVariable*>(V(i)); };
    auto P2 = [&](int i) { return dynamic_cast<Pose2DVariable*>(V(i)); };
    auto LM = [&](int i) { return dynamic_cast<LandmarkVariable*>(V(i)); };
    auto RO = [&](int i) { return dynamic_cast<RotationVariable*>(V(i)); };
    auto PL = [&](int i) { return dynamic_cast<PlaneVariable*>(V(i)); };
    auto GE = [&](int i) { return dynamic_cast<GenericVariable*>(V(i)); };
    auto IR = [&](int i) { return dynamic_cast<InverseRangeVariable*>(V(i)); };
    // arguments that have their default value are left out
    if (d.size() && d(0) == 1.0) {
        if (k == "bear") return std::make_shared<BearingObservationFactor>(id, PO(0), LM(1), v3(d, 1));
        if (k == "irb") return std::make_shared<InverseRangeBearingFactor>(id, PO(0), IR(1), v3(d, 1));
        if (k == "bp2" && d(4) == 1e-6) return std::make_shared<BearingProjectionFactor2D>(id, PO(0), LM(1), v3(d, 1));
        if (k == "b2") return std::make_shared<BearingObservationFactor2D>(id, P2(0), V(1), d(1));
        if (k == "rb2" && d(1) == 1.0) return std::make_shared<RangeBearingFactor2D>(id, P2(0), V(1), d(2), d(3));
        if (k == "gp") return std::make_shared<GenericPriorFactor>(id, V(0), VecX(d.tail(d.size() - 1)));
        if (k == "gb") return std::make_shared<GenericBetweenFactor>(id, V(0), V(1), V(2));
        if (k == "lv" && n[0] == 0) return std::make_shared<LinearVelocityFactor>(id, V(0), V(1), V(2), d(1));
        if (k == "ppp") return std::make_shared<PosePositionPriorFactor>(id, PO(0), v3(d, 1));
        if (k == "pop") return std::make_shared<PoseOrientationPriorFactor>(id, PO(0), m3(d, 1));
        if (k == "ppb" && n[0] == 0) return std::make_shared<PosePositionBetweenFactor>(id, PO(0), PO(1), V(2));
        if (k == "pob") return std::make_shared<PoseOrientationBetweenFactor>(id, PO(0), PO(1), RO(2));
        if (k == "rp") return std::make_shared<RotationPriorFactor>(id, RO(0), m3(d, 1));
        if (k == "ct") return std::make_shared<CoordinateTransformFactor>(id, RO(0), GE(1), GE(2), LM(3), LM(4));
        if (k == "pl" && n[0] == 0) return std::make_shared<PlaneFactor>(id, V(0), PL(1));
        if (k == "plp" && d(1) == 1.0) return std::make_shared<PlanePriorFactor>(id, PL(0), v3(d, 2), d(5));
    }
    if (k == "bp2" && d(4) == 1e-6) return std::make_shared<BearingProjectionFactor2D>(id, PO(0), LM(1), v3(d, 1), d(0));
    if (k == "rb2" && d(1) == 1.0) return std::make_shared<RangeBearingFactor2D>(id, P2(0), V(1), d(2), d(3), d(0));
    if (k == "plp" && d(1) == 1.0) return std::make_shared<PlanePriorFactor>(id, PL(0), v3(d, 2), d(5), d(0));
    if (k == "lv" && n[0] == 0) return std::make_shared<LinearVelocityFactor>(id, V(0), V(1), V(2), d(1), d(0));
    if (k == "ppb" && n[0] == 0) return std::make_shared<PosePositionBetweenFactor>(id, PO(0), PO(1), V(2), d(0));
    if (k == "p2b" && n[0] == 0) return std::make_shared<Pose2DBetweenFactor>(id, P2(0), P2(1), V(2), d(0), d(1));
    if (k == "bear") return std::make_shared<BearingObservationFactor>(id, PO(0), LM(1), v3(d, 1), d(0));
    if (k == "irb") return std::make_shared<InverseRangeBearingFactor>(id, PO(0), IR(1), v3(d, 1), d(0));
    if (k == "bp2") return std::make_shared<BearingProjectionFactor2D>(id, PO(0), LM(1), v3(d, 1), d(0), d(4));
    if (k == "b2") return std::make_shared<BearingObservationFactor2D>(id, P2(0), V(1), d(1), d(0));
    if (k == "rb2") return std::make_shared<RangeBearingFactor2D>(id, P2(0), V(1), d(2), d(3), d(0), d(1));
    if (k == "p2p") return std::make_shared<Pose2DPriorFactor>(id, P2(0), v3(d, 2), d(0), d(1));
    if (k == "p2b") return std::make_shared<Pose2DBetweenFactor>(id, P2(0), P2(1), V(2), d(0), d(1), n[0] != 0);
    if (k == "gp") return std::make_shared<GenericPriorFactor>(id, V(0), VecX(d.tail(d.size() - 1)), d(0));
    if (k == "gb") return std::make_shared<GenericBetweenFactor>(id, V(0), V(1), V(2), d(0));
    if (k == "lv") return std::make_shared<LinearVelocityFactor>(id, V(0), V(1), V(2), d(1), d(0), n[0]);
    if (k == "ppp") return std::make_shared<PosePositionPriorFactor>(id, PO(0), v3(d, 1), d(0));
    if (k == "pop") return std::make_shared<PoseOrientationPriorFactor>(id, PO(0), m3(d, 1), d(0));
    if (k == "ppb") return std::make_shared<PosePositionBetweenFactor>(id, PO(0), PO(1), V(2), d(0), n[0] != 0);
    if (k == "pob") return std::make_shared<PoseOrientationBetweenFactor>(id, PO(0), PO(1), RO(2), d(0));
    if (k == "rp") return std::make_shared<RotationPriorFactor>(id, RO(0), m3(d, 1), d(0));
    if (k == "ct") return std::make_shared<CoordinateTransformFactor>(id, RO(0), GE(1), GE(2), LM(3), LM(4), d(0));
    if (k == "pl") { if (n[0]) return std::make_shared<PlaneFactor>(id, V(0), PL(1), d(0), n[0] == 1, d(1), v3(d, 2)); return std::make_shared<PlaneFactor>(id, V(0), PL(1), d(0)); }
    if (k == "plp") return std::make_shared<PlanePriorFactor>(id, PL(0), v3(d, 2), d(5), d(0), d(1));
    if (k == "usr") { std::vector<Variable*> p; for (int s : vs) p.push_back(w.var(s)); return std::make_shared<UsrFactor>(id, p, n[0], d); }
    std::fprintf(stderr, "unknown factor kind %s\n", k.c_str()); _exit(97);
}

// Observable state.  "a" lists every other public view of the value, in a fixed order per kind.
void var_record(Out& o, const Variable* cv) {
    Variable* v = const_cast<Variable*>(cv);
    o.k("t", int(v->type())); o.k("id", v->id()); o.k("n", v->size()); o.k("c", v->is_constant()); o.kv("x", v->value());
    o.key("a"); o.sep(); o.open('[');
    if (auto p = dynamic_cast<PoseVariable*>(v)) { o.vec(p->pos_W()); o.vec(p->rot_CW()); Matrix3d R = p->dcm_CW(); for (int i = 0; i < 3; i++) o.vec(Vector3d(R.row(i))); }
    else if (auto p = dynamic_cast<LandmarkVariable*>(v)) o.vec(p->pos_W());
    else if (auto p = dynamic_cast<RotationVariable*>(v)) { Matrix3d R = p->rotation(); for (int i = 0; i < 3; i++) o.vec(Vector3d(R.row(i))); Matrix3d Q = p->dcm_AB(); for (int i = 0; i < 3; i++) o.vec(Vector3d(Q.row(i))); }
    else if (auto p = dynamic_cast<InverseRangeVariable*>(v)) { o.vec(p->origin_pos_W()); o.vec(p->bearing_W()); o.vec(VecX::Constant(1, p->inverse_range())); o.vec(p->pos_W()); o.vec(Vector2d(p->minimum_inverse_range_, p->maximum_inverse_range_)); }
    else if (auto p = dynamic_cast<PlaneVariable*>(v)) { o.vec(p->unit_vector()); o.vec(VecX::Constant(1, p->distance_from_origin())); o.vec(VecX::Constant(1, p->distance_from_point(Vector3d(1.5, -2.25, 0.5)))); }
    else if (auto p = dynamic_cast<Pose2DVariable*>(v)) { o.vec(p->pos_2d()); o.vec(VecX::Constant(1, p->theta())); Eigen::Matrix2d R = p->dcm_2d(); for (int i = 0; i < 2; i++) o.vec(Vector2d(R.row(i))); }
    o.close(']');
}

bool var_setter(Variable* v, const std::string& what, const VecX& d) {
    if (auto p = dynamic_cast<PoseVariable*>(v)) {
        if (what == "pose") { p->set_pose_vector(Eigen::Matrix<double, 6, 1>(d)); return true; }
        if (what == "pos") { p->set_pos_W(v3(d, 0)); return true; }
        if (what == "dcm") { p->set_dcm_CW(m3(d, 0)); return true; }
    }
    if (auto p = dynamic_cast<LandmarkVariable*>(v)) if (what == "pos") { p->set_pos_W(v3(d, 0)); return true; }
    if (auto p = dynamic_cast<Pose2DVariable*>(v)) {
        if (what == "pos") { p->set_pos_2d(Vector2d(d)); return true; }
        if (what == "theta") { p->set_theta(d(0)); return true; }
    }
    if (auto p = dynamic_cast<InverseRangeVariable*>(v)) if (what == "lim") { p->minimum_inverse_range_ = d(0); p->maximum_inverse_range_ = d(1); return true; }
    return false;
}

VecX factor_weights(Factor* f) {
    auto one = [](auto p) { return VecX(VecX::Constant(1, p->weight())); };
    if (auto p = dynamic_cast<BearingObservationFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<InverseRangeBearingFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<BearingProjectionFactor2D*>(f)) return one(p);
    if (auto p = dynamic_cast<BearingObservationFactor2D*>(f)) return one(p);
    if (auto p = dynamic_cast<GenericPriorFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<GenericBetweenFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<LinearVelocityFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<PosePositionPriorFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<PoseOrientationPriorFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<PosePositionBetweenFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<PoseOrientationBetweenFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<RotationPriorFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<CoordinateTransformFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<PlaneFactor*>(f)) return one(p);
    if (auto p = dynamic_cast<RangeBearingFactor2D*>(f)) return Vector2d(p->range_weight(), p->bearing_weight());
    if (auto p = dynamic_cast<Pose2DPriorFactor*>(f)) return Vector2d(p->position_weight(), p->angle_weight());
    if (auto p = dynamic_cast<Pose2DBetweenFactor*>(f)) return Vector2d(p->position_weight(), p->angle_weight());
    return VecX(0);
}

VecX factor_views(Factor* f) {
    if (auto p = dynamic_cast<BearingObservationFactor*>(f)) return p->bearing_C_obs();
    if (auto p = dynamic_cast<InverseRangeBearingFactor*>(f)) return p->bearing_C_obs();
    if (auto p = dynamic_cast<BearingProjectionFactor2D*>(f)) return p->bearing_C_obs();
    if (auto p = dynamic_cast<BearingObservationFactor2D*>(f)) return VecX::Constant(1, p->bearing_angle_obs());
    if (auto p = dynamic_cast<RangeBearingFactor2D*>(f)) return Vector2d(p->range_obs(), p->bearing_angle_obs());
    if (auto p = dynamic_cast<CoordinateTransformFactor*>(f)) return VecX::Constant(1, p->weight());
    return VecX(0);
}
