// encodes: compute_residual (both forms), compute_jacobians, residual_size, variables of BearingObservationFactor, BearingProjectionFactor2D, InverseRangeBearingFactor, BearingObservationFactor2D, RangeBearingFactor2D, GenericPriorFactor, GenericBetweenFactor, LinearVelocityFactor, Pose2DPriorFactor, Pose2DBetweenFactor, PosePositionPriorFactor, PosePositionBetweenFactor, PoseOrientationPriorFactor, PoseOrientationBetweenFactor, RotationPriorFactor, PlaneFactor, PlanePriorFactor, CoordinateTransformFactor
// bounds: every combination of constant flags of the factor's variables; the caller's vector empty, one block too long, one too short, with blocks of another shape, or with right-shaped blocks, always with arbitrary old contents; rotation angles in [2e-3, pi - 2.2e-3], headings in [-3, 3], ranges and sigmas in [1e-3, 1e3]; generic vectors of length 1 to 3 (thorough: 4)
// assumes: the error rotation of an orientation constraint has an angle in [1e-3, pi - 2e-3]
#include "common.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/pose_2d_variable.hpp"

static double sg(const std::string& n) { return input(n, 1e-3, 1e3); }
// what can be read from a variable
static std::vector<double> observe(Variable *v)
{
    std::vector<double> o;
    for (int i = 0; i < (int)v->value().size(); ++i) o.push_back(v->value()[i]);
    Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
    if (PoseVariable *p = dynamic_cast<PoseVariable *>(v)) M = p->dcm_CW();
    else if (RotationVariable *r = dynamic_cast<RotationVariable *>(v)) M = r->rotation();
    else if (PlaneVariable *q = dynamic_cast<PlaneVariable *>(v)) { M.col(0) = q->unit_vector(); M(0, 1) = q->distance_from_origin(); }
    else if (InverseRangeVariable *i = dynamic_cast<InverseRangeVariable *>(v)) { M.col(0) = i->pos_W(); M.col(1) = i->origin_pos_W(); M.col(2) = i->bearing_W(); }
    for (int k = 0; k < 9; ++k) o.push_back(M(k / 3, k % 3));
    return o;
}
struct Watch
{
    std::vector<Variable *> vars;
    std::vector<std::vector<double>> seen;
    std::vector<bool> flag;
    explicit Watch(const std::vector<Variable *>& v) : vars(v) { for (size_t i = 0; i < v.size(); ++i) { seen.push_back(observe(v[i])); flag.push_back(v[i]->is_constant()); } }
    void require(const std::string& nm) const
    {
        for (size_t i = 0; i < vars.size(); ++i) {
            std::vector<double> o = observe(vars[i]);
            std::string n = nm + " leaves variable " + std::to_string(i);
            if (o.size() != seen[i].size() || vars[i]->is_constant() != flag[i]) { require_true(n, false); continue; }
            for (size_t k = 0; k < o.size(); ++k) require_eq(n, o[k], seen[i][k]);
        }
    }
};
static Eigen::MatrixXd old_block(const std::string& n, int r, int c)
{
    Eigen::MatrixXd M(r, c);
    double x = input("old");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) M(i, j) = x;
    return M;
}
template <class F> void contract(F& factor, const std::vector<Variable *>& vars)
{
    Factor& f = factor;
    const int n = (int)vars.size(), m = f.residual_size();
    std::vector<Variable *> got = f.variables();
    require_true("its variables in order", got == vars);
    require_true("a residual", m > 0);
    Watch before(vars);
    Eigen::VectorXd r0 = f.compute_residual();
    require_true("residual size", r0.size() == m);
    if (r0.size() != m) return;
    Eigen::VectorXd big = Eigen::VectorXd::Constant(m + 2, input("old")), byref;
    f.compute_residual(big.segment(1, m));
    byref = big.segment(1, m);
    require_eq("residual by reference", byref, r0);
    require_eq("before the segment", big[0], input("old"));
    require_eq("behind the segment", big[m + 1], input("old"));
    before.require("residual");
    Blocks fresh;
    f.compute_jacobians(fresh);
    before.require("Jacobian");
    require_true("one block per variable", (int)fresh.size() == n);
    if ((int)fresh.size() != n) return;
    bool ok = true;
    for (int i = 0; i < n; ++i) ok = ok && fresh[i].rows() == m && fresh[i].cols() == vars[i]->size();
    require_true("blocks of residual size by variable size", ok);
    if (!ok) return;
    // constant flags and what the caller's vector held before
    int flags = choose("flags", 0, (1 << n) - 1), how = choose("old_contents", 0, 4);
    for (int i = 0; i < n; ++i) vars[i]->set_constant((flags >> i & 1) != 0);
    Blocks J;
    int len = how == 0 ? 0 : how == 1 ? n + 1 : how == 2 ? n - 1 : n;
    for (int i = 0; i < len; ++i) {
        int w = i < n ? vars[i]->size() : 2;
        if (how == 2 || how == 3) J.push_back(i % 2 ? old_block("old", w, m + 1) : old_block("old", m, w + 1));
        else J.push_back(old_block("old", m, w));
    }
    Watch again(vars);
    f.compute_jacobians(J);
    again.require("Jacobian again");
    require_true("one block per variable again", (int)J.size() == n);
    if ((int)J.size() != n) return;
    for (int i = 0; i < n; ++i) {
        std::string nm = "block " + std::to_string(i);
        if (flags >> i & 1) require_true(nm + " is empty", J[i].size() == 0);
        else require_eq(nm, J[i], fresh[i]);
    }
    require_eq("residual unaffected", Eigen::VectorXd(f.compute_residual()), r0);
}
static PoseVariable pose(int id, const std::string& n) { return PoseVariable(id, posevec(vec3(n + ".p"), rotvec(n))); }
static Eigen::Vector3d planar(const std::string& n) { double x = input(n + ".x"), y = input(n + ".y"); return Eigen::Vector3d(x, y, input(n + ".t", -3.0, 3.0)); }

CASE(bearing)
{
    PoseVariable p = pose(0, "cam");
    LandmarkVariable l(1, p.pos_W() + input("range", 1e-3, 1e3) * unit3("dir"));
    BearingObservationFactor f(2, &p, &l, unit3("z"), sg("sigma"));
    contract(f, {&p, &l});
}
CASE(projection)
{
    PoseVariable p = pose(0, "cam");
    LandmarkVariable l(1, p.pos_W() + input("range", 1e-3, 1e3) * unit3("dir"));
    BearingProjectionFactor2D f(2, &p, &l, unit3("z"), sg("sigma"));
    contract(f, {&p, &l});
}
CASE(inverse_range)
{
    PoseVariable p = pose(0, "cam");
    Eigen::Vector3d dir = unit3("dir"), b = unit3("b");
    double range = input("range", 1e-3, 1e3), inv = input("inv", 1e-2, 10.0);
    InverseRangeVariable l(1, p.pos_W() + range * dir - (1.0 / inv) * b, b, 1.0 / inv);
    InverseRangeBearingFactor f(2, &p, &l, unit3("z"), sg("sigma"));
    contract(f, {&p, &l});
}
static Eigen::Vector2d seen_from(const Eigen::Vector3d& x)
{
    double a = input("dir", -3.0, 3.0), r = input("range", 1e-2, 1e3);
    return Eigen::Vector2d(x.x() + r * std::cos(a), x.y() + r * std::sin(a));
}
CASE(bearing_2d)
{
    Eigen::Vector3d x = planar("x");
    Pose2DVariable p(0, x);
    GenericVariable l(1, Eigen::VectorXd(seen_from(x)));
    BearingObservationFactor2D f(2, &p, &l, input("z", -3.0, 3.0), sg("sigma"));
    contract(f, {&p, &l});
}
CASE(range_bearing_2d)
{
    Eigen::Vector3d x = planar("x");
    Pose2DVariable p(0, x);
    GenericVariable l(1, Eigen::VectorXd(seen_from(x)));
    RangeBearingFactor2D f(2, &p, &l, input("zrange", 0.0, 1e3), input("z", -3.0, 3.0), sg("sigma_r"), sg("sigma_b"));
    contract(f, {&p, &l});
}
#ifdef VERIF_THOROUGH
static const int longest = 4;
#else
static const int longest = 3;
#endif
CASE(generic_prior)
{
    int n = choose("n", 1, longest);
    GenericVariable v(0, vecn("v", n));
    GenericPriorFactor f(1, &v, vecn("prior", n), sg("sigma"));
    contract(f, {&v});
}
CASE(generic_between)
{
    int n = choose("n", 1, longest);
    GenericVariable a(0, vecn("a", n)), b(1, vecn("b", n)), m(2, vecn("m", n));
    GenericBetweenFactor f(3, &a, &b, &m, sg("sigma"));
    contract(f, {&a, &b, &m});
}
CASE(velocity)
{
    int k = choose("k", 1, 2), off = choose("offset", 0, 1);
    GenericVariable a(0, vecn("a", 3)), b(1, vecn("b", 3)), v(2, vecn("v", k));
    LinearVelocityFactor f(3, &a, &b, &v, input("dt"), sg("sigma"), off);
    contract(f, {&a, &b, &v});
}
CASE(pose2d_prior)
{
    Pose2DVariable p(0, planar("x"));
    Pose2DPriorFactor f(1, &p, planar("z"), sg("sigma_p"), sg("sigma_a"));
    contract(f, {&p});
}
CASE(pose2d_between)
{
    Pose2DVariable a(0, planar("a")), b(1, planar("b"));
    GenericVariable m(2, Eigen::VectorXd(planar("m")));
    Pose2DBetweenFactor f(3, &a, &b, &m, sg("sigma_p"), sg("sigma_a"), choose("local", 0, 1) == 1);
    contract(f, {&a, &b, &m});
}
CASE(position_prior)
{
    PoseVariable p = pose(0, "x");
    PosePositionPriorFactor f(1, &p, vec3("prior"), sg("sigma"));
    contract(f, {&p});
}
CASE(position_between)
{
    PoseVariable a = pose(0, "a"), b = pose(1, "b");
    GenericVariable m(2, vec3("m"));
    PosePositionBetweenFactor f(3, &a, &b, &m, sg("sigma"), choose("local", 0, 1) == 1);
    contract(f, {&a, &b, &m});
}
static void error_rotation(const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);          // 1 + 2 cos(angle)
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation("E", E);
}
CASE(orientation_prior)
{
    Eigen::Matrix3d R = rotmat("x"), P = rotmat("prior");
    alias_all(R); alias_all(P);
    error_rotation(R * P.transpose());
    PoseVariable p = pose(0, "x");
    PoseOrientationPriorFactor f(1, &p, P, sg("sigma"));
    contract(f, {&p});
}
CASE(rotation_prior)
{
    Eigen::Matrix3d R = rotmat("x"), P = rotmat("prior");
    alias_all(R); alias_all(P);
    error_rotation(R * P.transpose());
    RotationVariable v(0, R);
    RotationPriorFactor f(1, &v, P, sg("sigma"));
    contract(f, {&v});
}
CASE(orientation_between)
{
    Eigen::Matrix3d R1 = rotmat("a"), R2 = rotmat("b"), C = rotmat("c");
    alias_all(R1); alias_all(R2); alias_all(C);
    error_rotation(R2 * R1.transpose() * C);
    PoseVariable a = pose(0, "a"), b = pose(1, "b");
    RotationVariable c(2, C);
    PoseOrientationBetweenFactor f(3, &a, &b, &c, sg("sigma"));
    contract(f, {&a, &b, &c});
}
CASE(plane)
{
    PlaneVariable pl(0, unit3("n"), input("d"));
    Eigen::Vector3d p0 = vec3("p0"), x = p0 + input("range", 1e-3, 1e3) * unit3("dir");
    bool scaled = choose("scaled", 0, 1) == 1;
    if (choose("point", 0, 1) == 0) {
        LandmarkVariable p(1, x);
        if (scaled) { PlaneFactor f(2, &p, &pl, sg("sigma"), true, sg("r0"), p0); contract(f, {&p, &pl}); }
        else { PlaneFactor f(2, &p, &pl, sg("sigma")); contract(f, {&p, &pl}); }
    } else {
        GenericVariable p(1, Eigen::VectorXd(x));
        PlaneFactor f(2, &p, &pl, sg("sigma"), scaled, sg("r0"), p0);
        contract(f, {&p, &pl});
    }
}
CASE(plane_prior)
{
    PlaneVariable pl(0, unit3("n"), input("d"));
    PlanePriorFactor f(1, &pl, unit3("m"), input("dprior"), sg("sigma_n"), sg("sigma_d"));
    contract(f, {&pl});
}
CASE(transform)
{
    RotationVariable R(0, rotmat("rot"));
    GenericVariable o(1, vec3("origin")), s(2, Eigen::VectorXd::Constant(1, input("scale")));
    LandmarkVariable a(3, vec3("a")), b(4, vec3("b"));
    CoordinateTransformFactor f(5, &R, &o, &s, &a, &b, sg("sigma"));
    contract(f, {&R, &o, &s, &a, &b});
}
