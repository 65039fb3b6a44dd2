// encodes: BearingObservationFactor, BearingProjectionFactor2D, InverseRangeBearingFactor, PosePositionBetweenFactor, PoseOrientationBetweenFactor, PlaneFactor, BearingObservationFactor2D, RangeBearingFactor2D, Pose2DBetweenFactor, GenericBetweenFactor, LinearVelocityFactor (constructors, compute_residual), LogMapSO3
// encodes: PoseVariable, LandmarkVariable, InverseRangeVariable, PlaneVariable, RotationVariable, Pose2DVariable, GenericVariable (constructors)
// bounds: rotation angles in [2e-3, pi - 2.2e-3] (error rotation [1e-3, pi - 2e-3]), headings and directions in [-3.14, 3.14], ranges, sigmas and scaling radius in [1e-3, 1e3], inverse ranges 1e-2..10; positions, offsets, axes and directions unbounded
// assumes: the change of frame is given by the two poses it takes into each other; the error rotation, proved equal in both frames, is then treated as an arbitrary rotation
#include "common.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/generic_variable.hpp"

static double sigma(const std::string& n) { return input(n, 1e-3, 1e3); }
static double heading(const std::string& n) { return input(n, -3.14, 3.14); }
static double range() { return input("range", 1e-3, 1e3); }
// a camera (position, orientation) and the same camera in another frame: what is at direction u and range r of the one
// is at direction u and range r of the other
struct Cam { Eigen::Vector3d p; Eigen::Matrix3d R; PoseVariable v; Cam(const std::string& n, int id) : p(vec3(n + ".p")), R(rotmat(n)), v(id, posevec(p, rotvec(n))) {}
    Eigen::Vector3d at(double r, const Eigen::Vector3d& u) const { return p + r * (R.transpose() * u); } };
CASE(bearing)
{
    Cam a("a", 0), b("b", 1);
    Eigen::Vector3d u = unit3("u"), z = unit3("z");
    double r = range(), s = sigma("sigma");
    LandmarkVariable la(2, a.at(r, u)), lb(3, b.at(r, u));
    BearingObservationFactor f(4, &a.v, &la, z, s), g(5, &b.v, &lb, z, s);
    require_eq("residual in another frame", residual(g), residual(f));
}
CASE(projection)
{
    Cam a("a", 0), b("b", 1);
    Eigen::Vector3d u = unit3("u"), z = unit3("z");
    double r = range(), s = sigma("sigma");
    assume_lt(1e-6, z.dot(u));
    LandmarkVariable la(2, a.at(r, u)), lb(3, b.at(r, u));
    BearingProjectionFactor2D f(4, &a.v, &la, z, s), g(5, &b.v, &lb, z, s);
    require_eq("residual in another frame", residual(g), residual(f));
}
CASE(inverse_range)
{
    Cam a("a", 0), b("b", 1);
    Eigen::Vector3d u = unit3("u"), z = unit3("z"), d = unit3("bearing");
    double r = range(), s = sigma("sigma"), inv = input("inv", 1e-2, 10.0);
    InverseRangeVariable la(2, a.at(r, u) - (1.0 / inv) * d, d, 1.0 / inv), lb(3, b.at(r, u) - (1.0 / inv) * (b.R.transpose() * (a.R * d)), b.R.transpose() * (a.R * d), 1.0 / inv);
    InverseRangeBearingFactor f(4, &a.v, &la, z, s), g(5, &b.v, &lb, z, s);
    require_eq("residual in another frame", residual(g), residual(f));
}
CASE(position_between)
{
    Cam a("a", 0), b("b", 1);
    Eigen::Vector3d d = vec3("d");
    double s = sigma("sigma");
    PoseVariable c(2, posevec(a.p + a.R.transpose() * d, rotvec("c"))), e(3, posevec(b.p + b.R.transpose() * d, rotvec("e")));
    GenericVariable m(4, vec3("m"));
    PosePositionBetweenFactor f(5, &a.v, &c, &m, s, true), g(6, &b.v, &e, &m, s, true);
    require_eq("residual in another frame", residual(g), residual(f));
    // in world coordinates: under a translation
    Eigen::Vector3d t = vec3("t");
    PoseVariable a2(7, posevec(a.p + t, rotvec("a"))), c2(8, posevec(a.p + a.R.transpose() * d + t, rotvec("c")));
    PosePositionBetweenFactor h(9, &a.v, &c, &m, s, false), k(10, &a2, &c2, &m, s, false);
    require_eq("residual after a translation", residual(k), residual(h));
}
CASE(orientation_between)
{
    Eigen::Matrix3d R1 = rotmat("rot1"), R2 = rotmat("rot2"), C = rotmat("calib"), S1 = rotmat("rot3"), E = R2 * R1.transpose() * C;
    // the second pose in the frame that takes the first one to S1
    Eigen::Matrix3d S2 = R2 * R1.transpose() * S1;
    double s = sigma("sigma");
    alias_all(R1); alias_all(R2); alias_all(C);
    double tr = E(0, 0) + E(1, 1) + E(2, 2);
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    require_eq("error rotation in another frame", Eigen::Matrix3d(S2 * S1.transpose() * C), E);
    cut_rotation("E", E);
    PoseVariable p1(0, posevec(vec3("p1"), rotvec("rot1"))), p2(1, posevec(vec3("p2"), rotvec("rot2")));
    RotationVariable c(2, C);
    PoseOrientationBetweenFactor f(3, &p1, &p2, &c, s);
    Eigen::VectorXd r = residual(f);
    PoseVariable q1(4, posevec(vec3("q1"), rotvec("rot1"))), q2(5, posevec(vec3("q2"), rotvec("rot2")));
    PoseOrientationBetweenFactor g(6, &q1, &q2, &c, s);
    require_eq("residual at other positions", residual(g), r);
}
CASE(plane)
{
    Eigen::Matrix3d Q = rotmat("frame");
    Eigen::Vector3d t = vec3("t"), p = vec3("p"), n = unit3("n"), m = Q * n;
    double d = input("d"), s = sigma("sigma");
    LandmarkVariable P(0, p), P2(1, Q * p + t);
    PlaneVariable L(2, n, d), L2(3, m, d - m.dot(t));
    PlaneFactor f(4, &P, &L, s), g(5, &P2, &L2, s);
    require_eq("residual in another frame", residual(g), residual(f));
}
CASE(plane_scaled)
{
    Eigen::Vector3d t = vec3("t"), n = unit3("n"), p0 = vec3("p0");
    double d = input("d"), s = sigma("sigma"), r0 = input("r0", 1e-3, 1e3);
    Eigen::Vector3d p = p0 + range() * unit3("dir");
    LandmarkVariable P(0, p), P2(1, p + t);
    PlaneVariable L(2, n, d), L2(3, n, d - n.dot(t));
    PlaneFactor f(4, &P, &L, s, true, r0, p0), g(5, &P2, &L2, s, true, r0, p0 + t);
    require_eq("residual after a translation", residual(g), residual(f));
}
// planar: a pose that sees a landmark in the world direction phi, and the same in a frame turned by psi - phi
static void require_angle(double a, double b) { require_eq("sine of the angle", std::sin(a), std::sin(b)); require_eq("cosine of the angle", std::cos(a), std::cos(b)); }
static void planar(bool with_range)
{
    Eigen::Vector2d p = vec2("p"), q = vec2("q");
    double th = heading("theta"), phi = heading("phi"), psi = heading("psi"), z = input("z", -20.0, 20.0), r = range(), s = sigma("sigma");
    Pose2DVariable a(0, Eigen::Vector3d(p[0], p[1], th)), b(1, Eigen::Vector3d(q[0], q[1], th + psi - phi));
    GenericVariable la(2, Eigen::Vector2d(p[0] + r * std::cos(phi), p[1] + r * std::sin(phi))), lb(3, Eigen::Vector2d(q[0] + r * std::cos(psi), q[1] + r * std::sin(psi)));
    if (with_range) {
        double zr = input("zrange", 0.0, 1e3), sr = sigma("sigma_r");
        RangeBearingFactor2D f(4, &a, &la, zr, z, sr, s), g(5, &b, &lb, zr, z, sr, s);
        Eigen::VectorXd x = residual(f), y = residual(g);
        require_eq("range in another frame", y[0], x[0]);
        require_angle(s * y[1], s * x[1]);
    } else {
        BearingObservationFactor2D f(4, &a, &la, z, s), g(5, &b, &lb, z, s);
        require_angle(s * residual(g)[0], s * residual(f)[0]);
    }
}
CASE(bearing_2d) { planar(false); }
CASE(range_bearing_2d) { planar(true); }
CASE(between_2d)
{
    Eigen::Vector2d p = vec2("p"), q = vec2("q"), t = vec2("t");
    double ta = heading("theta_a"), tb = heading("theta_b"), z = input("z", -20.0, 20.0), sp = sigma("sigma_p"), sa = sigma("sigma_a");
    GenericVariable m(2, Eigen::Vector3d(input("mx"), input("my"), z));
    Pose2DVariable a(0, Eigen::Vector3d(p[0], p[1], ta)), b(1, Eigen::Vector3d(q[0], q[1], tb)), a2(3, Eigen::Vector3d(p[0] + t[0], p[1] + t[1], ta)), b2(4, Eigen::Vector3d(q[0] + t[0], q[1] + t[1], tb));
    bool local = choose("local", 0, 1) == 1;
    Pose2DBetweenFactor f(5, &a, &b, &m, sp, sa, local), g(6, &a2, &b2, &m, sp, sa, local);
    require_eq("residual after a translation", residual(g), residual(f));
    // the heading error: under a rotation; the offset in the frame of the first pose too
    double w = heading("w");
    if (local) {
        double c = std::cos(w), o = std::sin(w);
        Pose2DVariable a4(10, Eigen::Vector3d(c * p[0] - o * p[1], o * p[0] + c * p[1], ta + w)), b4(11, Eigen::Vector3d(c * q[0] - o * q[1], o * q[0] + c * q[1], tb + w));
        Pose2DBetweenFactor k(12, &a4, &b4, &m, sp, sa, true);
        Eigen::VectorXd x = residual(f), y = residual(k);
        double u = std::cos(ta + 2.0 * w), v = std::sin(ta + 2.0 * w), dx = q[0] - p[0], dy = q[1] - p[1];
        known("pose2d-between-local-frame", "local offset x in another frame", y[0], (u * dx - v * dy - input("mx")) / sp);
        known("pose2d-between-local-frame", "local offset y in another frame", y[1], (v * dx + u * dy - input("my")) / sp);
        require_eq("local offset x in another frame", y[0], x[0]);
        require_eq("local offset y in another frame", y[1], x[1]);
    }
    Pose2DVariable a3(7, Eigen::Vector3d(p[0], p[1], ta + w)), b3(8, Eigen::Vector3d(q[0], q[1], tb + w));
    Pose2DBetweenFactor h(9, &a3, &b3, &m, sp, sa, local);
    require_angle(sa * residual(h)[2], sa * residual(f)[2]);
}
CASE(generic)
{
    int n = choose("size", 1, 3);
    Eigen::VectorXd a = vecn("a", n), b = vecn("b", n), t = vecn("t", n);
    double s = sigma("sigma"), dt = input("dt");
    GenericVariable A(0, a), B(1, b), A2(2, Eigen::VectorXd(a + t)), B2(3, Eigen::VectorXd(b + t)), M(4, vecn("m", n));
    GenericBetweenFactor f(5, &A, &B, &M, s), g(6, &A2, &B2, &M, s);
    require_eq("difference after a translation", residual(g), residual(f));
    LinearVelocityFactor h(7, &A, &B, &M, dt, s), k(8, &A2, &B2, &M, dt, s);
    require_eq("velocity after a translation", residual(k), residual(h));
}
