// encodes: Pose2DVariable (constructor, set_value_from_vector, apply_increment, set_pos_2d, set_theta, pos_2d, theta, dcm_2d, wrap_angle), PlaneVariable (constructor, set_value_from_vector, apply_increment, unit_vector, distance_from_origin, distance_from_point)
// encodes: LandmarkVariable, GenericVariable (constructor, set_value_from_vector, apply_increment, value)
// bounds: headings and heading increments in [-20, 20]; positions, plane vectors, offsets unbounded (plane vectors that are set longer than 1e-3; sum of a normal and its increment longer than 1e-3); generic vectors of length 1 to 4; up to three successive operations
#include "common.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"

static const double PI_ = 3.14159265358979323846;
static void require_pose(const std::string& nm, const Pose2DVariable& v, const Eigen::Vector2d& p, double angle)
{
    if (v.value().size() != 3 || v.size() != 3) { require_true(nm + " has three values", false); return; }
    double t = v.theta();
    require_eq(nm + " position", v.pos_2d(), p);
    require_eq(nm + " position in the value", v.value().head<2>(), p);
    require_eq(nm + " heading in the value", v.value()[2], t);
    require_le(nm + " at most pi", t, PI_);
    require_le(nm + " at least -pi", -PI_, t);
    require_eq(nm + " cosine", std::cos(t), std::cos(angle));
    require_eq(nm + " sine", std::sin(t), std::sin(angle));
    Eigen::Matrix2d R = v.dcm_2d(), W;
    W << std::cos(angle), -std::sin(angle), std::sin(angle), std::cos(angle);
    require_eq(nm + " matrix", R, W);
}
static Eigen::Vector3d v3(const Eigen::Vector2d& p, double t) { return Eigen::Vector3d(p.x(), p.y(), t); }

CASE(pose2d_constructed)
{
    Eigen::Vector2d p = vec2("p");
    double t = input("theta", -20.0, 20.0);
    Pose2DVariable v(3, v3(p, t));
    require_pose("constructed", v, p, t);
    require_true("id", v.id() == 3);
    require_true("free by default", !v.is_constant());
}
CASE(pose2d_increment)
{
    Eigen::Vector2d p = vec2("p"), dp = vec2("dp");
    double t = input("theta", -PI_, PI_), dt = input("dtheta", -20.0, 20.0);
    Pose2DVariable v(3, v3(p, t));
    v.apply_increment(v3(dp, dt));
    require_pose("incremented", v, p + dp, t + dt);
    Pose2DVariable z(4, v3(p, t));
    z.apply_increment(v3(dp, 0.0));
    require_pose("translated", z, p + dp, t);
}
CASE(pose2d_increments)
{
    Eigen::Vector2d p = vec2("p"), d1 = vec2("d1"), d2 = vec2("d2");
    double t = input("theta", -PI_, PI_), t1 = input("dtheta1", -PI_, PI_), t2 = input("dtheta2", -PI_, PI_);
    Pose2DVariable v(3, v3(p, t));
    v.apply_increment(v3(d1, t1));
    v.apply_increment(v3(d2, t2));
    require_pose("incremented twice", v, p + d1 + d2, t + t1 + t2);
}
CASE(pose2d_set)
{
    Eigen::Vector2d p = vec2("p"), q = vec2("q");
    double t = input("theta", -PI_, PI_), u = input("new", -20.0, 20.0);
    Pose2DVariable a(3, v3(p, t)), b(a), c(a);
    a.set_value_from_vector(v3(q, u));
    require_pose("set_value_from_vector", a, q, u);
    b.set_theta(u);
    require_pose("set_theta", b, p, u);
    c.set_pos_2d(q);
    require_pose("set_pos_2d", c, q, t);
}
CASE(pose2d_inside)
{
    // a heading that is already inside is kept, whatever way it is set
    Eigen::Vector2d p = vec2("p");
    double t = input("theta", -3.1415, 3.1415);
    Pose2DVariable a(3, v3(p, t)), b(3, v3(p, 0.5)), c(b);
    require_eq("constructed", a.theta(), t);
    b.set_value_from_vector(v3(p, t));
    require_eq("set_value_from_vector", b.theta(), t);
    c.set_theta(t);
    require_eq("set_theta", c.theta(), t);
}
CASE(pose2d_refused)
{
    Eigen::Vector2d p = vec2("p");
    double t = input("theta", -3.0, 3.0);
    Pose2DVariable v(3, v3(p, t));
    int n = choose("n", 0, 5);
    if (n == 3) skip();
    Eigen::VectorXd d = vecn("d", n);
    require_true("increment refused", refused([&] { v.apply_increment(d); }));
    require_pose("after a refused increment", v, p, t);
    require_true("value refused", refused([&] { v.set_value_from_vector(d); }));
    require_pose("after a refused value", v, p, t);
}
static void require_plane(const std::string& nm, const PlaneVariable& v, const Eigen::Vector3d& dir, double d, const Eigen::Vector3d& q)
{
    double l = std::sqrt(dir.dot(dir));
    if (v.value().size() != 4 || v.size() != 4) { require_true(nm + " has four values", false); return; }
    require_eq(nm + " unit length", v.unit_vector().dot(v.unit_vector()), 1.0);
    require_eq(nm + " direction", v.unit_vector(), Eigen::Vector3d(dir / l));
    require_eq(nm + " direction in the value", v.value().head<3>(), v.unit_vector());
    require_eq(nm + " offset", v.distance_from_origin(), d);
    require_eq(nm + " offset in the value", v.value()[3], d);
    require_eq(nm + " distance of a point", v.distance_from_point(q), dir.dot(q) / l + d);
}
static Eigen::VectorXd v4(const Eigen::Vector3d& n, double d) { Eigen::VectorXd v(4); v << n, d; return v; }
CASE(plane_set)
{
    Eigen::Vector3d n = vec3("n"), q = vec3("q");
    double d = input("d");
    assume_lt(1e-6, n.dot(n));
    PlaneVariable v(1, n, d);
    require_plane("constructed", v, n, d, q);
    PlaneVariable u(1, unit3("m"), input("e"));
    u.set_value_from_vector(v4(n, d));
    require_plane("set", u, n, d, q);
}
CASE(plane_increment)
{
    Eigen::Vector3d n = unit3("n"), dn = vec3("dn"), q = vec3("q"), s = n + dn;
    double d = input("d"), dd = input("dd");
    assume_lt(1e-6, s.dot(s));
    PlaneVariable v(1, n, d);
    v.apply_increment(v4(dn, dd));
    require_plane("incremented", v, s, d + dd, q);
}
CASE(plane_increments)
{
    Eigen::Vector3d n = unit3("n"), dn = vec3("dn"), en = vec3("en"), q = vec3("q"), s = n + dn;
    assume_lt(1e-6, s.dot(s));
    Eigen::Vector3d u = s / std::sqrt(s.dot(s)) + en;
    assume_lt(1e-6, u.dot(u));
    PlaneVariable v(1, n, input("d"));
    v.apply_increment(v4(dn, input("dd")));
    v.apply_increment(v4(en, input("ed")));
    require_plane("incremented twice", v, u, input("d") + input("dd") + input("ed"), q);
}
CASE(plane_refused)
{
    Eigen::Vector3d n = unit3("n"), q = vec3("q");
    PlaneVariable v(1, n, input("d"));
    int k = choose("n", 0, 6);
    if (k == 4) skip();
    Eigen::VectorXd d = vecn("w", k);
    require_true("increment refused", refused([&] { v.apply_increment(d); }));
    require_plane("after a refused increment", v, n, input("d"), q);
    require_true("value refused", refused([&] { v.set_value_from_vector(d); }));
    require_plane("after a refused value", v, n, input("d"), q);
}
CASE(landmark)
{
    Eigen::Vector3d p = vec3("p"), d1 = vec3("d1"), d2 = vec3("d2"), s = vec3("s");
    LandmarkVariable v(1, p);
    require_eq("constructed", v.value(), p);
    v.apply_increment(d1);
    require_eq("incremented", v.value(), p + d1);
    v.apply_increment(d2);
    require_eq("incremented twice", v.pos_W(), p + d1 + d2);
    v.set_value_from_vector(s);
    require_eq("set", v.value(), s);
    v.set_pos_W(d1);
    require_eq("set position", v.value(), d1);
    require_eq("read position", v.pos_W(), d1);
    int n = choose("n", 0, 4);
    if (n == 3) skip();
    Eigen::VectorXd w = vecn("w", n);
    require_true("increment refused", refused([&] { v.apply_increment(w); }));
    require_eq("after a refused increment", v.value(), d1);
}
CASE(generic)
{
    int k = choose("size", 1, 4), n = choose("n", 0, 5);
    Eigen::VectorXd p = vecn("p", k), d = vecn("d", k), s = vecn("s", k);
    GenericVariable v(1, p);
    require_true("size", v.size() == k);
    require_eq("constructed", v.value(), p);
    v.apply_increment(d);
    require_eq("incremented", v.value(), p + d);
    v.apply_increment(d);
    require_eq("incremented twice", v.value(), p + 2.0 * d);
    v.set_value_from_vector(s);
    require_eq("set", v.value(), s);
    if (n == k) return;
    Eigen::VectorXd w = vecn("w", n);
    require_true("increment refused", refused([&] { v.apply_increment(w); }));
    require_true("value refused", refused([&] { v.set_value_from_vector(w); }));
    require_eq("after refused calls", v.value(), s);
    require_true("empty initial value refused", refused([&] { GenericVariable e(2, Eigen::VectorXd()); }));
}
