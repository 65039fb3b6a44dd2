// encodes: GenericPriorFactor, GenericBetweenFactor, LinearVelocityFactor, PosePositionPriorFactor, PosePositionBetweenFactor, PlaneFactor, PlanePriorFactor, CoordinateTransformFactor (constructors, both compute_residual)
// encodes: GenericVariable, LandmarkVariable, PoseVariable, PlaneVariable, RotationVariable (constructors)
// bounds: vector sizes 1..4, velocity sizes 1..3 at every offset in variables of size up to 4 (thorough: 6), rotation angles in [2e-3, pi - 2.2e-3], sigmas and scaling radius in [1e-3, 1e3], distance from the scaling origin in [0, 1e3]; everything else unbounded
// assumes: normals given to constructors have a norm in [1e-2, 1e2]
#include "common.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/landmark_variable.hpp"

static double sigma(const std::string& n) { return input(n, 1e-3, 1e3); }
CASE(prior)
{
    int n = choose("n", 1, 4);
    double s = sigma("sigma");
    Eigen::VectorXd v = vecn("v", n), z = vecn("z", n);
    GenericVariable V(0, v);
    GenericPriorFactor f(1, &V, z, s);
    require_residual("residual", f, (v - z) / s);
    V.set_value_from_vector(z);
    require_residual("satisfied", f, Eigen::VectorXd::Zero(n));
}
CASE(between)
{
    int n = choose("n", 1, 4);
    double s = sigma("sigma");
    Eigen::VectorXd a = vecn("a", n), b = vecn("b", n), m = vecn("m", n);
    GenericVariable A(0, a), B(1, b), M(2, m);
    GenericBetweenFactor f(3, &A, &B, &M, s);
    require_residual("residual", f, (b - a - m) / s);
    B.set_value_from_vector(a + m);
    require_residual("satisfied", f, Eigen::VectorXd::Zero(n));
}
CASE(velocity)
{
#ifdef VERIF_THOROUGH
    int n = choose("n", 1, 6);
#else
    int n = choose("n", 1, 4);
#endif
    int k = choose("k", 1, n < 3 ? n : 3), off = choose("offset", 0, n - k);
    double s = sigma("sigma"), dt = input("dt");
    Eigen::VectorXd a = vecn("a", n), b = vecn("b", n), v = vecn("v", k), want(k);
    for (int i = 0; i < k; ++i) want[i] = (b[off + i] - a[off + i] - v[i] * dt) / s;
    GenericVariable A(0, a), B(1, b), V(2, v);
    LinearVelocityFactor f(3, &A, &B, &V, dt, s, off);
    require_residual("residual", f, want);
    for (int i = 0; i < k; ++i) b[off + i] = a[off + i] + v[i] * dt;
    B.set_value_from_vector(b);
    require_residual("satisfied", f, Eigen::VectorXd::Zero(k));
}
CASE(position_prior)
{
    double s = sigma("sigma");
    Eigen::Vector3d p = vec3("p"), z = vec3("z");
    PoseVariable P(0, posevec(p, rotvec("rot")));
    PosePositionPriorFactor f(1, &P, z, s);
    require_residual("residual", f, (p - z) / s);
}
CASE(position_between)
{
    bool local = choose("local", 0, 1) != 0;
    double s = sigma("sigma");
    Eigen::Vector3d a = vec3("a"), b = vec3("b"), m = vec3("m"), d = b - a;
    PoseVariable A(0, posevec(a, rotvec("rota"))), B(1, posevec(b, rotvec("rotb")));
    GenericVariable M(2, m);
    PosePositionBetweenFactor f(3, &A, &B, &M, s, local);
    if (local) d = rotmat("rota") * d;
    require_residual("residual", f, (d - m) / s);
}
CASE(plane)
{
    Eigen::Vector3d p = vec3("p"), n = unit3("n");
    double d = input("d"), s = sigma("sigma");
    LandmarkVariable P(0, p);
    PlaneVariable L(1, input("nlen", 1e-2, 1e2) * n, d);
    PlaneFactor f(2, &P, &L, s);
    double dist = n.dot(p) + d;
    require_residual("residual", f, Eigen::VectorXd::Constant(1, dist / s));
    require_eq("signed distance", L.distance_from_point(p), dist);
    PlaneFactor g(3, &P, &L, s, false, input("r0", 1e-3, 1e3), vec3("p0"));
    require_residual("scaling off", g, Eigen::VectorXd::Constant(1, dist / s));
}
CASE(plane_scaled)
{
    Eigen::Vector3d n = unit3("n"), p0 = vec3("p0");
    double d = input("d"), s = sigma("sigma"), r0 = input("r0", 1e-3, 1e3), r = input("range", 0.0, 1e3);
    Eigen::Vector3d p = p0 + r * unit3("dir");
    LandmarkVariable P(0, p);
    PlaneVariable L(1, n, d);
    PlaneFactor f(2, &P, &L, s, true, r0, p0);
    require_residual("residual", f, Eigen::VectorXd::Constant(1, (n.dot(p) + d) / (1.0 + r / r0) / s));
}
CASE(plane_prior)
{
    Eigen::Vector3d n = unit3("n"), m = unit3("m");
    double d = input("d"), dz = input("dz"), sn = sigma("sigma_n"), sd = sigma("sigma_d");
    PlaneVariable L(0, n, d);
    PlanePriorFactor f(1, &L, input("mlen", 1e-2, 1e2) * m, dz, sn, sd);
    Eigen::Vector3d t = n - m - n * n.dot(n - m);        // the part of the difference that is tangent at n
    Eigen::VectorXd want(4);
    want << t / sn, (d - dz) / sd;
    require_residual("residual", f, want);
}
CASE(transform)
{
    Eigen::Matrix3d R = rotmat("rot");
    Eigen::Vector3d o = vec3("origin"), a = vec3("a"), b = vec3("b");
    double k = input("scale"), s = sigma("sigma");
    RotationVariable Rv(0, R);
    GenericVariable ov(1, o), sv(2, Eigen::VectorXd::Constant(1, k));
    LandmarkVariable A(3, a), B(4, b);
    CoordinateTransformFactor f(5, &Rv, &ov, &sv, &A, &B, s);
    require_residual("residual", f, (a - (k * (R * b) - o)) / s);
    A.set_pos_W(k * (R * b) - o);
    require_residual("satisfied", f, Eigen::VectorXd::Zero(3));
}
