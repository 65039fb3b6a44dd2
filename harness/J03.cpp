// encodes: GenericPriorFactor, GenericBetweenFactor, LinearVelocityFactor, Pose2DPriorFactor, Pose2DBetweenFactor (constructors, compute_residual, compute_jacobians, wrap_angle)
// encodes: GenericVariable, LandmarkVariable, Pose2DVariable, PoseVariable (apply_increment)
// bounds: every set of constant variables; vector sizes 1..4 (prior, between), velocity sizes 1..3 at every offset in variables of size up to 4 (thorough: 6), sigmas in [1e-3, 1e3], headings in [-3.14, 3.14], measured angle in [-10, 10]; everything else unbounded
// assumes: the wrapped heading error stays 1e-3 away from the half turn
#include "common.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/landmark_variable.hpp"

static double sigma(const std::string& n) { return input(n, 1e-3, 1e3); }
static Eigen::Vector3d pose2(const std::string& n)
{
    return Eigen::Vector3d(input(n + ".x"), input(n + ".y"), input(n + ".heading", -3.14, 3.14));
}
static void away_from_wrap(double e) { assume_lt(std::cos(3.1405926535), std::cos(e)); }

CASE(prior)
{
    int n = choose("n", 1, 4);
    GenericVariable v(0, vecn("v", n));
    GenericPriorFactor f(1, &v, vecn("prior", n), sigma("sigma"));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("variable", f, v, J[0]);
    require_blocks_stand(f, J);
}
CASE(prior_landmark)
{
    LandmarkVariable v(0, vec3("v"));
    GenericPriorFactor f(1, &v, vecn("prior", 3), sigma("sigma"));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("variable", f, v, J[0]);
    require_blocks_stand(f, J);
}
CASE(between)
{
    int n = choose("n", 1, 4);
    GenericVariable a(0, vecn("a", n)), b(1, vecn("b", n)), m(2, vecn("m", n));
    GenericBetweenFactor f(3, &a, &b, &m, sigma("sigma"));
    Blocks J;
    f.compute_jacobians(J);
    require_true("three blocks", J.size() == 3);
    require_block("a", f, a, J[0]);
    require_block("b", f, b, J[1]);
    require_block("measured", f, m, J[2]);
    require_blocks_stand(f, J);
}
CASE(velocity)
{
#ifdef VERIF_THOROUGH
    int n = choose("n", 1, 6);
#else
    int n = choose("n", 1, 4);
#endif
    int k = choose("k", 1, n < 3 ? n : 3), off = choose("offset", 0, n - k);
    GenericVariable a(0, vecn("a", n)), b(1, vecn("b", n)), v(2, vecn("v", k));
    LinearVelocityFactor f(3, &a, &b, &v, input("dt"), sigma("sigma"), off);
    Blocks J;
    f.compute_jacobians(J);
    require_true("three blocks", J.size() == 3);
    require_block("a", f, a, J[0]);
    require_block("b", f, b, J[1]);
    require_block("velocity", f, v, J[2]);
    require_blocks_stand(f, J);
}
CASE(pose2_prior)
{
    Eigen::Vector3d x = pose2("p"), z(input("z.x"), input("z.y"), input("z.angle", -10.0, 10.0));
    away_from_wrap(x[2] - z[2]);
    Pose2DVariable p(0, x);
    Pose2DPriorFactor f(1, &p, z, sigma("sigma_p"), sigma("sigma_a"));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("pose", f, p, J[0]);
    require_blocks_stand(f, J);
}
CASE(pose2_between)
{
    bool local = choose("local", 0, 1) != 0;
    Eigen::Vector3d xa = pose2("a"), xb = pose2("b"), z(input("z.x"), input("z.y"), input("z.angle", -10.0, 10.0));
    away_from_wrap(xb[2] - xa[2] - z[2]);
    Pose2DVariable a(0, xa), b(1, xb);
    GenericVariable m(2, z);
    Pose2DBetweenFactor f(3, &a, &b, &m, sigma("sigma_p"), sigma("sigma_a"), local);
    Blocks J;
    f.compute_jacobians(J);
    require_true("three blocks", J.size() == 3);
    require_block("a", f, a, J[0]);
    require_block("b", f, b, J[1]);
    require_block("measured", f, m, J[2]);
    require_blocks_stand(f, J);
}
