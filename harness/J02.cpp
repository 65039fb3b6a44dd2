// encodes: BearingObservationFactor2D, RangeBearingFactor2D (constructors, compute_residual, compute_jacobians, wrap_angle)
// encodes: Pose2DVariable (constructor, apply_increment, dcm_2d, wrap_angle), GenericVariable::apply_increment
// bounds: every set of constant variables; range to the landmark in [1e-3, 1e3], sigmas in [1e-3, 1e3], heading and direction in [-3.14, 3.14], observed bearing in [-10, 10], unbounded position and observed range
// assumes: the wrapped bearing error stays 1e-3 away from the half turn
#include "common.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/generic_variable.hpp"

static Eigen::Vector2d direction(double phi) { return Eigen::Vector2d(std::cos(phi), std::sin(phi)); }
static Eigen::Vector3d pose2(const std::string& n)
{
    return Eigen::Vector3d(input(n + ".x"), input(n + ".y"), input(n + ".heading", -3.14, 3.14));
}
static void away_from_wrap(double phi, double theta, double z)
{
    assume_lt(std::cos(3.1405926535), std::cos(phi - theta - z));
}
CASE(bearing)
{
    Eigen::Vector3d x = pose2("p");
    double phi = input("phi", -3.14, 3.14), z = input("z", -10.0, 10.0);
    Eigen::Vector2d l = x.head<2>() + input("range", 1e-3, 1e3) * direction(phi);
    away_from_wrap(phi, x[2], z);
    Pose2DVariable pose(0, x);
    GenericVariable lm(1, l);
    BearingObservationFactor2D f(2, &pose, &lm, z, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("pose", f, pose, J[0]);
    require_block("landmark", f, lm, J[1]);
    require_blocks_stand(f, J);
}
CASE(range_bearing)
{
    Eigen::Vector3d x = pose2("p");
    double phi = input("phi", -3.14, 3.14), z = input("z", -10.0, 10.0);
    Eigen::Vector2d l = x.head<2>() + input("range", 1e-3, 1e3) * direction(phi);
    away_from_wrap(phi, x[2], z);
    Pose2DVariable pose(0, x);
    GenericVariable lm(1, l);
    RangeBearingFactor2D f(2, &pose, &lm, input("zrange", 0.0, 1e3), z, input("sigma_r", 1e-3, 1e3), input("sigma_b", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("pose", f, pose, J[0]);
    require_block("landmark", f, lm, J[1]);
    require_blocks_stand(f, J);
}
