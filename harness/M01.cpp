// encodes: BearingObservationFactor, BearingProjectionFactor2D, InverseRangeBearingFactor (constructors, both compute_residual, compute_tangent_basis, compute_jacobians behind the camera)
// encodes: PoseVariable (constructor, recompute_dcm_CW), LandmarkVariable, InverseRangeVariable (constructor, pos_W, clip_inverse_range)
// bounds: camera rotation angle in [2e-3, pi - 2.2e-3], range in [1e-3, 1e3], sigma in [1e-3, 1e3]; position, axis, direction and observed direction unbounded
// assumes: the observed direction has a norm in [1e-2, 1e2]; inverse range strictly inside its bounds
#include "common.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"

CASE(bearing)
{
    // the landmark is placed at camera-frame direction u
    Eigen::Vector3d p = vec3("p"), u = unit3("u"), z = unit3("z");
    double s = input("sigma", 1e-3, 1e3);
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, p + input("range", 1e-3, 1e3) * (rotmat("cam").transpose() * u));
    BearingObservationFactor f(2, &pose, &lm, input("zlen", 1e-2, 1e2) * z, s);
    require_residual("residual", f, (u - z) / s);
}
CASE(inverse_range)
{
    Eigen::Vector3d p = vec3("p"), u = unit3("u"), z = unit3("z"), b = unit3("bearing");
    double s = input("sigma", 1e-3, 1e3), inv = input("inv", 1e-2, 10.0);
    Eigen::Vector3d o = p + input("range", 1e-3, 1e3) * (rotmat("cam").transpose() * u) - (1.0 / inv) * b;
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    InverseRangeVariable lm(1, o, b, 1.0 / inv);
    InverseRangeBearingFactor f(2, &pose, &lm, input("zlen", 1e-2, 1e2) * z, s);
    require_residual("residual", f, (u - z) / s);
}
// the scalar products of the residuals of any two landmarks are those of the projections of their directions, so the
// residual is the coordinate vector in an orthonormal basis of the plane
CASE(projection)
{
    Eigen::Vector3d p = vec3("p"), u = unit3("u"), v = unit3("v"), z = unit3("z");
    double s = input("sigma", 1e-3, 1e3);
    Eigen::Matrix3d Rt = rotmat("cam").transpose();
    assume_lt(1e-6, z.dot(u));
    assume_lt(1e-6, z.dot(v));
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lu(1, p + input("range_u", 1e-3, 1e3) * (Rt * u)), lv(2, p + input("range_v", 1e-3, 1e3) * (Rt * v));
    BearingProjectionFactor2D fu(3, &pose, &lu, input("zlen", 1e-2, 1e2) * z, s), fv(4, &pose, &lv, z, s);
    Eigen::VectorXd ru = residual(fu), rv = residual(fv);
    require_true("two coordinates", ru.size() == 2 && rv.size() == 2);
    require_eq("length", s * s * (ru[0] * ru[0] + ru[1] * ru[1]), 1.0 - z.dot(u) * z.dot(u));
    require_eq("scalar product", s * s * (ru[0] * rv[0] + ru[1] * rv[1]), u.dot(v) - z.dot(u) * z.dot(v));
    require_residual("residual", fu, ru);
}
CASE(behind)
{
    Eigen::Vector3d p = vec3("p"), u = unit3("u"), v = unit3("v"), z = unit3("z");
    double s = input("sigma", 1e-3, 1e3);
    Eigen::Matrix3d Rt = rotmat("cam").transpose();
    assume_lt(z.dot(u), 0.0);
    assume_lt(z.dot(v), 0.0);
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, p + input("range_u", 1e-3, 1e3) * (Rt * u));
    BearingProjectionFactor2D f(3, &pose, &lm, z, s);
    Eigen::VectorXd r = residual(f);
    require_residual("residual", f, r);
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2 && J[0].rows() == 2 && J[0].cols() == 6 && J[1].rows() == 2 && J[1].cols() == 3);
    require_eq("pose block", J[0], Eigen::MatrixXd(Eigen::MatrixXd::Zero(2, 6)));
    require_eq("landmark block", J[1], Eigen::MatrixXd(Eigen::MatrixXd::Zero(2, 3)));
    lm.set_pos_W(p + input("range_v", 1e-3, 1e3) * (Rt * v));
    require_residual("residual elsewhere", f, r);
}
