// encodes: BearingObservationFactor, BearingProjectionFactor2D, InverseRangeBearingFactor (constructors, compute_residual(Ref), compute_jacobians, compute_tangent_basis)
// encodes: PoseVariable (constructor, apply_increment, recompute_dcm_CW), LandmarkVariable::apply_increment, InverseRangeVariable (constructor, pos_W, apply_increment, clip_inverse_range), ExpMapSO3, LogMapSO3
// bounds: every set of constant variables; camera rotation angle in [2e-3, pi - 2.2e-3], range to the landmark in [1e-3, 1e3], sigma in [1e-3, 1e3]; position, axis, direction and observed direction unbounded
// assumes: the observed direction has a norm in [1e-2, 1e2]; inverse range strictly inside its bounds; landmark in front of the camera (projected form: depth above the cut-off, both sides explored)
#include "common.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"

CASE(bearing)
{
    Eigen::Vector3d p = vec3("p");
    Eigen::Vector3d l = p + input("range", 1e-3, 1e3) * unit3("dir");
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, l);
    Eigen::Vector3d z = input("zlen", 1e-2, 1e2) * unit3("z");
    BearingObservationFactor f(2, &pose, &lm, z, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("pose", f, pose, J[0]);
    require_block("landmark", f, lm, J[1]);
    require_blocks_stand(f, J);
}
CASE(projection)
{
    Eigen::Vector3d p = vec3("p");
    Eigen::Vector3d l = p + input("range", 1e-3, 1e3) * unit3("dir");
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, l);
    Eigen::Vector3d z = unit3("z");
    BearingProjectionFactor2D f(2, &pose, &lm, z, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("pose", f, pose, J[0]);
    require_block("landmark", f, lm, J[1]);
    require_blocks_stand(f, J);
}
CASE(inverse_range)
{
    Eigen::Vector3d p = vec3("p");
    Eigen::Vector3d dir = unit3("dir");           // from the camera to the landmark
    Eigen::Vector3d b = unit3("bearing");         // from the origin of the landmark to the landmark
    double range = input("range", 1e-3, 1e3), inv = input("inv", 1e-2, 10.0);
    Eigen::Vector3d o = p + range * dir - (1.0 / inv) * b;
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    InverseRangeVariable lm(1, o, b, 1.0 / inv);
    Eigen::Vector3d z = unit3("z");
    InverseRangeBearingFactor f(2, &pose, &lm, z, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("pose", f, pose, J[0]);
    require_block("landmark", f, lm, J[1]);
    require_blocks_stand(f, J);
}
