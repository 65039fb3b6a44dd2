// encodes: CoordinateTransformFactor (constructor, compute_residual, compute_jacobians, compute_analytical_jacobians), skew_symmetric
// encodes: RotationVariable (constructor, apply_increment), GenericVariable, LandmarkVariable (apply_increment), ExpMapSO3, LogMapSO3
// bounds: every set of constant variables; rotation angle in [2e-3, pi - 2.2e-3], sigma in [1e-3, 1e3]; axis, translation, scale and landmarks unbounded
#include "common.hpp"
#include "factorama/coordinate_transform_factor.hpp"

CASE(transform)
{
    RotationVariable R(0, rotmat("rot"));
    GenericVariable o(1, vec3("origin")), s(2, Eigen::VectorXd::Constant(1, input("scale")));
    LandmarkVariable a(3, vec3("a")), b(4, vec3("b"));
    CoordinateTransformFactor f(5, &R, &o, &s, &a, &b, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("five blocks", J.size() == 5);
    require_block("rotation", f, R, J[0]);
    require_block("origin", f, o, J[1]);
    require_block("scale", f, s, J[2]);
    require_block("landmark A", f, a, J[3]);
    require_block("landmark B", f, b, J[4]);
    require_blocks_stand(f, J);
}
