// encodes: PosePositionPriorFactor, PosePositionBetweenFactor (constructors, compute_residual, compute_jacobians)
// encodes: PoseVariable (constructor, apply_increment, recompute_dcm_CW), ExpMapSO3, LogMapSO3, GenericVariable::apply_increment
// bounds: every set of constant variables; rotation angle of each pose in [2e-3, pi - 2.2e-3], sigma in [1e-3, 1e3]; positions, axes and measured offset unbounded
#include "common.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/generic_variable.hpp"

CASE(prior)
{
    PoseVariable p(0, posevec(vec3("p"), rotvec("rot")));
    PosePositionPriorFactor f(1, &p, vec3("prior"), input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("pose", f, p, J[0]);
    require_blocks_stand(f, J);
}
CASE(between)
{
    bool local = choose("local", 0, 1) != 0;
    PoseVariable a(0, posevec(vec3("a"), rotvec("rota"))), b(1, posevec(vec3("b"), rotvec("rotb")));
    GenericVariable m(2, vec3("m"));
    PosePositionBetweenFactor f(3, &a, &b, &m, input("sigma", 1e-3, 1e3), local);
    Blocks J;
    f.compute_jacobians(J);
    require_true("three blocks", J.size() == 3);
    require_block("a", f, a, J[0]);
    require_block("b", f, b, J[1]);
    require_block("measured", f, m, J[2]);
    require_blocks_stand(f, J);
}
