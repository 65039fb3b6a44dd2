// encodes: PlaneFactor (both constructors, both modes), PlanePriorFactor (constructor, compute_residual, compute_jacobians)
// encodes: PlaneVariable (constructor, apply_increment, distance_from_point), LandmarkVariable::apply_increment
// bounds: every set of constant variables; sigmas and scaling radius in [1e-3, 1e3], distance of the point from the scaling origin in [1e-3, 1e3]; point, plane, prior and scaling origin unbounded
// assumes: normals given to constructors have a norm in [1e-2, 1e2]
#include "common.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"

CASE(plain)
{
    LandmarkVariable p(0, vec3("p"));
    PlaneVariable pl(1, input("nlen", 1e-2, 1e2) * unit3("n"), input("d"));
    PlaneFactor f(2, &p, &pl, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("point", f, p, J[0]);
    require_block("plane", f, pl, J[1]);
    require_blocks_stand(f, J);
}
CASE(scaled)
{
    bool on = choose("scaling", 0, 1) != 0;
    Eigen::Vector3d p0 = vec3("p0");
    LandmarkVariable p(0, p0 + input("range", 1e-3, 1e3) * unit3("dir"));
    PlaneVariable pl(1, unit3("n"), input("d"));
    PlaneFactor f(2, &p, &pl, input("sigma", 1e-3, 1e3), on, input("r0", 1e-3, 1e3), p0);
    Blocks J;
    f.compute_jacobians(J);
    require_true("two blocks", J.size() == 2);
    require_block("point", f, p, J[0]);
    require_block("plane", f, pl, J[1]);
    require_blocks_stand(f, J);
}
CASE(prior)
{
    PlaneVariable pl(0, unit3("n"), input("d"));
    PlanePriorFactor f(1, &pl, input("mlen", 1e-2, 1e2) * unit3("m"), input("dprior"), input("sigma_n", 1e-3, 1e3), input("sigma_d", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("plane", f, pl, J[0]);
    require_blocks_stand(f, J);
}
