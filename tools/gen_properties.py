#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/factorama/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])))
S = "src/factorama/"
JT = ("The unit tests compare each Jacobian with finite differences at a handful of hand-picked poses and measurements, "
      "with loose tolerances; an error that vanishes at those values (zero translation, identity rotation, unit weight, "
      "commuting axes) passes. The claim is over every real-valued state, measurement and sigma.")
prop("J01", "3D landmark measurement Jacobians are the exact derivative of the residual",
 "For a bearing, projected-bearing or inverse-range bearing measurement between a 3D camera pose and a landmark, the Jacobian block the factor returns for each variable equals the derivative of that factor's own residual with respect to that variable's increment. This holds for every camera pose, landmark position, observed direction and sigma at which the landmark is in view and not at the camera centre.",
 ["inputs"], "all camera poses, landmark positions or inverse ranges, observed directions and sigmas (reals)", JT,
 ["bearing_observation_factor.cpp", "bearing_projection_factor_2d.cpp", "inverse_range_bearing_factor.cpp", "pose_variable.cpp"],
 [("analytic Jacobians", S+"bearing_observation_factor.cpp compute_jacobians, "+S+"bearing_projection_factor_2d.cpp compute_jacobians, "+S+"inverse_range_bearing_factor.cpp compute_jacobians")],
 "Factor::compute_jacobians, Factor::compute_residual, Variable::apply_increment")
prop("J02", "Planar measurement Jacobians are the exact derivative of the residual",
 "For a planar bearing or range-bearing measurement between a 2D pose and a 2D landmark, the Jacobian returned for each variable equals the derivative of the factor's own residual with respect to that variable's increment. This holds for every pose, heading, landmark, measurement and sigma with the landmark away from the pose and the angular error away from the wrap-around.",
 ["inputs"], "all planar poses, landmarks, ranges, bearings and sigmas (reals)", JT,
 ["bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "pose_2d_variable.cpp"],
 [("analytic Jacobians", S+"bearing_observation_factor_2d.cpp, "+S+"range_bearing_factor_2d.cpp compute_jacobians")],
 "Factor::compute_jacobians")
prop("J03", "Vector and planar-pose prior/between Jacobians are exact",
 "For generic priors, generic between constraints, linear-velocity constraints, planar-pose priors and planar-pose between constraints in either frame mode, every Jacobian block equals the derivative of the factor's own residual with respect to that variable's increment. This holds for every variable value, measurement, time step, sub-vector offset and sigma.",
 ["inputs", "configurations"], "all values, measurements, time steps, sigmas, both frame modes, dimensions and offsets within the bound", JT,
 ["generic_prior_factor.hpp", "generic_between_factor.cpp", "linear_velocity_factor.cpp", "pose_2d_prior_factor.cpp", "pose_2d_between_factor.cpp"],
 [("analytic Jacobians", "compute_jacobians of each listed factor")], "Factor::compute_jacobians")
prop("J04", "3D pose position constraint Jacobians are exact",
 "For a 3D pose position prior and a 3D pose position between constraint, in the world frame and in the first pose's local frame, every Jacobian block equals the derivative of the factor's own residual with respect to that variable's increment. This holds for every pair of poses, measured offset and sigma.",
 ["inputs", "configurations"], "all poses, measured offsets and sigmas, both frame modes", JT,
 ["pose_between_factors.hpp", "pose_prior_factors.cpp", "pose_variable.cpp"],
 [("analytic Jacobians", S+"pose_between_factors.hpp PosePositionBetweenFactor, "+S+"pose_prior_factors.cpp PosePositionPriorFactor")],
 "Factor::compute_jacobians")
prop("J05", "Orientation constraint Jacobians are exact",
 "For an orientation prior on a pose, an orientation prior on a free rotation and a relative-orientation constraint with a calibration rotation, every Jacobian block equals the derivative of the rotation-vector residual with respect to a left-multiplied rotation increment of that variable. This holds for every orientation, prior, calibration and sigma whose rotation error lies strictly between the small-angle and half-turn regimes.",
 ["inputs"], "all orientations, priors, calibrations and sigmas; rotation error angle in [1e-3, pi-2e-3]", JT,
 ["pose_prior_factors.cpp", "rotation_prior_factor.hpp", "pose_between_factors.cpp", "random_utils.cpp"],
 [("inverse SO(3) Jacobian", S+"random_utils.cpp compute_inverse_right_jacobian_so3"), ("analytic Jacobians", S+"pose_between_factors.cpp, "+S+"pose_prior_factors.cpp, "+S+"rotation_prior_factor.hpp")],
 "Factor::compute_jacobians")
prop("J06", "Plane constraint Jacobians are exact on the unit-normal manifold",
 "For a point-to-plane constraint, with and without distance scaling, and for a plane prior, every Jacobian block equals the derivative of the factor's own residual with respect to the variable's increment, including the renormalisation of the plane normal. This holds for every point, plane, prior, scaling origin, scaling radius and sigma.",
 ["inputs", "configurations"], "all points, unit normals, offsets, priors, scaling parameters and sigmas, both scaling modes", JT,
 ["plane_factor.cpp", "plane_prior_factor.cpp", "plane_variable.hpp"],
 [("analytic Jacobians", S+"plane_factor.cpp, "+S+"plane_prior_factor.cpp compute_jacobians")], "Factor::compute_jacobians")
prop("J07", "Coordinate-transform constraint Jacobians are exact for all five variables",
 "For the similarity-transform constraint between a landmark expressed in two frames, the Jacobian blocks for the rotation, the translation, the scale and both landmarks equal the derivatives of the factor's own residual with respect to those variables' increments. This holds for every rotation, translation, scale, landmark pair and sigma.",
 ["inputs"], "all rotations, translations, scales, landmarks and sigmas", JT,
 ["coordinate_transform_factor.hpp", "rotation_variable.hpp"],
 [("analytic Jacobians", S+"coordinate_transform_factor.hpp compute_jacobians")], "Factor::compute_jacobians")
RT = ("Tests check a few residual values, mostly with identity rotations or exact measurements, and never compare the two evaluation entry points for all inputs; "
      "a wrong frame, sign, weight or wrap that only shows at generic values passes.")
prop("M01", "3D measurement residuals follow the documented camera model",
 "A 3D bearing residual is the difference between the unit direction from camera to landmark, expressed in the camera frame, and the normalised observed direction, divided by sigma; the projected form is its coordinates in an orthonormal basis of the plane perpendicular to the observed direction, and is a constant with zero Jacobian when the landmark is behind the camera. Both ways of evaluating a residual give the same vector.",
 ["inputs"], "all camera poses, landmarks, inverse ranges, observed directions and sigmas", RT,
 ["bearing_observation_factor.hpp", "bearing_projection_factor_2d.cpp", "inverse_range_bearing_factor.hpp"],
 [("measurement model", "compute_residual of each listed factor"), ("tangent basis", S+"bearing_projection_factor_2d.cpp compute_tangent_basis")], "Factor::compute_residual (both overloads)")
prop("M02", "Planar residuals follow the documented model with wrapped angles",
 "A planar bearing residual is the heading-relative direction to the landmark minus the observed bearing, and a planar range residual is the distance minus the observed range; planar pose priors and between constraints compare positions and headings in the documented frame. Every angular residual is the unweighted error wrapped into [-pi, pi] and divided by its sigma, and both ways of evaluating a residual give the same vector.",
 ["inputs", "configurations"], "all planar poses, landmarks, measurements (angles over several turns) and sigmas, both frame modes", RT,
 ["bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "pose_2d_prior_factor.cpp", "pose_2d_between_factor.cpp"],
 [("angle wrapping", "wrap_angle of each listed factor"), ("measurement model", "compute_residual of each listed factor")], "Factor::compute_residual (both overloads)")
prop("M03", "Vector, velocity, position and plane residuals follow their documented models",
 "Priors, between, linear-velocity, pose-position, plane, plane-prior and coordinate-transform residuals equal the documented difference between prediction and measurement, each scaled by the reciprocal of its own sigma. In particular a residual is zero when the variables satisfy the constraint exactly, the signed plane distance uses the plane's own convention in every mode, and both ways of evaluating a residual agree.",
 ["inputs", "configurations"], "all variable values, measurements, time steps, sigmas, frame and scaling modes", RT,
 ["generic_prior_factor.hpp", "generic_between_factor.cpp", "linear_velocity_factor.cpp", "pose_prior_factors.cpp", "pose_between_factors.hpp", "plane_factor.cpp", "plane_prior_factor.cpp", "coordinate_transform_factor.hpp"],
 [("measurement model", "compute_residual of each listed factor")], "Factor::compute_residual (both overloads)")
prop("M04", "Orientation residuals are the rotation vector of the documented error rotation",
 "The residual of an orientation prior or relative-orientation constraint, multiplied by sigma, is a rotation vector whose exponential is the documented error rotation and whose length is the angle of that rotation. It is therefore zero exactly when the orientations agree, and both ways of evaluating it give the same vector.",
 ["inputs"], "all orientations, priors, calibrations and sigmas, error angle below a half turn", RT,
 ["pose_prior_factors.cpp", "rotation_prior_factor.hpp", "pose_between_factors.hpp"],
 [("error rotation", "compute_residual of each listed factor"), ("log map", S+"random_utils.cpp LogMapSO3")], "Factor::compute_residual (both overloads)")
VT = ("Tests exercise a few concrete rotations and increments. The claims quantify over every starting value and every increment, including the composition of increments, which no finite list of samples settles.")
prop("V01", "3D pose and rotation updates are left-multiplied rotations and stay rotations",
 "Applying an increment to a 3D pose adds the translation part and multiplies the orientation from the left by the exponential of the rotation part; a free rotation does the same. The stored matrix is always a proper rotation that agrees with the stored rotation vector, whatever way the value was set.",
 ["inputs", "histories"], "all starting poses and increments (reals), resulting rotation angle in (1e-5, pi)", VT,
 ["pose_variable.cpp", "rotation_variable.hpp", "random_utils.cpp"],
 [("retraction", S+"pose_variable.cpp apply_increment"), ("retraction", S+"rotation_variable.hpp apply_increment")], "PoseVariable, RotationVariable public accessors")
prop("V02", "Planar pose, plane and vector variables update on their manifolds",
 "Applying an increment to a planar pose adds it and wraps the heading into [-pi, pi] without changing the direction it represents; applying one to a plane keeps a unit normal in the direction of the sum and adds to the offset; landmarks and generic vectors are purely additive. Every value that is read equals the value that was set, up to that normalisation.",
 ["inputs", "histories"], "all values and increments; dimensions within the bound", VT,
 ["pose_2d_variable.cpp", "plane_variable.hpp", "landmark_variable.hpp", "generic_variable.hpp"],
 [("wrapping", S+"pose_2d_variable.cpp wrap_angle"), ("renormalisation", S+"plane_variable.hpp apply_increment")], "Variable::value, set_value_from_vector, apply_increment")
prop("V03", "Inverse range stays inside its bounds and gives the documented point",
 "Whatever initial range, value or sequence of increments is applied, an inverse-range landmark's stored inverse range lies within its configured minimum and maximum, and equals the requested value when that lies inside the bounds. Its world position is the origin plus the unit bearing divided by the inverse range.",
 ["inputs", "histories"], "all origins, bearings, ranges, increments and bounds", VT,
 ["inverse_range_variable.cpp"], [("clipping", S+"inverse_range_variable.cpp clip_inverse_range")], "InverseRangeVariable public accessors")
prop("V04", "Restoring a variable's value restores its whole state; clones are independent",
 "For every kind of variable, writing back the value vector read earlier restores every observable of the variable after any increments in between, and reading or cloning does not change it. A clone equals its source when made, and later changes to either leave the other untouched.",
 ["inputs", "histories"], "all variable kinds, values and intermediate increments", VT,
 ["pose_variable.cpp", "rotation_variable.hpp", "plane_variable.hpp", "pose_2d_variable.cpp", "inverse_range_variable.cpp", "landmark_variable.hpp", "generic_variable.hpp"],
 [("restore", "set_value_from_vector of each variable"), ("clone", "clone of each variable")], "Variable::value, set_value_from_vector, clone")
prop("V05", "Rotation exponential, logarithm and inverse Jacobian are mutually consistent",
 "The rotation exponential returns a proper rotation about the given axis by the given angle, the logarithm inverts it for every angle below a half turn, and the inverse Jacobian is the inverse of the derivative of the exponential. The small-angle and near-half-turn branches agree with the general formula within a stated error.",
 ["inputs"], "all rotation vectors with angle in [0, pi), every branch", "Tests evaluate a few rotation vectors; the branch seams and the generic-axis algebra are only sampled, and an error of the size of the sampling tolerance or on an unsampled branch survives.",
 ["random_utils.cpp"], [("exp map", S+"random_utils.cpp ExpMapSO3"), ("log map", S+"random_utils.cpp LogMapSO3"), ("inverse Jacobian", S+"random_utils.cpp compute_inverse_right_jacobian_so3")], "free functions of random_utils.hpp")
prop("V06", "A vector of the wrong length is refused and leaves the variable unchanged",
 "For every kind of variable, setting the value from a vector or applying an increment whose length is not the variable's size is refused with an error, and the variable keeps its size, its value and everything derived from it. A well-formed call afterwards behaves as if the refused ones had not happened.",
 ["inputs", "histories"], "every vector length within the bound, every entry, every kind of variable, histories of refused calls", "Tests pass vectors of the right length; the claim covers every other length for every kind of variable and the state left behind, and a missing check shows only as memory damage somewhere else.",
 ["pose_variable.cpp", "landmark_variable.hpp", "rotation_variable.hpp", "pose_2d_variable.cpp", "plane_variable.hpp", "generic_variable.hpp", "inverse_range_variable.cpp"], [("length checks", S+"*_variable.hpp, *_variable.cpp set_value_from_vector, apply_increment")], "Variable::set_value_from_vector, apply_increment, value, size")
GT = ("Graph tests use a few fixed small graphs with one ordering of variables and factors; the claim ranges over every assignment of sizes, constant flags, attachments and values within the bound and over histories of changes.")
prop("G01", "Structure finalisation partitions rows and columns exactly",
 "After finalisation, the columns of the non-constant variables are consecutive, disjoint and cover the value vector in insertion order, constant variables own no column, and the rows of the factors are consecutive, disjoint and cover the residual vector in insertion order. Placements are found by the identifier the user gave.",
 ["configurations", "inputs"], "all graphs within the bound: sizes, constant flags, ids, attachments", GT,
 ["factor_graph.cpp", "factor_graph.hpp"], [("offset assignment", S+"factor_graph.cpp finalize_structure")], "FactorGraph::variable_placement, factor_placement, num_values, num_residuals")
prop("G02", "Dense and sparse Jacobians both equal the stacked factor blocks",
 "The dense Jacobian, the sparse Jacobian and the residual vector of a graph each consist exactly of the blocks its factors report, at the row of the factor and the column of the variable, with zeros elsewhere and nothing for constant variables. This stays true after any sequence of value changes, recomputations, added variables and factors, changed constant flags and re-finalisations.",
 ["configurations", "histories", "inputs"], "all graphs within the bound, arbitrary block values, histories of recompute/modify/re-finalise within the bound", GT,
 ["factor_graph.cpp"], [("dense assembly", S+"factor_graph.cpp compute_full_jacobian_matrix"), ("sparse assembly", S+"factor_graph.cpp compute_sparse_jacobian_matrix, copy_sparse_data_to_eigen_matrix")], "FactorGraph::compute_full_jacobian_matrix, compute_sparse_jacobian_matrix, compute_full_residual_vector")
prop("G03", "The graph value vector round-trips and increments reach the right variables",
 "Reading the graph's value vector and writing it back changes nothing; writing a vector gives each non-constant variable exactly its own segment; applying an increment gives each non-constant variable exactly its own segment of the increment. Constant variables are never written, and a vector of the wrong length is refused without changing anything.",
 ["configurations", "inputs"], "all graphs within the bound, arbitrary vectors", GT,
 ["factor_graph.cpp"], [("value vector", S+"factor_graph.cpp get_variable_vector, set_variable_values_from_vector, apply_increment")], "FactorGraph::get_variable_vector, set_variable_values_from_vector, apply_increment")
prop("G04", "Ill-formed graphs and premature calls are refused",
 "Adding a variable or factor whose identifier is already used, finalising with a factor attached to a null variable or to a non-constant variable missing from the graph, or with fewer residuals than values, adding a null variable or factor, and asking for residuals, Jacobians or increments before finalisation, or after something was added to a finalised graph and before the next finalisation, are all refused with an error. A refused addition changes nothing. Well-formed graphs are never refused.",
 ["configurations", "histories"], "all graphs within the bound: ids, attachments, sizes; call orders within the bound", GT,
 ["factor_graph.cpp"], [("validation", S+"factor_graph.cpp add_variable, add_factor, finalize_structure")], "FactorGraph exceptions")
OT = ("Optimizer tests run a few well-behaved problems to convergence; rejected steps, failed factorisations, damping limits, non-finite residuals and early termination are reached rarely or never, and only at particular numbers.")
prop("O01", "Levenberg-Marquardt never ends with a higher cost and restores rejected steps",
 "At every iteration of Levenberg-Marquardt the cost at the variables' values never increases, and a run never ends at a higher cost than it started with. When every trial step of an iteration is rejected, all variables hold exactly the values they had before it.",
 ["inputs", "histories"], "arbitrary residual and Jacobian values at every visited state, arbitrary settings; dimensions, iterations and attempts within the bound", OT,
 ["sparse_optimizer.cpp"], [("accept/reject", S+"sparse_optimizer.cpp single_step_levenberg_marquardt")], "SparseOptimizer::optimize, variable values")
prop("O02", "Each optimizer step solves the (damped) normal equations",
 "The increment a Gauss-Newton step applies, divided by the learning rate, solves the normal equations of the residual and Jacobian at the current values; a Levenberg-Marquardt trial step solves the same equations with the damping added to the diagonal. The increment is distributed to the non-constant variables in column order.",
 ["inputs", "configurations"], "arbitrary residuals and Jacobians at the current values, learning rates and dampings; dimensions within the bound", OT,
 ["sparse_optimizer.cpp"], [("normal equations", S+"sparse_optimizer.cpp single_step_gauss_newton, single_step_levenberg_marquardt")], "increments received by variables")
prop("O03", "Reported statistics describe the variables' final values and the run",
 "When optimisation returns, the reported cost and residual norm are those of the residual at the values the variables then hold, the step norm is that of the last iteration (zero if no trial was accepted), the initial statistics are those of the starting values, and the number of iterations never exceeds the configured maximum. A run that stops early reports success only if a configured tolerance was met without the cost growing or the cost ended below its initial value, and a system that is singular to working precision is reported as an error and leaves the variables unchanged.",
 ["inputs", "histories", "configurations"], "arbitrary residuals and Jacobians at every visited state, arbitrary settings; dimensions and iterations within the bound", OT,
 ["sparse_optimizer.cpp"], [("termination", S+"sparse_optimizer.cpp optimize")], "SparseOptimizer::current_stats_, initial_stats_")
prop("O04", "Damping starts at its initial value and stays within its limits",
 "In Levenberg-Marquardt the damping used by the first trial of a run is the configured initial value, every rejected or failed trial multiplies it by the configured up factor and every accepted one by the down factor, and apart from the initial value it never exceeds the configured maximum. A second run starts again from the configured initial value.",
 ["inputs", "histories", "configurations"], "arbitrary accept/reject/failure sequences and settings within the bound", OT,
 ["sparse_optimizer.cpp"], [("damping update", S+"sparse_optimizer.cpp single_step_levenberg_marquardt")], "SparseOptimizer::current_stats_.damping_parameter")
prop("O05", "Constant variables are never moved and do not influence the linear system",
 "No optimisation run, of either method and whatever the residuals, changes the value of a constant variable. Flagging variables constant removes exactly their columns from the problem, and a problem whose variables are all constant returns at once with success and no change.",
 ["inputs", "configurations"], "arbitrary residuals and Jacobians, every choice of constant flags within the bound, both methods", OT,
 ["sparse_optimizer.cpp", "factor_graph.cpp"], [("constant handling", S+"sparse_optimizer.cpp single_step_gauss_newton, single_step_levenberg_marquardt")], "variable values after SparseOptimizer::optimize")
prop("O06", "A run that reaches non-finite values never reports success",
 "If the residual or Jacobian at the start of an iteration, or the values a step is finally taken to, are not finite, the run does not report success and its statistics are marked invalid. Levenberg-Marquardt additionally leaves the variables at their last finite values.",
 ["inputs", "fault_sequences"], "arbitrary choice of which evaluation of residual or Jacobian returns NaN; iterations within the bound", OT,
 ["sparse_optimizer.cpp"], [("termination", S+"sparse_optimizer.cpp optimize")], "SparseOptimizer::current_stats_")
prop("C01", "Covariances are the inverse information at the final estimate",
 "After a run, the covariance reported for a variable is the variable's diagonal block of the inverse of the Jacobian-transpose-Jacobian at the values the variables hold, symmetric, and never one computed for an earlier run. It is reported invalid for constant variables, unknown variables, before any run and before preparation.",
 ["inputs", "histories", "configurations"], "arbitrary Jacobians and residuals, two successive runs, dimensions within the bound", "Tests check covariances of a converged linear-like problem, where the Jacobian before the last step, or of the previous run, is indistinguishable from the right one.",
 ["sparse_optimizer.cpp"], [("covariance", S+"sparse_optimizer.cpp prepare_to_estimate_covariances, estimate_covariance")], "SparseOptimizer::estimate_covariance")
prop("K01", "The robust kernel is continuous, down-weights outliers and matches its Jacobian",
 "The Huber kernel leaves residuals inside its threshold unchanged and rescales larger ones so that the squared norm grows linearly with the norm, continuously at the threshold. The Jacobians it returns are the exact derivative of the rescaled residual.",
 ["inputs"], "all residuals, Jacobians and thresholds; dimensions within the bound", "No existing test calls the kernel, and a finite-difference comparison at a few points would not settle the chain rule for every residual.",
 ["kernels.hpp"], [("kernel", S+"kernels.hpp HuberKernel")], "HuberKernel::apply_to_residual, apply_to_jacobians")
prop("I01", "Inspecting a problem changes nothing",
 "Naming, printing, reading accessors, the factor self test, evaluating residuals and Jacobians in any form and querying or printing covariances never fail on a finalised well-formed graph (also with every variable constant), and never change a variable's value, flag or identifier, the residual, Jacobians or covariances computed afterwards, nor the course of a later optimisation. An optimizer without a graph refuses to optimise and to print covariances.",
 ["histories", "inputs"], "all values and measurements, every placement of the constant variables, inspections at any point before, between and after runs", "Tests print for coverage and look at nothing afterwards, and never print a graph whose variables are all constant.",
 ["factor_graph.cpp", "sparse_optimizer.cpp", "pose_variable.cpp", "inverse_range_variable.cpp"], [("graph printing and self test", S+"factor_graph.cpp print_jacobian_and_residual, detailed_factor_test"), ("covariance queries", S+"sparse_optimizer.cpp print_all_covariances, estimate_covariance"), ("printing", "Variable::print of every class")], "FactorGraph::print_*, SparseOptimizer::print_all_covariances, Variable::print")
prop("X01", "A linear problem is solved exactly by one Gauss-Newton step",
 "For a problem that is linear in its variables (priors and differences of generic variables, landmarks and pose positions, linear velocities), one full Gauss-Newton step from any start takes every free variable to the weighted least-squares solution of the measurements given (each error counted in units of its sigma) and leaves constant ones alone. Running again does not move the solution, the reported chi2 is the weighted sum of squared errors there, and each variable's covariance is its block of the inverse of the information the measurements carry.",
 ["inputs", "configurations"], "all start values and measurements, every choice of constant variables, sigmas, orders of adding", "Tests check single solutions of a few problems within loose tolerances; weighting, wiring and ordering errors that cancel at those values pass.",
 ["sparse_optimizer.cpp", "factor_graph.cpp", "linear_velocity_factor.cpp", "generic_between_factor.cpp", "generic_prior_factor.hpp", "pose_prior_factors.cpp", "pose_between_factors.hpp"],
 [("solution", S+"sparse_optimizer.cpp single_step_gauss_newton"), ("covariance", S+"sparse_optimizer.cpp estimate_covariance"), ("assembly", S+"factor_graph.cpp")], "SparseOptimizer::optimize over real variables and factors")
prop("R01", "Relative measurements do not depend on the world frame",
 "The residual of a measurement that relates variables to each other (a bearing or projection of a landmark, a planar bearing or range, an offset in the frame of a pose, the distance of a point from a plane) is unchanged when poses, landmarks and planes are all moved by the same rigid motion. Offsets, relative orientations, velocities and scaled plane distances given in world coordinates are unchanged when everything is translated; angle residuals agree modulo a full turn.",
 ["inputs"], "all rigid motions, values, measurements and sigmas", "Tests place cameras and landmarks at a few positions and compare with values computed by the same formulas.",
 ["bearing_observation_factor.cpp", "bearing_projection_factor_2d.cpp", "inverse_range_bearing_factor.cpp", "pose_between_factors.cpp", "plane_factor.cpp", "bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "pose_2d_between_factor.cpp"],
 [("residuals", "compute_residual of every relative factor")], "Factor::compute_residual of the relative factors")
prop("S01", "Singular geometry is refused or gets its limit, never non-finite derivatives",
 "The Jacobian of a bearing or range-bearing measurement is refused with an error when the landmark is closer than 1e-9 to the pose, and computed beyond that; the projected bearing treats a landmark at the camera like one behind it (finite residual, zero Jacobian). Orientation measurements that are met exactly have the Jacobian of the limit (plus or minus the identity over sigma), and a scaled plane distance at its reference point equals the unscaled one. No variable is changed by a refusal, and the factor works again once the geometry is regular.",
 ["inputs", "configurations"], "all positions, rotations, directions, distances, sigmas and constant flags", "Tests place landmarks at metres of distance and never evaluate at a singular point; a dropped guard shows only as NaN there.",
 ["bearing_observation_factor.cpp", "bearing_projection_factor_2d.cpp", "inverse_range_bearing_factor.cpp", "bearing_observation_factor_2d.cpp", "range_bearing_factor_2d.cpp", "plane_factor.cpp", "random_utils.cpp"],
 [("guards", "compute_jacobians of the bearing factors"), ("small angles", S+"random_utils.cpp compute_inverse_right_jacobian_so3, LogMapSO3"), ("reference point", S+"plane_factor.cpp")], "Factor::compute_jacobians, compute_residual at singular geometry")
prop("N01", "The numerical Jacobian checker is faithful and leaves the graph untouched",
 "The numerical Jacobian of any factor has one block per variable, empty exactly for constant variables, each column being the central difference of the residual along that coordinate, and leaves every variable at its original value. The graph's factor self-test passes exactly when every block agrees with its numerical counterpart within tolerance, for every factor.",
 ["inputs", "configurations"], "arbitrary residual functions and analytic blocks, constant flags and sizes within the bound", "Tests use the checker on correct factors only; a checker that skips a block, a column or a factor still passes them all.",
 ["numerical_jacobian.hpp", "factor_graph.cpp"], [("central differences", S+"numerical_jacobian.hpp ComputeNumericalJacobians"), ("self test", S+"factor_graph.cpp detailed_factor_test")], "ComputeNumericalJacobians, FactorGraph::detailed_factor_test")
prop("F01", "Every factor returns one well-sized block per variable and is side-effect free",
 "Whatever vector of matrices a caller passes in, every factor returns exactly one Jacobian block per variable, of residual-size by variable-size, and an empty one exactly for each constant variable. Evaluating a residual or Jacobian never changes any variable, and the non-empty blocks do not depend on which other variables are constant or on what the vector held before.",
 ["inputs", "configurations"], "all factor kinds, every choice of constant flags, reused output vectors of any length within the bound with arbitrary contents", "Tests pass fresh vectors and set at most one variable constant for a few factor kinds; stale contents, wrong lengths and combinations of constant flags are not covered.",
 ["coordinate_transform_factor.hpp", "generic_prior_factor.hpp", "pose_between_factors.cpp", "plane_factor.cpp"],
 [("block sizing", "compute_jacobians of every factor")], "Factor::compute_jacobians")
prop("B01", "The Python bindings compute what the C++ library computes",
 "Every object and function exposed to Python gives the same results as the C++ one it wraps, and errors raised by the library surface as Python exceptions.",
 ["inputs"], "all binding entry points and arguments", "Binding tests call each entry point with one set of arguments.",
 [], [("bindings", "python_bindings/python/factorama/_factorama.cpp")], "Python module factorama")
P[-1]["anchors"]["files"] = ["python_bindings/python/factorama/_factorama.cpp"]
prop("B02", "Python objects keep the C++ objects they refer to alive",
 "A Python program can drop its references to variables, factors, graphs, optimizers and to the arrays and objects obtained from them in any order: whatever it still holds never reads, writes or frees memory that is gone, and no object is freed twice.",
 ["histories"], "all orders of creating and dropping Python references", "Binding tests keep every object alive in local variables.",
 [], [("lifetime", "python_bindings/python/factorama/_factorama.cpp")], "Python module factorama")
P[-1]["anchors"]["files"] = ["python_bindings/python/factorama/_factorama.cpp"]
prop("T01", "The stopwatch accumulates exactly the time between start and stop",
 "The elapsed time a stopwatch reports is the sum of the intervals between matching start and stop calls since the last reset, and never decreases while it runs.",
 ["schedules"], "all call sequences and clock readings", "Stopwatch tests sleep for fixed intervals and compare with wide tolerances.",
 ["stopwatch.hpp"], [("accumulation", S+"stopwatch.hpp")], "Stopwatch::elapsed")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
