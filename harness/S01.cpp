// encodes: BearingObservationFactor, BearingProjectionFactor2D, InverseRangeBearingFactor, BearingObservationFactor2D, RangeBearingFactor2D (constructors, compute_residual, compute_jacobians)
// encodes: PoseOrientationPriorFactor, RotationPriorFactor, PoseOrientationBetweenFactor, PlaneFactor (constructors, compute_residual, compute_jacobians), compute_inverse_right_jacobian_so3, LogMapSO3
// bounds: distance of the landmark from the pose in [0, 9e-10] and [1.1e-9, 1e-3] (projection: zero), every direction; orientations that agree exactly, any rotation with angle in [2e-3, pi - 2.2e-3]; sigmas in [1e-3, 1e3]; positions unbounded; every set of constant variables
// assumes: real arithmetic (the distance is exact however far the pose is from the origin)
#include "observe.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/plane_factor.hpp"

static const double LIMIT = 1e-9;
static double gap(bool& near)
{
    near = choose("near", 0, 1) == 1;
    return near ? input("gap", 0.0, 0.9 * LIMIT) : input("dist", 1.1 * LIMIT, 1e-3);
}
static void require_finite(const std::string& nm, const Blocks& J)
{
    bool ok = true;
    for (const auto& b : J) for (int i = 0; i < (int)b.rows(); ++i) for (int j = 0; j < (int)b.cols(); ++j) ok = ok && std::isfinite(b(i, j));
    require_true(nm, ok);
}
// refuses when `near`, else gives finite blocks; either way the variables keep their values, and a factor whose landmark
// then moves to a distance works like one that never saw the singular place
template <class F, class P, class L, class M> void singular(F& f, P& pose, L& lm, bool near, M away)
{
    int mask = choose("constant", 0, 2);
    pose.set_constant(mask == 1); lm.set_constant(mask == 2);
    Obs p0 = observe(pose), l0 = observe(lm);
    Blocks J;
    bool no = refused([&] { f.compute_jacobians(J); });
    require_true(near ? "refused" : "computed", no == near);
    if (!near && !no) require_finite("finite", J);
    require_unchanged("pose kept", observe(pose), p0);
    require_unchanged("landmark kept", observe(lm), l0);
    away();
    Blocks fresh;
    f.compute_jacobians(J);
    f.compute_jacobians(fresh);
    require_true("as many blocks", J.size() == fresh.size());
    for (size_t i = 0; i < J.size() && i < fresh.size(); ++i) require_eq("block " + std::to_string(i) + " afterwards", J[i], fresh[i]);
}
CASE(bearing)
{
    bool near;
    double d = gap(near);
    Eigen::Vector3d p = vec3("p"), u = unit3("dir");
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, p + d * u);
    BearingObservationFactor f(2, &pose, &lm, unit3("z"), input("sigma", 1e-3, 1e3));
    singular(f, pose, lm, near, [&] { lm.set_value_from_vector(p + input("range", 1e-3, 1e3) * u); });
}
CASE(inverse_range)
{
    bool near;
    double d = gap(near), inv = input("inv", 1e-2, 10.0);
    Eigen::Vector3d p = vec3("p"), u = unit3("dir"), b = unit3("bearing");
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    InverseRangeVariable lm(1, p + d * u - (1.0 / inv) * b, b, 1.0 / inv);
    InverseRangeBearingFactor f(2, &pose, &lm, unit3("z"), input("sigma", 1e-3, 1e3));
    singular(f, pose, lm, near, [&] { pose.set_value_from_vector(posevec(p - input("range", 1e-3, 1e3) * u, rotvec("cam"))); });
}
// the projected form answers a landmark at the camera like one behind it
CASE(projection)
{
    Eigen::Vector3d p = vec3("p");
    PoseVariable pose(0, posevec(p, rotvec("cam")));
    LandmarkVariable lm(1, p);
    BearingProjectionFactor2D f(2, &pose, &lm, input("zlen", 1e-2, 1e2) * unit3("z"), input("sigma", 1e-3, 1e3));
    int mask = choose("constant", 0, 3);
    pose.set_constant((mask & 1) != 0); lm.set_constant((mask & 2) != 0);
    Eigen::VectorXd r = residual(f), byval = f.compute_residual();
    require_true("finite residual", r.size() == 2 && std::isfinite(r[0]) && std::isfinite(r[1]));
    require_eq("both forms", r, byval);
    Blocks J;
    if (refused([&] { f.compute_jacobians(J); })) return;
    require_finite("finite blocks", J);
    require_true("two blocks", J.size() == 2);
    if (J.size() == 2 && mask == 0) {
        require_eq("pose block", J[0], Eigen::MatrixXd(Eigen::MatrixXd::Zero(2, 6)));
        require_eq("landmark block", J[1], Eigen::MatrixXd(Eigen::MatrixXd::Zero(2, 3)));
    }
}
static Eigen::Vector2d direction(double phi) { return Eigen::Vector2d(std::cos(phi), std::sin(phi)); }
CASE(bearing_2d)
{
    bool near;
    double d = gap(near);
    Eigen::Vector3d x(input("p.x"), input("p.y"), input("p.heading", -3.14, 3.14));
    Eigen::Vector2d u = direction(input("phi", -3.14, 3.14));
    Pose2DVariable pose(0, x);
    GenericVariable lm(1, x.head<2>() + d * u);
    BearingObservationFactor2D f(2, &pose, &lm, input("z", -10.0, 10.0), input("sigma", 1e-3, 1e3));
    singular(f, pose, lm, near, [&] { lm.set_value_from_vector(x.head<2>() + input("range", 1e-3, 1e3) * u); });
}
CASE(range_bearing_2d)
{
    bool near;
    double d = gap(near);
    Eigen::Vector3d x(input("p.x"), input("p.y"), input("p.heading", -3.14, 3.14));
    Eigen::Vector2d u = direction(input("phi", -3.14, 3.14));
    Pose2DVariable pose(0, x);
    GenericVariable lm(1, x.head<2>() + d * u);
    RangeBearingFactor2D f(2, &pose, &lm, input("zrange", 0.0, 1e3), input("z", -10.0, 10.0), input("sigma_r", 1e-3, 1e3), input("sigma_b", 1e-3, 1e3));
    singular(f, pose, lm, near, [&] { lm.set_value_from_vector(x.head<2>() + input("range", 1e-3, 1e3) * u); });
}
// orientations that agree exactly: the logarithm and its derivative have their limits there
static void require_scaled(const std::string& nm, const Eigen::MatrixXd& J, const Eigen::Matrix3d& want, double s, int at)
{
    if (J.rows() != 3 || J.cols() < at + 3) { require_true(nm + " has the shape residual x variable", false); return; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < (int)J.cols(); ++j)
        require_eq(nm, s * J(i, j), j >= at && j < at + 3 ? want(i, j - at) : 0.0);
}
CASE(orientation)
{
    Eigen::Matrix3d R = rotmat("rot"), I = Eigen::Matrix3d::Identity();
    PoseVariable p(0, posevec(vec3("p"), rotvec("rot"))), q(1, posevec(vec3("q"), rotvec("rot")));
    RotationVariable v(2, R), one(3, I);
    double s = input("sigma", 1e-3, 1e3);
    Blocks J;
    switch (choose("factor", 0, 2)) {
    case 0: {
        PoseOrientationPriorFactor f(4, &p, R, s);
        f.compute_jacobians(J);
        if (J.size() != 1) { require_true("one block", false); return; }
        require_scaled("pose prior", J[0], I, s, 3);
        break;
    }
    case 1: {
        RotationPriorFactor f(4, &v, R, s);
        f.compute_jacobians(J);
        if (J.size() != 1) { require_true("one block", false); return; }
        require_scaled("rotation prior", J[0], I, s, 0);
        break;
    }
    default: {
        PoseOrientationBetweenFactor f(4, &p, &q, &one, s);
        f.compute_jacobians(J);
        if (J.size() != 3) { require_true("three blocks", false); return; }
        require_scaled("first pose", J[0], -I, s, 3);
        require_scaled("second pose", J[1], I, s, 3);
        require_scaled("calibration", J[2], I, s, 0);
    }
    }
}
// the scaled distance is not differentiable at the reference point; its symmetric derivative is the unscaled one
CASE(scaled_plane)
{
    Eigen::Vector3d p0 = vec3("p0"), n = unit3("n");
    double d = input("d"), s = input("sigma", 1e-3, 1e3);
    GenericVariable point(0, p0);
    PlaneVariable plane(1, n, d);
    PlaneFactor f(2, &point, &plane, s, true, input("r0", 1e-2, 1e2), p0), plain(3, &point, &plane, s);
    Blocks J, K;
    require_eq("residual", residual(f), residual(plain));
    f.compute_jacobians(J);
    plain.compute_jacobians(K);
    require_true("two blocks", J.size() == 2 && K.size() == 2);
    for (size_t i = 0; i < J.size() && i < K.size(); ++i) require_eq("block " + std::to_string(i), J[i], K[i]);
}
