// encodes: PoseOrientationPriorFactor, RotationPriorFactor, PoseOrientationBetweenFactor (constructors, both compute_residual), LogMapSO3, ExpMapSO3
// encodes: PoseVariable, RotationVariable (constructors)
// bounds: rotation angle of every pose, prior and calibration in [2e-3, pi - 2.2e-3], angle of the error rotation in [1e-3, pi - 2e-3] or exactly zero, sigma in [1e-3, 1e3]; axes unbounded
// assumes: the error rotation, proved equal to the product of the orientations, is then treated as an arbitrary rotation
#include "common.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/rotation_prior_factor.hpp"

static void error_rotation(const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);          // 1 + 2 cos(angle)
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation("E", E);
}
template <class F> void require_rotvec(const F& f, double sigma, const Eigen::Matrix3d& E)
{
    Eigen::VectorXd r = residual(f);
    if (r.size() != 3) { require_true("three components", false); return; }
    Eigen::Vector3d w(sigma * r[0], sigma * r[1], sigma * r[2]);
    double a = std::sqrt(w.dot(w));
    Eigen::Matrix3d X = std::cos(a) * Eigen::Matrix3d::Identity() + std::sin(a) / a * hat(w) + (1.0 - std::cos(a)) / (a * a) * (w * w.transpose());
    require_eq("exponential", X, E);
    require_le("length", a, M_PI);
    require_residual("residual", f, r);
}
CASE(pose_prior)
{
    Eigen::Matrix3d R = rotmat("rot"), P = rotmat("prior"), E = R * P.transpose();
    double s = input("sigma", 1e-3, 1e3);
    alias_all(R); alias_all(P);
    error_rotation(E);
    PoseVariable p(0, posevec(vec3("p"), rotvec("rot")));
    PoseOrientationPriorFactor f(1, &p, P, s);
    require_rotvec(f, s, E);
}
CASE(rotation_prior)
{
    Eigen::Matrix3d R = rotmat("rot"), P = rotmat("prior"), E = R * P.transpose();
    double s = input("sigma", 1e-3, 1e3);
    alias_all(R); alias_all(P);
    error_rotation(E);
    RotationVariable v(0, R);
    RotationPriorFactor f(1, &v, P, s);
    require_rotvec(f, s, E);
}
CASE(between)
{
    Eigen::Matrix3d R1 = rotmat("rot1"), R2 = rotmat("rot2"), C = rotmat("calib"), E = R2 * R1.transpose() * C;
    double s = input("sigma", 1e-3, 1e3);
    alias_all(R1); alias_all(R2); alias_all(C);
    error_rotation(E);
    PoseVariable p1(0, posevec(vec3("p1"), rotvec("rot1"))), p2(1, posevec(vec3("p2"), rotvec("rot2")));
    RotationVariable c(2, C);
    PoseOrientationBetweenFactor f(3, &p1, &p2, &c, s);
    require_rotvec(f, s, E);
}
// the orientations agree exactly
CASE(agree)
{
    Eigen::Matrix3d R = rotmat("rot");
    PoseVariable p(0, posevec(vec3("p"), rotvec("rot"))), q(1, posevec(vec3("q"), rotvec("rot")));
    RotationVariable v(2, R), one(3, Eigen::Matrix3d::Identity());
    double s = input("sigma", 1e-3, 1e3);
    require_residual("pose prior", PoseOrientationPriorFactor(4, &p, R, s), Eigen::VectorXd::Zero(3));
    require_residual("rotation prior", RotationPriorFactor(5, &v, R, s), Eigen::VectorXd::Zero(3));
    require_residual("between", PoseOrientationBetweenFactor(6, &p, &q, &one, s), Eigen::VectorXd::Zero(3));
}
