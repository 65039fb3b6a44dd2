// encodes: PoseOrientationPriorFactor, RotationPriorFactor, PoseOrientationBetweenFactor (constructors, compute_residual, compute_jacobians)
// encodes: compute_inverse_right_jacobian_so3, LogMapSO3, ExpMapSO3, PoseVariable, RotationVariable (constructor, apply_increment)
// bounds: every set of constant variables; rotation angle of every pose, prior and calibration in [2e-3, pi - 2.2e-3], angle of the error rotation in [1e-3, pi - 2e-3], sigma in [1e-3, 1e3]; positions and axes unbounded
// assumes: the error rotation, proved equal to the product of the orientations, is then treated as an arbitrary rotation
#include "common.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/rotation_prior_factor.hpp"

static Eigen::Vector3d e(int k) { Eigen::Vector3d v = Eigen::Vector3d::Zero(); v[k] = 1.0; return v; }
static void error_rotation(const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);          // 1 + 2 cos(angle)
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation("E", E);
}

CASE(pose_prior)
{
    Eigen::Matrix3d R = rotmat("rot"), P = rotmat("prior"), E = R * P.transpose();
    Eigen::Vector3d w = rotvec("rot");
    alias_all(R); alias_all(w); alias_all(P);
    error_rotation(E);
    for (int k = 0; k < 3; ++k) { alias_all(Eigen::Matrix3d(hat(e(k)) * R)); alias_all(Eigen::Matrix3d(hat(e(k)) * E)); }
    PoseVariable p(0, posevec(vec3("p"), w));
    PoseOrientationPriorFactor f(1, &p, P, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("pose", f, p, J[0]);
    require_blocks_stand(f, J);
}
CASE(rotation_prior)
{
    Eigen::Matrix3d R = rotmat("rot"), P = rotmat("prior"), E = R * P.transpose();
    alias_all(R); alias_all(P);
    error_rotation(E);
    for (int k = 0; k < 3; ++k) { alias_all(Eigen::Matrix3d(hat(e(k)) * R)); alias_all(Eigen::Matrix3d(hat(e(k)) * E)); }
    RotationVariable v(0, R);
    RotationPriorFactor f(1, &v, P, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("one block", J.size() == 1);
    require_block("rotation", f, v, J[0]);
    require_blocks_stand(f, J);
}
CASE(between)
{
    Eigen::Matrix3d R1 = rotmat("rot1"), R2 = rotmat("rot2"), C = rotmat("calib"), E = R2 * R1.transpose() * C;
    Eigen::Vector3d w1 = rotvec("rot1"), w2 = rotvec("rot2");
    alias_all(R1); alias_all(R2); alias_all(C); alias_all(w1); alias_all(w2);
    error_rotation(E);
    for (int k = 0; k < 3; ++k) {
        Eigen::Matrix3d K = hat(e(k));
        alias_all(Eigen::Matrix3d(K * R1)); alias_all(Eigen::Matrix3d(K * R2)); alias_all(Eigen::Matrix3d(K * C));
        alias_all(Eigen::Matrix3d(K * E));
        alias_all(Eigen::Matrix3d(-E * (C.transpose() * K * C)));
        alias_all(Eigen::Matrix3d(E * (C.transpose() * K * C)));
    }
    PoseVariable p1(0, posevec(vec3("p1"), w1)), p2(1, posevec(vec3("p2"), w2));
    RotationVariable c(2, C);
    PoseOrientationBetweenFactor f(3, &p1, &p2, &c, input("sigma", 1e-3, 1e3));
    Blocks J;
    f.compute_jacobians(J);
    require_true("three blocks", J.size() == 3);
    require_block("pose1", f, p1, J[0]);
    require_block("pose2", f, p2, J[1]);
    require_block("calibration", f, c, J[2]);
    require_blocks_stand(f, J);
}
