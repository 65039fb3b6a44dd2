// encodes: PoseVariable (both constructors, set_value_from_vector, set_pose_vector, set_pos_W, set_dcm_CW, apply_increment, recompute_dcm_CW), RotationVariable (constructor, set_value_from_vector, apply_increment)
// encodes: ExpMapSO3, LogMapSO3, Eigen::AngleAxisd <-> rotation matrix
// bounds: rotation angle before and after an increment in [1e-3, pi - 2e-3], increment angle in [2e-3, 6] or zero, rotation vectors that are set directly up to length 20, matrices that are set directly with angle in [2e-3, pi - 2.2e-3]; axes and positions unbounded
// assumes: the new orientation, proved equal to exp(increment) times the old one, is then treated as an arbitrary rotation
#include "common.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/rotation_variable.hpp"

static Eigen::Matrix3d rodrigues(const Eigen::Vector3d& w)
{
    double a = std::sqrt(w.dot(w));
    return std::cos(a) * Eigen::Matrix3d::Identity() + std::sin(a) / a * hat(w) + (1.0 - std::cos(a)) / (a * a) * (w * w.transpose());
}
static void arbitrary(const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);          // 1 + 2 cos(angle)
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation("E", E);
}
static void require_pose(const std::string& nm, const PoseVariable& x, const Eigen::Vector3d& p, const Eigen::Matrix3d& R)
{
    if (x.value().size() != 6) { require_true(nm + " has six values", false); return; }
    require_eq(nm + " position", x.pos_W(), p);
    require_eq(nm + " position part of the value", x.value().head<3>(), p);
    require_eq(nm + " rotation vector", x.rot_CW(), x.value().tail<3>());
    require_eq(nm + " matrix", x.dcm_CW(), R);
    require_eq(nm + " exponential of the vector", rodrigues(x.value().tail<3>()), R);
}
CASE(pose_increment)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary(E);
    Eigen::Vector3d p = vec3("p"), dp = vec3("dp");
    PoseVariable x(0, posevec(p, rotvec("rot")));
    x.apply_increment(posevec(dp, rotvec("inc", 1e-3, 3.0)));
    require_pose("pose", x, p + dp, E);
}
CASE(pose_translation)
{
    Eigen::Vector3d p = vec3("p"), dp = vec3("dp");
    PoseVariable x(0, posevec(p, rotvec("rot")));
    x.apply_increment(posevec(dp, Eigen::Vector3d::Zero()));
    require_pose("pose", x, p + dp, rotmat("rot"));
}
CASE(rotation_increment)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary(E);
    RotationVariable x(0, R);
    x.apply_increment(rotvec("inc", 1e-3, 3.0));
    require_eq("matrix", x.rotation(), E);
    require_eq("matrix by reference", x.dcm_AB(), E);
    require_eq("exponential of the value", rodrigues(x.value()), E);
}
CASE(set_vector)
{
    Eigen::Vector3d p = vec3("p"), w = rotvec("rot", 1e-3, 10.0);
    Eigen::Matrix3d R = rotmat("rot", 1e-3, 10.0);
    PoseVariable x(0, posevec(p, w));
    require_pose("constructed", x, p, R);
    require_eq("constructed value", x.value().tail<3>(), w);
    PoseVariable y(0, posevec(vec3("q"), rotvec("other"))), z(y);
    y.set_value_from_vector(posevec(p, w));
    require_pose("set_value_from_vector", y, p, R);
    require_eq("set value", y.value().tail<3>(), w);
    z.set_pose_vector(posevec(p, w));
    require_pose("set_pose_vector", z, p, R);
    z.set_pos_W(vec3("q"));
    require_pose("set_pos_W", z, vec3("q"), R);
    RotationVariable r(0, Eigen::Matrix3d::Identity());
    r.set_value_from_vector(w);
    require_eq("rotation value", r.value(), w);
    require_eq("rotation matrix", r.rotation(), R);
}
CASE(set_matrix)
{
    Eigen::Vector3d p = vec3("p");
    Eigen::Matrix3d R = rotmat("rot");
    if (signs(unit3("rot.axis")) > 7) skip();
    RotationVariable r(0, R);
    require_eq("rotation matrix", r.rotation(), R);
    require_eq("rotation vector", r.value(), rotvec("rot"));
    int how = choose("how", 0, 1);
    if (how == 0) {
        PoseVariable x(0, p, R);
        require_pose("constructed", x, p, R);
    } else {
        PoseVariable x(0, posevec(p, Eigen::Vector3d(0.1, 0.2, 0.3)));
        x.set_dcm_CW(R);
        require_pose("set_dcm_CW", x, p, R);
    }
}
// rotation vectors shorter than the general case: the matrix is the exponential within 1e-7
CASE(short_vector)
{
    double h = input("rot.halfangle", 0.0, 1e-3);
    Eigen::Vector3d a = unit3("rot.axis"), w = (2.0 * h) * a, p = vec3("p");
    double s = std::sin(2.0 * h), c = std::cos(2.0 * h);
    Eigen::Matrix3d X = c * Eigen::Matrix3d::Identity() + s * hat(a) + (1.0 - c) * (a * a.transpose());
    PoseVariable x(0, posevec(p, w));
    RotationVariable r(0, Eigen::Matrix3d::Identity());
    r.set_value_from_vector(w);
    require_eq("pose value", x.value().tail<3>(), w);
    require_eq("rotation value", r.value(), w);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            std::string n = std::to_string(i) + std::to_string(j);
            require_le("pose above " + n, 1e3 * (x.dcm_CW()(i, j) - X(i, j)), 1e-4);
            require_le("pose below " + n, 1e3 * (X(i, j) - x.dcm_CW()(i, j)), 1e-4);
            require_le("rotation above " + n, 1e3 * (r.rotation()(i, j) - X(i, j)), 1e-4);
            require_le("rotation below " + n, 1e3 * (X(i, j) - r.rotation()(i, j)), 1e-4);
        }
}
