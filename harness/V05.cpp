// encodes: ExpMapSO3, LogMapSO3, compute_inverse_right_jacobian_so3, skew_symmetric, unskew
// encodes: Eigen::AngleAxisd from a rotation matrix (the fallback of LogMapSO3 near half a turn)
// bounds: exponential for every rotation vector up to length 20; logarithm for every angle in [0, pi - 7e-7] and, up to whole turns, in [pi + 2e-3, 6.2]; inverse Jacobian for every angle in [0, 6.2]; small-angle branches within 1e-8 (exponential), 1e-9 (logarithm), 1e-6 (inverse Jacobian) of the general formula
// assumes: the inverse Jacobian inverts the derivative of the exponential under the left-multiplied increments the library uses
#include "common.hpp"
#include "factorama/random_utils.hpp"

static void require_proper(const std::string& nm, const Eigen::Matrix3d& X)
{
    require_eq(nm + " is orthonormal", Eigen::Matrix3d(X * X.transpose()), Eigen::Matrix3d::Identity());
    require_eq(nm + " has determinant one", Eigen::Vector3d(X.row(0).transpose()).cross(Eigen::Vector3d(X.row(1).transpose())), Eigen::Vector3d(X.row(2).transpose()));
}
template <class A, class B> void require_near(const std::string& nm, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, double scale)
{
    for (int i = 0; i < (int)a.rows(); ++i)
        for (int j = 0; j < (int)a.cols(); ++j) {
            std::string n = nm + " " + std::to_string(i) + std::to_string(j);
            double d = double(a.derived().coeff(i, j)) - double(b.derived().coeff(i, j));
            require_le(n + " above", scale * d, 1.0);
            require_le(n + " below", -scale * d, 1.0);
        }
}
CASE(skew)
{
    Eigen::Vector3d v = vec3("v"), u = vec3("u");
    Eigen::Matrix3d S = skew_symmetric(v);
    require_eq("product", Eigen::Vector3d(S * u), v.cross(u));
    require_eq("unskew", unskew(S), v);
    Eigen::Matrix3d M;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M(i, j) = input("M" + std::to_string(i) + std::to_string(j));
    require_eq("antisymmetric part", skew_symmetric(unskew(M)), Eigen::Matrix3d(0.5 * (M - M.transpose())));
}
CASE(exponential)
{
    Eigen::Matrix3d X = ExpMapSO3(rotvec("rot", 1e-4, 10.0));
    require_eq("matrix", X, rotmat("rot", 1e-4, 10.0));
    require_proper("matrix", X);
}
CASE(exponential_short)
{
    double h = input("rot.halfangle", 0.0, 1e-4);
    Eigen::Vector3d a = unit3("rot.axis");
    Eigen::Matrix3d X = ExpMapSO3((2.0 * h) * a), K = hat(a);
    double s = std::sin(2.0 * h), c = std::cos(2.0 * h);
    require_near("matrix", X, Eigen::Matrix3d(c * Eigen::Matrix3d::Identity() + s * K + (1.0 - c) * (a * a.transpose())), 1e8);
}
CASE(logarithm)
{
    Eigen::Vector3d w = rotvec("rot");
    require_eq("of the exponential", LogMapSO3(ExpMapSO3(w)), w);
    require_eq("of the matrix", LogMapSO3(rotmat("rot")), w);
}
CASE(logarithm_near_half_turn)
{
    Eigen::Vector3d w = rotvec("rot", 1.5695, 1.570796);
    if (signs(unit3("rot.axis")) > 7) skip();
    require_eq("of the exponential", LogMapSO3(ExpMapSO3(w)), w);
}
CASE(logarithm_past_half_turn)
{
    double h = input("rot.halfangle", 1.5718, 3.1);
    Eigen::Vector3d w = rotvec("rot", 1.5718, 3.1), a = unit3("rot.axis");
    require_eq("up to a turn", LogMapSO3(ExpMapSO3(w)), Eigen::Vector3d((2.0 * h - 6.283185307179586) * a));
}
CASE(logarithm_short)
{
    double h = input("rot.halfangle", 0.0, 1e-3);
    Eigen::Vector3d a = unit3("rot.axis"), w = (2.0 * h) * a;
    require_near("of the exponential", LogMapSO3(ExpMapSO3(w)), w, 1e9);
}
CASE(inverse_jacobian)
{
    Eigen::Vector3d w = rotvec("rot", 1e-4, 3.1);
    Eigen::Matrix3d Jinv = compute_inverse_right_jacobian_so3(w), R = rotmat("rot", 1e-4, 3.1);
    for (int k = 0; k < 3; ++k) {
        Eigen::VectorXd d = derivative([&](double t) {
            Eigen::Vector3d u = w;
            u[k] += t;
            Eigen::Matrix3d X = ExpMapSO3(u) * R.transpose();
            Eigen::VectorXd r(3);
            r << 0.5 * (X(2, 1) - X(1, 2)), 0.5 * (X(0, 2) - X(2, 0)), 0.5 * (X(1, 0) - X(0, 1));
            return r;
        });
        Eigen::Vector3d g(d[0], d[1], d[2]), e = Eigen::Vector3d::Zero();
        e[k] = 1.0;
        require_eq("d inverse times Jacobian col " + std::to_string(k), Eigen::Vector3d(Jinv * g), e);
    }
}
CASE(inverse_jacobian_short)
{
    double h = input("rot.halfangle", 0.0, 1e-4);
    Eigen::Vector3d a = unit3("rot.axis"), w = (2.0 * h) * a;
    Eigen::Matrix3d J = compute_inverse_right_jacobian_so3(w);
    require_near("inverse Jacobian", J, Eigen::Matrix3d(Eigen::Matrix3d::Identity() - h * hat(a)), 1e6);
}
