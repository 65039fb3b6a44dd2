// Shared pieces of the harnesses.
#pragma once
#include <vh.hpp>
#include "factorama/base_types.hpp"
using namespace vh;
using namespace factorama;
typedef std::vector<Eigen::MatrixXd> Blocks;

// explores the signs of the components separately
inline int signs(const Eigen::Vector3d& a) { return (a.x() < 0.0 ? 1 : 0) + (a.y() < 0.0 ? 2 : 0) + (a.z() < 0.0 ? 4 : 0); }
// a rotation vector 2 h a: half angle h and unit axis a
inline Eigen::Vector3d rotvec(const std::string& n, double lo = 1e-3, double hi = 1.5697)
{
    double h = input(n + ".halfangle", lo, hi);
    Eigen::Vector3d a = unit3(n + ".axis");
    return (2.0 * h) * a;
}
inline Eigen::Matrix3d hat(const Eigen::Vector3d& v)
{
    Eigen::Matrix3d m;
    m << 0.0, -v.z(), v.y(), v.z(), 0.0, -v.x(), -v.y(), v.x(), 0.0;
    return m;
}
// the rotation matrix of rotvec(n, ...): Rodrigues' formula, written out here
inline Eigen::Matrix3d rotmat(const std::string& n, double lo = 1e-3, double hi = 1.5697)
{
    double h = input(n + ".halfangle", lo, hi);
    Eigen::Vector3d a = unit3(n + ".axis");
    double s = std::sin(2.0 * h), c = std::cos(2.0 * h);
    Eigen::Matrix3d K = hat(a);
    return Eigen::Matrix3d(c * Eigen::Matrix3d::Identity() + s * K + (1.0 - c) * (a * a.transpose()));
}
inline Eigen::Matrix<double, 6, 1> posevec(const Eigen::Vector3d& p, const Eigen::Vector3d& w)
{
    Eigen::Matrix<double, 6, 1> x;
    x << p, w;
    return x;
}
template <class F> Eigen::VectorXd residual(const F& f)
{
    Eigen::VectorXd r(f.residual_size());
    f.compute_residual(r);
    return r;
}
// the sets of variables held constant that a factor is evaluated with: all of them for up to three variables, else
// every one alone, every one excepted, and all
inline std::vector<int> flag_sets(int n)
{
    std::vector<int> s;
    for (int m = 1; m < (1 << n); ++m) { int c = __builtin_popcount((unsigned)m); if (n <= 3 || c == 1 || c >= n - 1) s.push_back(m); }
    return s;
}
template <class F> std::vector<Variable *> variables_of(const F& f) { return const_cast<F&>(f).variables(); }
template <class V> void set_flags(const V& vars, int mask) { for (size_t i = 0; i < vars.size(); ++i) vars[i]->set_constant((mask >> i & 1) != 0); }
// both ways of evaluating the residual give `want`, whichever variables are constant
template <class F> void require_residual(const std::string& nm, const F& f, const Eigen::VectorXd& want)
{
    if (f.residual_size() != want.size()) { require_true(nm + " has the documented size", false); return; }
    Eigen::VectorXd byval = f.compute_residual();
    require_eq(nm + " by value", byval, want);
    require_eq(nm + " by reference", residual(f), want);
    std::vector<Variable *> vars = variables_of(f);
    for (int mask : flag_sets((int)vars.size())) {
        set_flags(vars, mask);
        require_eq(nm + " with constants", residual(f), want);
    }
    set_flags(vars, 0);
}
inline Eigen::VectorXd unit_step(int n, int k, double t)
{
    Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
    d[k] = t;
    return d;
}
// every column of the block of `v` equals the derivative of the residual along that increment of v
template <class F, class V> void require_block(const std::string& nm, const F& f, V& v, const Eigen::MatrixXd& J)
{
    if (J.rows() != f.residual_size() || J.cols() != v.size()) { require_true(nm + " has the shape residual x variable", false); return; }
    const V saved(v);
    for (int k = 0; k < v.size(); ++k) {
        Eigen::VectorXd d = derivative([&](double t) {
            v.apply_increment(unit_step(v.size(), k, t));
            Eigen::VectorXd r = residual(f);
            v = saved;
            return r;
        });
        require_eq("d " + nm + " col " + std::to_string(k), J.col(k), d);
    }
}
// the blocks of the free variables are the same whichever others are constant and whatever the caller's vector held
template <class F> void require_blocks_stand(const F& f, const Blocks& J)
{
    std::vector<Variable *> vars = variables_of(f);
    if (vars.size() != J.size()) { require_true("one block per variable", false); return; }
    Blocks again;
    for (int mask : flag_sets((int)vars.size())) {
        set_flags(vars, mask);
        for (auto& b : again) b.setConstant(0.7);
        f.compute_jacobians(again);
        if (again.size() != J.size()) { require_true("one block per variable with constants", false); continue; }
        for (size_t i = 0; i < vars.size(); ++i) if (!(mask >> i & 1)) require_eq("block " + std::to_string(i) + " with constants", again[i], J[i]);
    }
    set_flags(vars, 0);
}
