// Harness interface, shared by the symbolic and the plain build (this file and the harnesses go through the rewriter
// for the symbolic one).
#pragma once
#ifndef VERIF_SYM
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <functional>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <set>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <limits>
#else
#include <fstream>
#endif

namespace vh
{
bool add_case(const char *name, void (*f)());
double input(const std::string& name);                          // any real number
double input(const std::string& name, double lo, double hi);    // any number in [lo, hi]
Eigen::Vector3d unit3(const std::string& name);                 // any unit vector
int choose(const std::string& name, int lo, int hi);            // any integer in [lo, hi], explored exhaustively
void assume_le(const double& a, const double& b);
void assume_lt(const double& a, const double& b);
void require_eq(const std::string& name, const double& a, const double& b);
void require_le(const std::string& name, const double& a, const double& b);
void require_lt(const std::string& name, const double& a, const double& b);
void require_true(const std::string& name, bool b);
void known(const std::string& finding, const std::string& name, const double& a, const double& b);  // signature of a known finding: obligation `name` may fail with the two sides equal to these
void hint(const double& e);      // a non-negative quantity: candidate root
void alias(const double& e);     // a preferred form of an equal expression
void cut_rotation(const std::string& name, const Eigen::Matrix3d& E);   // E is treated as an arbitrary rotation
void probe(const std::string& name, const double& a);
[[noreturn]] void skip();
bool symbolic();
double nan_value();
double inf_value();
bool same_bits(const double& a, const double& b);
Eigen::VectorXd derivative(const std::function<Eigen::VectorXd(double)>& f);   // d f(t) / dt at 0

template <class A, class B> void require_eq(const std::string& name, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) { require_true(name + ".shape", false); return; }
    for (int i = 0; i < (int)a.rows(); ++i)
        for (int j = 0; j < (int)a.cols(); ++j)
            require_eq(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]", double(a.derived().coeff(i, j)), double(b.derived().coeff(i, j)));
}
template <class A> void alias_all(const Eigen::MatrixBase<A>& m)
{
    for (int i = 0; i < (int)m.rows(); ++i) for (int j = 0; j < (int)m.cols(); ++j) alias(double(m.derived().coeff(i, j)));
}
template <class A, class B> bool same(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < (int)a.rows(); ++i) for (int j = 0; j < (int)a.cols(); ++j) if (!same_bits(a.derived().coeff(i, j), b.derived().coeff(i, j))) return false;
    return true;
}
inline Eigen::Vector3d vec3(const std::string& n) { return Eigen::Vector3d(input(n + ".x"), input(n + ".y"), input(n + ".z")); }
inline Eigen::Vector2d vec2(const std::string& n) { return Eigen::Vector2d(input(n + ".x"), input(n + ".y")); }
inline Eigen::VectorXd vecn(const std::string& n, int k) { Eigen::VectorXd v(k); for (int i = 0; i < k; ++i) v[i] = input(n + "." + std::to_string(i)); return v; }
template <class F> bool refused(F f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
} // namespace vh
#define CASE(name) static void case_##name(); static const bool reg_##name = vh::add_case(#name, case_##name); static void case_##name()
