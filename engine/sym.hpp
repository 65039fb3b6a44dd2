// Symbolic scalar: executing code compiled with `Sym` in place of `double` builds an expression DAG (value and
// tangent), and every branch on a symbolic condition is decided by the path being explored.
#pragma once
#include <array>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <functional>
#include <memory>
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <stdexcept>
#include <numeric>
#include <iomanip>
#include <unordered_set>
#include <set>
#include <optional>
#include <utility>
#include <tuple>
#include <list>
#include <deque>
#include <complex>
#include <random>
#include <chrono>
#include <cassert>
#include <cfloat>

namespace verif
{
enum Op : int { CONST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, TAN, ACOS, ASIN, ATAN, ATAN2, ABS, FLOOR, EXP, LOG, POISON };

struct Node { int id; int op; const Node *a; const Node *b; double c; };

const Node *mk_const(double c);
const Node *mk(int op, const Node *a, const Node *b = nullptr);
const Node *fresh_var(const std::string& name);
[[noreturn]] void engine_abort(const char *why);

// conditions: kind 0: a<b, 1: a<=b, 2: a==b
bool decide(int kind, const Node *a, const Node *b);

struct Sym {
    const Node *v;   // nullptr: constant c
    const Node *d;   // tangent; nullptr: zero
    double c;
    Sym() = default;
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>
    constexpr Sym(T x) : v(nullptr), d(nullptr), c(static_cast<double>(x)) {}
    constexpr Sym(const Node *vv, const Node *dd, double cc) : v(vv), d(dd), c(cc) {}
    bool uninit() const { return v != nullptr && ((uintptr_t)v >> 56) == 0xFE; }
    bool is_const() const { return v == nullptr; }
    const Node *node() const;
    const Node *tan_node() const;
    Sym& operator+=(const Sym& o);
    Sym& operator-=(const Sym& o);
    Sym& operator*=(const Sym& o);
    Sym& operator/=(const Sym& o);
    Sym& operator++();
    explicit operator int() const;
    explicit operator long() const;
    explicit operator double() const;
    explicit operator bool() const;
};
static_assert(std::is_trivial<Sym>::value, "Sym must be trivial");

Sym op_add(const Sym& a, const Sym& b);
Sym op_sub(const Sym& a, const Sym& b);
Sym op_mul(const Sym& a, const Sym& b);
Sym op_div(const Sym& a, const Sym& b);
Sym op_neg(const Sym& a);
// constant expressions (constexpr variables of the code under test) are folded by the compiler
constexpr Sym operator+(const Sym& a, const Sym& b) { if (__builtin_is_constant_evaluated()) return Sym(a.c + b.c); return op_add(a, b); }
constexpr Sym operator-(const Sym& a, const Sym& b) { if (__builtin_is_constant_evaluated()) return Sym(a.c - b.c); return op_sub(a, b); }
constexpr Sym operator*(const Sym& a, const Sym& b) { if (__builtin_is_constant_evaluated()) return Sym(a.c * b.c); return op_mul(a, b); }
constexpr Sym operator/(const Sym& a, const Sym& b) { if (__builtin_is_constant_evaluated()) return Sym(a.c / b.c); return op_div(a, b); }
constexpr Sym operator-(const Sym& a) { if (__builtin_is_constant_evaluated()) return Sym(-a.c); return op_neg(a); }
inline Sym operator+(const Sym& a) { return a; }
bool operator<(const Sym& a, const Sym& b);
bool operator<=(const Sym& a, const Sym& b);
bool operator==(const Sym& a, const Sym& b);
inline bool operator>(const Sym& a, const Sym& b) { return b < a; }
inline bool operator>=(const Sym& a, const Sym& b) { return b <= a; }
inline bool operator!=(const Sym& a, const Sym& b) { return !(a == b); }
inline bool operator!(const Sym& a) { return a == Sym(0.0); }
std::ostream& operator<<(std::ostream& o, const Sym& s);

Sym sqrt(const Sym& x);
Sym sin(const Sym& x);
Sym cos(const Sym& x);
Sym tan(const Sym& x);
Sym acos(const Sym& x);
Sym asin(const Sym& x);
Sym atan(const Sym& x);
Sym atan2(const Sym& y, const Sym& x);
Sym abs(const Sym& x);
Sym exp(const Sym& x);
Sym log(const Sym& x);
Sym floor(const Sym& x);
inline Sym fabs(const Sym& x) { return abs(x); }
inline Sym ceil(const Sym& x) { return -floor(-x); }
inline Sym round(const Sym& x) { return x < Sym(0.0) ? -floor(-x + Sym(0.5)) : floor(x + Sym(0.5)); }
inline Sym trunc(const Sym& x) { return x < Sym(0.0) ? -floor(-x) : floor(x); }
inline Sym fmod(const Sym& x, const Sym& y) { return x - trunc(x / y) * y; }
inline Sym remainder(const Sym& x, const Sym& y) { return x - floor(x / y + Sym(0.5)) * y; }
inline Sym hypot(const Sym& x, const Sym& y) { return sqrt(x * x + y * y); }
inline Sym hypot(const Sym& x, const Sym& y, const Sym& z) { return sqrt(x * x + y * y + z * z); }
inline Sym fma(const Sym& x, const Sym& y, const Sym& z) { return x * y + z; }
Sym pow(const Sym& x, const Sym& y);
inline Sym copysign(const Sym& x, const Sym& y) { return y < Sym(0.0) ? -abs(x) : abs(x); }
bool isfinite(const Sym& x);
bool isnan(const Sym& x);
bool isinf(const Sym& x);
inline bool signbit(const Sym& x) { return x < Sym(0.0); }
inline Sym real(const Sym& x) { return x; }
inline Sym imag(const Sym&) { return Sym(0.0); }
inline Sym conj(const Sym& x) { return x; }
inline Sym abs2(const Sym& x) { return x * x; }
inline Sym fmin(const Sym& a, const Sym& b) { return isnan(a) ? b : isnan(b) ? a : (b < a ? b : a); }
inline Sym fmax(const Sym& a, const Sym& b) { return isnan(a) ? b : isnan(b) ? a : (a < b ? b : a); }
inline Sym fdim(const Sym& a, const Sym& b) { return b < a ? a - b : Sym(0.0); }
inline Sym exp2(const Sym& x) { return exp(x * Sym(0.6931471805599453)); }
inline Sym log2(const Sym& x) { return log(x) / Sym(0.6931471805599453); }
inline Sym log10(const Sym& x) { return log(x) / Sym(2.302585092994046); }
inline Sym log1p(const Sym& x) { return log(Sym(1.0) + x); }
inline Sym expm1(const Sym& x) { return exp(x) - Sym(1.0); }
inline Sym sinh(const Sym& x) { return (exp(x) - exp(-x)) / Sym(2.0); }
inline Sym cosh(const Sym& x) { return (exp(x) + exp(-x)) / Sym(2.0); }
inline Sym tanh(const Sym& x) { Sym e = exp(x * Sym(2.0)); return (e - Sym(1.0)) / (e + Sym(1.0)); }
inline Sym cbrt(const Sym& x) { return x < Sym(0.0) ? -pow(-x, Sym(1.0 / 3.0)) : pow(x, Sym(1.0 / 3.0)); }
inline Sym rint(const Sym& x) { return floor(x + Sym(0.5)); }
inline Sym nearbyint(const Sym& x) { return floor(x + Sym(0.5)); }
inline long lround(const Sym& x) { return (long)round(x); }
inline long long llround(const Sym& x) { return (long)round(x); }
inline long lrint(const Sym& x) { return (long)rint(x); }
inline bool isnormal(const Sym& x) { return isfinite(x) && !(x == Sym(0.0)); }
inline bool isgreater(const Sym& a, const Sym& b) { return a > b; }
inline bool isgreaterequal(const Sym& a, const Sym& b) { return a >= b; }
inline bool isless(const Sym& a, const Sym& b) { return a < b; }
inline bool islessequal(const Sym& a, const Sym& b) { return a <= b; }
inline bool islessgreater(const Sym& a, const Sym& b) { return a < b || b < a; }
inline bool isunordered(const Sym& a, const Sym& b) { return isnan(a) || isnan(b); }
} // namespace verif
using verif::Sym;

namespace std
{
using verif::sqrt; using verif::sin; using verif::cos; using verif::tan; using verif::acos; using verif::asin;
using verif::atan; using verif::atan2; using verif::abs; using verif::fabs; using verif::exp; using verif::log;
using verif::floor; using verif::ceil; using verif::round; using verif::trunc; using verif::fmod; using verif::remainder;
using verif::hypot; using verif::pow; using verif::copysign; using verif::isfinite; using verif::isnan; using verif::isinf;
using verif::signbit; using verif::fma; using verif::fmin; using verif::fmax; using verif::fdim; using verif::exp2;
using verif::log2; using verif::log10; using verif::log1p; using verif::expm1; using verif::sinh; using verif::cosh; using verif::tanh;
using verif::cbrt; using verif::rint; using verif::nearbyint; using verif::lround; using verif::llround; using verif::lrint;
using verif::isnormal; using verif::isgreater; using verif::isgreaterequal; using verif::isless; using verif::islessequal;
using verif::islessgreater; using verif::isunordered;
template <> struct numeric_limits<verif::Sym> : numeric_limits<double> {
    static constexpr verif::Sym min() noexcept { return numeric_limits<double>::min(); }
    static constexpr verif::Sym max() noexcept { return numeric_limits<double>::max(); }
    static constexpr verif::Sym lowest() noexcept { return numeric_limits<double>::lowest(); }
    static constexpr verif::Sym epsilon() noexcept { return numeric_limits<double>::epsilon(); }
    static constexpr verif::Sym infinity() noexcept { return numeric_limits<double>::infinity(); }
    static constexpr verif::Sym quiet_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
};
inline const verif::Sym& min(const verif::Sym& a, const verif::Sym& b) { return b < a ? b : a; }
inline const verif::Sym& max(const verif::Sym& a, const verif::Sym& b) { return a < b ? b : a; }
inline string to_string(const verif::Sym&) { return "<sym>"; }
template <> struct hash<verif::Sym> { size_t operator()(const verif::Sym& s) const { return hash<const void*>()(s.v) ^ hash<double>()(s.c); } };
} // namespace std

// the clock as an arbitrary non-decreasing reading
namespace symchrono
{
struct microseconds { using is_micro = int; }; struct milliseconds {}; struct seconds {}; struct nanoseconds {};
template <class Rep = Sym, class P = void> struct duration {
    Sym s;
    duration() : s(0.0) {}
    duration(Sym x) : s(x) {}
    template <class R2, class P2> duration(const duration<R2, P2>& o) : s(o.s) {}
    Sym count() const { return s; }
    duration& operator+=(const duration& o) { s += o.s; return *this; }
    duration& operator-=(const duration& o) { s -= o.s; return *this; }
    static duration zero() { return duration(Sym(0.0)); }
};
template <class A, class B, class C, class D> duration<Sym> operator+(const duration<A, B>& a, const duration<C, D>& b) { return duration<Sym>(a.s + b.s); }
template <class A, class B, class C, class D> duration<Sym> operator-(const duration<A, B>& a, const duration<C, D>& b) { return duration<Sym>(a.s - b.s); }
struct any_clock;
template <class C = any_clock, class D = void> struct time_point {
    Sym t;
    time_point() : t(0.0) {}
    explicit time_point(Sym x) : t(x) {}
    duration<Sym> time_since_epoch() const { return duration<Sym>(t); }
};
template <class A, class B, class C, class D> duration<Sym> operator-(const time_point<A, B>& a, const time_point<C, D>& b) { return duration<Sym>(a.t - b.t); }
Sym clock_reading();
struct any_clock { using time_point = symchrono::time_point<any_clock>; using duration = symchrono::duration<Sym>; static time_point now() { return time_point(clock_reading()); } };
using steady_clock = any_clock; using high_resolution_clock = any_clock; using system_clock = any_clock;
template <class To, class R, class P> duration<Sym> duration_cast(const duration<R, P>& d) { return duration<Sym>(d.s); }
} // namespace symchrono

namespace verif { void on_assert(const char *what, const char *file, int line); }
#define eigen_assert(x) do { if (!(x)) ::verif::on_assert(#x, __FILE__, __LINE__); } while (0)
#include <Eigen/Core>
namespace Eigen
{
template <> struct NumTraits<verif::Sym> : NumTraits<double> {
    typedef verif::Sym Real; typedef verif::Sym NonInteger; typedef verif::Sym Nested; typedef double Literal;
    static inline verif::Sym epsilon() { return NumTraits<double>::epsilon(); }
    static inline verif::Sym dummy_precision() { return NumTraits<double>::dummy_precision(); }
    static inline verif::Sym highest() { return NumTraits<double>::highest(); }
    static inline verif::Sym lowest() { return NumTraits<double>::lowest(); }
    static inline verif::Sym infinity() { return NumTraits<double>::infinity(); }
    static inline verif::Sym quiet_NaN() { return NumTraits<double>::quiet_NaN(); }
    static inline int digits10() { return 15; }
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
};
template <typename BinaryOp> struct ScalarBinaryOpTraits<verif::Sym, double, BinaryOp> { typedef verif::Sym ReturnType; };
template <typename BinaryOp> struct ScalarBinaryOpTraits<double, verif::Sym, BinaryOp> { typedef verif::Sym ReturnType; };
namespace internal
{
template <> struct cast_impl<verif::Sym, int> { static inline int run(const verif::Sym& x) { return (int)x; } };
} // namespace internal
} // namespace Eigen
#include <Eigen/Dense>
#include <Eigen/Sparse>
namespace Eigen
{
namespace internal { template <> struct ptrue_impl<verif::Sym, void> { static inline verif::Sym run(const verif::Sym&) { return verif::Sym(1.0); } }; }
#define VERIF_TD(n) typedef Matrix<verif::Sym, n, 1> Vector##n##_S; typedef Matrix<verif::Sym, 1, n> RowVector##n##_S; typedef Matrix<verif::Sym, n, n> Matrix##n##_S;
VERIF_TD(2) VERIF_TD(3) VERIF_TD(4)
#undef VERIF_TD
typedef Matrix<verif::Sym, Dynamic, 1> VectorX_S; typedef Matrix<verif::Sym, 1, Dynamic> RowVectorX_S; typedef Matrix<verif::Sym, Dynamic, Dynamic> MatrixX_S;
typedef Matrix<verif::Sym, 2, Dynamic> Matrix2X_S; typedef Matrix<verif::Sym, 3, Dynamic> Matrix3X_S; typedef Matrix<verif::Sym, 4, Dynamic> Matrix4X_S;
typedef Matrix<verif::Sym, Dynamic, 2> MatrixX2_S; typedef Matrix<verif::Sym, Dynamic, 3> MatrixX3_S; typedef Matrix<verif::Sym, Dynamic, 4> MatrixX4_S;
typedef Array<verif::Sym, Dynamic, 1> ArrayX_S; typedef Array<verif::Sym, Dynamic, Dynamic> ArrayXX_S;
typedef Array<verif::Sym, 2, 1> Array2_S; typedef Array<verif::Sym, 3, 1> Array3_S; typedef Array<verif::Sym, 4, 1> Array4_S;
typedef Array<verif::Sym, 2, 2> Array22_S; typedef Array<verif::Sym, 3, 3> Array33_S; typedef Array<verif::Sym, 4, 4> Array44_S;
typedef AngleAxis<verif::Sym> AngleAxis_S; typedef Quaternion<verif::Sym> Quaternion_S; typedef Rotation2D<verif::Sym> Rotation2D_S;
typedef Transform<verif::Sym, 2, Isometry> Isometry2_S; typedef Transform<verif::Sym, 3, Isometry> Isometry3_S;
typedef Transform<verif::Sym, 2, Affine> Affine2_S; typedef Transform<verif::Sym, 3, Affine> Affine3_S;
typedef Translation<verif::Sym, 2> Translation2_S; typedef Translation<verif::Sym, 3> Translation3_S;
} // namespace Eigen
