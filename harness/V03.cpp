// encodes: InverseRangeVariable (constructor, set_value_from_vector, apply_increment, clip_inverse_range, inverse_range, value, pos_W, origin_pos_W, bearing_W)
// bounds: initial range any number but zero; limits as by default or set by the user with 1e-8 <= minimum <= maximum; up to three successive set/increment operations with any real argument
#include "common.hpp"
#include "factorama/inverse_range_variable.hpp"

static void require_state(const std::string& nm, const InverseRangeVariable& v, const Eigen::Vector3d& o, const Eigen::Vector3d& b, double want)
{
    if (v.value().size() != 1 || v.size() != 1) { require_true(nm + " has one value", false); return; }
    double lo = v.minimum_inverse_range_, hi = v.maximum_inverse_range_, x = v.value()[0];
    require_le(nm + " not below the minimum", lo, x);
    require_le(nm + " not above the maximum", x, hi);
    if (lo <= want && want <= hi) require_eq(nm + " as requested", x, want);
    else if (want < lo) require_eq(nm + " at the minimum", x, lo);
    else require_eq(nm + " at the maximum", x, hi);
    require_eq(nm + " read", v.inverse_range(), x);
    require_eq(nm + " origin", v.origin_pos_W(), o);
    require_eq(nm + " bearing", v.bearing_W(), Eigen::Vector3d(b / std::sqrt(b.dot(b))));
    Eigen::Vector3d p = v.pos_W();
    require_eq(nm + " point", p, Eigen::Vector3d(o + b / std::sqrt(b.dot(b)) / x));
}
static Eigen::VectorXd v1(double x) { Eigen::VectorXd v(1); v << x; return v; }
static double clip(double x, double lo, double hi) { return x < lo ? lo : hi < x ? hi : x; }

CASE(constructed)
{
    Eigen::Vector3d o = vec3("o"), b = vec3("b");
    assume_lt(1e-6, b.dot(b));
    double r = input("range");
    if (r == 0.0) skip();
    InverseRangeVariable v(5, o, b, r);
    require_true("id", v.id() == 5);
    require_state("constructed", v, o, b, 1.0 / r);
}
CASE(default_limits)
{
    Eigen::Vector3d o = vec3("o"), b = unit3("b");
    double x = input("range", 1e-2, 1e5);
    InverseRangeVariable v(5, o, b, x);
    double cur = 1.0 / x;
    for (int k = 0; k < 3; ++k) {
        std::string n = std::to_string(k);
        int op = choose("op" + n, 0, 2);
        if (op == 0) break;
        double a = input("arg" + n);
        if (op == 1) { v.set_value_from_vector(v1(a)); require_state("set " + n, v, o, b, a); cur = clip(a, v.minimum_inverse_range_, v.maximum_inverse_range_); }
        else { v.apply_increment(v1(a)); require_state("incremented " + n, v, o, b, cur + a); cur = clip(cur + a, v.minimum_inverse_range_, v.maximum_inverse_range_); }
    }
}
CASE(user_limits)
{
    Eigen::Vector3d o = vec3("o"), b = unit3("b");
    double lo = input("lo"), hi = input("hi");
    assume_le(1e-8, lo); assume_le(lo, hi);
    InverseRangeVariable v(5, o, b, input("range", 1e-2, 1e5));
    v.minimum_inverse_range_ = lo; v.maximum_inverse_range_ = hi;
    double a = input("arg0"), d = input("arg1");
    v.set_value_from_vector(v1(a));
    require_state("set", v, o, b, a);
    v.apply_increment(v1(d));
    require_state("incremented", v, o, b, clip(a, lo, hi) + d);
}
CASE(increment_refused)
{
    Eigen::Vector3d o = vec3("o"), b = unit3("b");
    double x = input("range", 1e-2, 1e5);
    InverseRangeVariable v(5, o, b, x);
    int n = choose("n", 0, 3);
    if (n == 1) skip();
    Eigen::VectorXd w = vecn("w", n);
    require_true("increment refused", refused([&] { v.apply_increment(w); }));
    require_state("after a refused increment", v, o, b, 1.0 / x);
}
