// Stand-in for pybind11: the binding source of the repository, compiled against this header, records every class,
// function, attribute and enumeration it exposes, and each of them can then be called with dynamically typed values
// (the way the interpreter would), on plain or on symbolic numbers. Conversions follow pybind11's: overloads are tried
// in order, arguments are matched by position, keyword and default, and a call that fits no overload is a TypeError.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <functional>
#include <map>
#include <array>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <type_traits>
#include <utility>
#include <vector>
#include "factorama/base_types.hpp"

namespace pyshim
{
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
enum Kind { NONE, INT, BOOL, DBL, STR, ARR, OBJ, ENUM, LIST };
struct Val
{
    Kind k = NONE;
    long i = 0;
    double d = 0;
    std::string s;
    Eigen::MatrixXd m;
    int ndim = 0;
    std::shared_ptr<void> obj;                 // points to an object of type root
    const std::type_info *root = nullptr, *dyn = nullptr;
    bool owned = true;
    const void *view = nullptr;                // an array over memory it does not own
    std::function<std::shared_ptr<void>()> adopt;   // a raw pointer, taken over by the caller
    std::vector<Val> items;
    Val() {}
    bool is_none() const { return k == NONE; }
    explicit operator bool() const { return k != NONE; }
    template <class T> T cast() const;
    Val(int x) : k(INT), i(x) {}
    Val(long x) : k(INT), i(x) {}
    Val(bool x) : k(BOOL), i(x) {}
    Val(double x) : k(DBL), d(x) {}
    Val(const char *x) : k(STR), s(x) {}
    Val(const std::string& x) : k(STR), s(x) {}
    template <class D> Val(const Eigen::MatrixBase<D>& x) : k(ARR), m(x), ndim(D::ColsAtCompileTime == 1 ? 1 : 2) {}
};
template <class T> using root_t = typename std::conditional<std::is_base_of<factorama::Variable, T>::value, factorama::Variable, typename std::conditional<std::is_base_of<factorama::Factor, T>::value, factorama::Factor, T>::type>::type;
template <class T> const std::type_info *dynamic_type(const T *p) { if constexpr (std::is_polymorphic<T>::value) return &typeid(*p); else return &typeid(T); }
template <class T> Val wrap(std::shared_ptr<T> p, bool owned = true)
{
    Val v;
    if (!p) return v;
    typedef typename std::remove_const<T>::type U;
    v.k = OBJ; v.root = &typeid(root_t<U>); v.dyn = dynamic_type(p.get()); v.owned = owned;
    v.obj = std::shared_ptr<root_t<U>>(std::const_pointer_cast<U>(p));
    return v;
}
// the object behind a value, null when it is of another type
template <class T> std::shared_ptr<T> unwrap(const Val& v)
{
    typedef root_t<T> R;
    if (v.k != OBJ || *v.root != typeid(R)) return nullptr;
    std::shared_ptr<R> r = std::static_pointer_cast<R>(v.obj);
    if constexpr (std::is_same<R, T>::value) return r; else return std::dynamic_pointer_cast<T>(r);
}
// ---- conversion of arguments ----
template <class T> struct is_shared : std::false_type {};
template <class T> struct is_shared<std::shared_ptr<T>> : std::true_type { typedef T inner; };
template <class T> struct is_vector : std::false_type {};
template <class T> struct is_vector<std::vector<T>> : std::true_type { typedef T inner; };
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type { typedef T inner; };
template <class T> struct is_array : std::false_type {};
template <class T, size_t N> struct is_array<std::array<T, N>> : std::true_type { typedef T inner; static constexpr size_t size = N; };
template <class T> struct is_map : std::false_type {};
template <class K, class V, class... R> struct is_map<std::map<K, V, R...>> : std::true_type {};
template <class T> struct is_ref : std::false_type {};
template <class P, int O, class S> struct is_ref<Eigen::Ref<P, O, S>> : std::true_type { typedef typename std::remove_const<P>::type inner; };
template <class T> struct is_dense { template <class D> static std::true_type f(const Eigen::DenseBase<D> *); static std::false_type f(...); static const bool value = decltype(f((T *)nullptr))::value; };
template <class T> struct is_sparse { template <class D> static std::true_type f(const Eigen::SparseMatrixBase<D> *); static std::false_type f(...); static const bool value = decltype(f((T *)nullptr))::value; };
template <class T> struct is_tuple : std::false_type {};
template <class... T> struct is_tuple<std::tuple<T...>> : std::true_type {};
template <class A, class B> struct is_tuple<std::pair<A, B>> : std::true_type {};

template <class M> bool load_dense(const Val& v, M& out)
{
    if (v.k == LIST) {                                        // a sequence of numbers
        Eigen::VectorXd x((int)v.items.size());
        for (size_t k = 0; k < v.items.size(); ++k) { const Val& e = v.items[k]; if (e.k == DBL) x[(int)k] = e.d; else if (e.k == INT) x[(int)k] = (double)e.i; else return false; }
        return load_dense(Val(x), out);
    }
    if (v.k != ARR) return false;
    const int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime;
    Eigen::MatrixXd x = v.m;
    if (R == 1 && C != 1 && v.ndim == 1) x.transposeInPlace();
    if (C == 1 && v.ndim == 2 && x.cols() != 1) return false;
    if ((R != Eigen::Dynamic && x.rows() != R) || (C != Eigen::Dynamic && x.cols() != C)) return false;
    out = x;
    return true;
}
template <class T> struct Loader                            // of a parameter of type T
{
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type U;
    static constexpr bool lref = std::is_lvalue_reference<T>::value;
    template <class X> static constexpr bool number() { return std::is_same<X, double>::value || std::is_arithmetic<X>::value; }
    static constexpr bool by_value = number<U>() || std::is_same<U, std::string>::value || is_dense<U>::value || std::is_enum<U>::value || is_shared<U>::value || is_vector<U>::value || is_ref<U>::value || is_opt<U>::value || is_array<U>::value || std::is_base_of<Val, U>::value;
    typedef typename std::conditional<std::is_pointer<U>::value, typename std::remove_cv<typename std::remove_pointer<U>::type>::type, U>::type Obj;
    template <bool R, class X> struct Store { typedef X type; };
    template <class X> struct Store<true, X> { typedef typename is_ref<X>::inner type; };
    template <class X, bool V> struct Hold { typename Store<is_ref<X>::value, X>::type v{}; };
    template <class X> struct Hold<X, false> { std::shared_ptr<Obj> v; };
    Hold<U, by_value> h;
    bool load(const Val& a)
    {
        if constexpr (std::is_same<U, Val>::value) { h.v = a; return true; }
        else if constexpr (std::is_base_of<Val, U>::value) { if (a.k != LIST) return false; static_cast<Val&>(h.v) = a; return true; }
        else if constexpr (is_opt<U>::value) { if (a.k == NONE) { h.v.reset(); return true; } Loader<typename is_opt<U>::inner> l; if (!l.load(a)) return false; h.v = l.get(); return true; }
        else if constexpr (is_array<U>::value) {
            if (a.k != LIST || a.items.size() != is_array<U>::size) return false;
            for (size_t k = 0; k < is_array<U>::size; ++k) { Loader<typename is_array<U>::inner> l; if (!l.load(a.items[k])) return false; h.v[k] = l.get(); }
            return true;
        }
        else if constexpr (std::is_same<U, bool>::value) { if (a.k != BOOL) return false; h.v = a.i != 0; return true; }
        else if constexpr (std::is_integral<U>::value) { if ((a.k != INT && a.k != BOOL) || (std::is_unsigned<U>::value && a.i < 0)) return false; h.v = (U)a.i; return true; }
        else if constexpr (number<U>()) { if (a.k == DBL) h.v = a.d; else if (a.k == INT || a.k == BOOL) h.v = (double)a.i; else return false; return true; }
        else if constexpr (std::is_same<U, std::string>::value) { if (a.k != STR) return false; h.v = a.s; return true; }
        else if constexpr (is_dense<U>::value || is_ref<U>::value) return load_dense(a, h.v);
        else if constexpr (std::is_enum<U>::value) { if (a.k != ENUM || *a.dyn != typeid(U)) return false; h.v = (U)a.i; return true; }
        else if constexpr (is_shared<U>::value) {
            typedef typename std::remove_const<typename is_shared<U>::inner>::type X;
            if (a.k == NONE) { h.v = nullptr; return true; }
            h.v = unwrap<X>(a); return h.v != nullptr;
        }
        else if constexpr (is_vector<U>::value) {
            if (a.k != LIST) return false;
            for (auto& e : a.items) { Loader<typename is_vector<U>::inner> l; if (!l.load(e)) return false; h.v.push_back(l.get()); }
            return true;
        }
        else if constexpr (std::is_pointer<U>::value) { if (a.k == NONE) { h.v = nullptr; return true; } h.v = unwrap<Obj>(a); return h.v != nullptr; }
        else { h.v = unwrap<Obj>(a); return h.v != nullptr; }
    }
    decltype(auto) get()
    {
        if constexpr (by_value) return (h.v);
        else if constexpr (std::is_pointer<U>::value) return h.v.get();
        else return (*h.v);
    }
};
template <class T> T Val::cast() const
{
    Loader<T> l;
    if (!l.load(*this)) throw TypeError("Unable to cast Python instance to C++ type");
    return static_cast<T>(l.get());
}
// ---- conversion of results ----
enum class rvp { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class T> Val to_py(T&& x, rvp policy);
template <class Tup, size_t... I> Val tuple_to_py(Tup&& t, std::index_sequence<I...>) { Val v; v.k = LIST; (v.items.push_back(to_py(std::get<I>(t), rvp::automatic)), ...); return v; }
template <class T> Val to_py(T&& x, rvp policy)
{
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type U;
    if constexpr (std::is_base_of<Val, U>::value) return x;
    else if constexpr (std::is_same<U, bool>::value) return Val(bool(x));
    else if constexpr (std::is_integral<U>::value) return Val((long)x);
    else if constexpr (std::is_same<U, double>::value || std::is_floating_point<U>::value) return Val(double(x));
    else if constexpr (std::is_same<U, std::string>::value || std::is_same<U, const char *>::value) return Val(std::string(x));
    else if constexpr (is_dense<U>::value) {
        Val v(x.derived().eval());
        if constexpr (std::is_lvalue_reference<T>::value && std::is_base_of<Eigen::PlainObjectBase<U>, U>::value)
            if (policy == rvp::reference || policy == rvp::reference_internal) v.view = x.data();
        return v;
    }
    else if constexpr (is_sparse<U>::value) return Val(Eigen::MatrixXd(x));
    else if constexpr (std::is_enum<U>::value) { Val v; v.k = ENUM; v.i = (long)x; v.dyn = &typeid(U); return v; }
    else if constexpr (is_shared<U>::value) return wrap(x);
    else if constexpr (is_opt<U>::value) return x ? to_py(*x, policy) : Val();
    else if constexpr (is_map<U>::value) { Val v; v.k = LIST; for (auto& e : x) v.items.push_back(to_py(e, policy)); return v; }
    else if constexpr (is_vector<U>::value || is_array<U>::value) { Val v; v.k = LIST; for (auto& e : x) v.items.push_back(to_py(e, policy)); return v; }
    else if constexpr (is_tuple<U>::value) return tuple_to_py(x, std::make_index_sequence<std::tuple_size<U>::value>());
    else if constexpr (std::is_pointer<U>::value) {
        typedef typename std::remove_cv<typename std::remove_pointer<U>::type>::type X;
        if (!x) return Val();
        X *raw = const_cast<X *>(x);
        Val v = wrap(std::shared_ptr<X>(raw, [](X *) {}), false);
        v.adopt = [raw] { return std::shared_ptr<void>(std::shared_ptr<root_t<X>>(std::shared_ptr<X>(raw))); };
        return v;
    }
    else if constexpr (std::is_lvalue_reference<T>::value && !std::is_copy_constructible<U>::value) return wrap(std::shared_ptr<U>(const_cast<U *>(&x), [](U *) {}), false);
    else if constexpr (std::is_lvalue_reference<T>::value) {
        if (policy == rvp::reference || policy == rvp::reference_internal) return wrap(std::shared_ptr<U>(const_cast<U *>(&x), [](U *) {}), false);
        return wrap(std::make_shared<U>(x));
    }
    else return wrap(std::make_shared<U>(std::move(x)));
}
// ---- what a binding declares ----
struct Param { std::string how; const std::type_info *type = nullptr; };     // "raw", "shared", "object", "value"
template <class T> Param param()
{
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type U;
    Param p;
    if constexpr (std::is_pointer<U>::value) { p.how = "raw"; p.type = &typeid(typename std::remove_cv<typename std::remove_pointer<U>::type>::type); }
    else if constexpr (is_shared<U>::value) { p.how = "shared"; p.type = &typeid(typename is_shared<U>::inner); }
    else if constexpr (!Loader<T>::by_value) { p.how = "object"; p.type = &typeid(U); }
    else { p.how = "value"; p.type = &typeid(U); }
    return p;
}
// how a result is handed over: "value" (a copy), "shared", "raw", "rawlist", "sharedlist", "view" (array over memory of
// the callee), "object" (a reference to a C++ object), "copy" (a new object)
template <class T> std::string result()
{
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type U;
    if constexpr (std::is_void<T>::value) return "none";
    else if constexpr (std::is_base_of<Val, U>::value) return "value";
    else if constexpr (is_shared<U>::value) return "shared";
    else if constexpr (std::is_pointer<U>::value && !std::is_same<U, const char *>::value) return "raw";
    else if constexpr (is_vector<U>::value) { typedef typename is_vector<U>::inner E; if constexpr (std::is_pointer<E>::value) return "rawlist"; else if constexpr (is_shared<E>::value) return "sharedlist"; else return "value"; }
    else if constexpr (is_dense<U>::value) return std::is_lvalue_reference<T>::value ? "view" : "value";
    else if constexpr (is_sparse<U>::value || Loader<T>::by_value || is_tuple<U>::value || is_map<U>::value) return "value";
    else return std::is_lvalue_reference<T>::value ? "object" : "copy";
}
struct Rec
{
    std::string name;
    bool method = false, ctor = false;
    std::vector<Param> params;                      // without self
    std::vector<std::string> names;
    std::vector<std::pair<bool, Val>> defaults;
    rvp policy = rvp::automatic;
    bool policy_given = false;
    std::vector<std::pair<int, int>> keep;          // keep_alive<nurse, patient>
    std::string returns;
    std::function<bool(const std::vector<Val>&, rvp, Val&)> invoke;      // arguments incl. self; false: they do not fit
};
struct Attr { bool readonly = false; std::string returns; rvp policy = rvp::reference_internal; std::function<bool(const Val&, rvp, Val&)> get; std::function<bool(const Val&, const Val&)> set; };
struct Class
{
    std::string name; const std::type_info *type = nullptr;
    std::vector<const std::type_info *> bases;
    std::string holder = "unique";
    std::map<std::string, std::vector<Rec>> methods;
    std::map<std::string, Attr> attrs;
};
struct Enum { std::string name; const std::type_info *type = nullptr; std::vector<std::pair<std::string, long>> values; };
struct Registry
{
    std::map<std::string, Class> classes;
    std::map<std::type_index, std::string> names;
    std::map<std::string, Enum> enums;
    std::map<std::type_index, std::string> enum_names;
    std::map<std::string, std::vector<Rec>> functions;
    std::vector<std::function<void()>> modules;
    Rec last;                                   // what the last call was dispatched to
};
inline Registry& registry() { static Registry r; return r; }

template <class R, class F, class... A, size_t... I> bool invoke_as(F& f, const std::vector<Val>& a, rvp policy, Val& out, std::index_sequence<I...>)
{
    std::tuple<Loader<A>...> l;
    bool ok = true;
    ((ok = ok && std::get<I>(l).load(a[I])), ...);
    if (!ok) return false;
    if constexpr (std::is_void<R>::value) { f(static_cast<A>(std::get<I>(l).get())...); out = Val(); }
    else { R r = f(static_cast<A>(std::get<I>(l).get())...); out = to_py<R>(static_cast<R&&>(r), policy); }
    return true;
}
template <class R, class... A, class F> Rec record(F f, bool method)
{
    Rec r;
    r.params = {param<A>()...};
    if (method && !r.params.empty()) r.params.erase(r.params.begin());
    r.returns = result<R>();
    r.method = method;
    r.invoke = [f](const std::vector<Val>& a, rvp p, Val& out) mutable { return a.size() == sizeof...(A) && invoke_as<R, F, A...>(f, a, p, out, std::make_index_sequence<sizeof...(A)>()); };
    return r;
}
template <class C, class R, class B, class... A> Rec from(R (B::*f)(A...), bool) { return record<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, true); }
template <class C, class R, class B, class... A> Rec from(R (B::*f)(A...) const, bool) { return record<R, const C&, A...>([f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, true); }
template <class C, class R, class B, class... A> Rec from(R (B::*f)(A...) noexcept, bool) { return record<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, true); }
template <class C, class R, class B, class... A> Rec from(R (B::*f)(A...) const noexcept, bool) { return record<R, const C&, A...>([f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, true); }
template <class C, class R, class... A> Rec from(R (*f)(A...), bool m) { return record<R, A...>(f, m); }
template <class L, class R, class... A> Rec from_call(L l, R (L::*)(A...) const, bool m) { return record<R, A...>(l, m); }
template <class L, class R, class... A> Rec from_call(L l, R (L::*)(A...), bool m) { return record<R, A...>(l, m); }
template <class C, class L, class = decltype(&L::operator())> Rec from(L l, bool m) { return from_call(l, &L::operator(), m); }
} // namespace pyshim

namespace pybind11
{
using pyshim::Val; using pyshim::Rec; using pyshim::registry;
typedef Val object; typedef Val handle;
struct list : Val { list() { k = pyshim::LIST; } template <class T> void append(T&& x) { items.push_back(pyshim::to_py(x, pyshim::rvp::automatic)); } size_t size() const { return items.size(); } };
struct tuple : list {};
template <class... T> tuple make_tuple(T&&... x) { tuple t; (t.append(std::forward<T>(x)), ...); return t; }
template <class T> Val cast(T&& x, pyshim::rvp p = pyshim::rvp::automatic) { return pyshim::to_py(x, p); }
inline Val none() { return Val(); }
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <class... T> void print(T&&...) {}
struct return_value_policy { static constexpr pyshim::rvp automatic = pyshim::rvp::automatic, automatic_reference = pyshim::rvp::automatic_reference, take_ownership = pyshim::rvp::take_ownership, copy = pyshim::rvp::copy, move = pyshim::rvp::move, reference = pyshim::rvp::reference, reference_internal = pyshim::rvp::reference_internal; };
struct arg_v { std::string name; bool has = true; Val v; };
struct arg
{
    std::string name;
    explicit arg(const char *n = "") : name(n) {}
    arg& none(bool = true) { return *this; }
    arg& noconvert(bool = true) { return *this; }
    template <class T> arg_v operator=(T&& x) const { arg_v a; a.name = name; a.v = pyshim::to_py(x, pyshim::rvp::copy); return a; }
};
template <size_t N, size_t P> struct keep_alive {};
template <class... T> struct call_guard {};
struct is_method { template <class T> explicit is_method(const T&) {} };
struct name { explicit name(const char *) {} };
struct doc { explicit doc(const char *) {} };
struct prepend {}; struct return_none {};
struct gil_scoped_acquire {};
struct gil_scoped_release { gil_scoped_release() {} };
struct dynamic_attr {}; struct module_local { module_local(bool = true) {} }; struct arithmetic {}; struct kw_only {}; struct pos_only {}; struct is_operator {};
template <class... A> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

namespace shim
{
inline void extra(Rec& r, const char *) {}
inline void extra(Rec& r, const std::string&) {}
inline void extra(Rec& r, const arg& a) { r.names.push_back(a.name); r.defaults.push_back({false, Val()}); }
inline void extra(Rec& r, const arg_v& a) { r.names.push_back(a.name); r.defaults.push_back({true, a.v}); }
inline void extra(Rec& r, pyshim::rvp p) { r.policy = p; r.policy_given = true; }
template <size_t N, size_t P> void extra(Rec& r, keep_alive<N, P>) { r.keep.push_back({(int)N, (int)P}); }
template <class... T> void extra(Rec&, call_guard<T...>) {}
inline void extra(Rec&, kw_only) {}
inline void extra(Rec&, pos_only) {}
inline void extra(Rec&, is_operator) {}
inline void extra(Rec&, const is_method&) {}
inline void extra(Rec&, const name&) {}
inline void extra(Rec&, const doc&) {}
inline void extra(Rec&, prepend) {}
template <class T, class... A> struct Init {};
template <class F> struct Factory { F f; };
} // namespace shim
// a function object with its own annotations, usable wherever a function is
struct cpp_function
{
    Rec r;
    cpp_function() {}
    template <class R, class C, class... A, class... E> cpp_function(R (C::*f)(A...), const E&... e) : r(pyshim::from<C>(f, true)) { (shim::extra(r, e), ...); }
    template <class R, class C, class... A, class... E> cpp_function(R (C::*f)(A...) const, const E&... e) : r(pyshim::from<C>(f, true)) { (shim::extra(r, e), ...); }
    template <class R, class... A, class... E> cpp_function(R (*f)(A...), const E&... e) : r(pyshim::from<void>(f, true)) { (shim::extra(r, e), ...); }
    template <class L, class... E, class = decltype(&L::operator())> cpp_function(L f, const E&... e) : r(pyshim::from<void>(f, true)) { (shim::extra(r, e), ...); }
};
namespace shim
{
template <class T, class F> Rec function(const F& f, bool method) { if constexpr (std::is_same<F, cpp_function>::value) return f.r; else return pyshim::from<T>(f, method); }
} // namespace shim
template <class... A> shim::Init<void, A...> init() { return {}; }
template <class F> shim::Factory<F> init(F f) { return {f}; }

template <class T, class... Options> struct class_
{
    pyshim::Class *c;
    template <class X> void option()
    {
        if constexpr (pyshim::is_shared<X>::value) c->holder = "shared";
        else if constexpr (std::is_base_of<X, T>::value && !std::is_same<X, T>::value) c->bases.push_back(&typeid(X));
    }
    template <class M, class... Extra> class_(M&, const char *name, const Extra&...)
    {
        c = &registry().classes[name];
        c->name = name; c->type = &typeid(T);
        registry().names[std::type_index(typeid(T))] = name;
        (option<Options>(), ...);
    }
    void add(Rec r, const char *name) { r.name = name; if (r.names.empty()) { r.names.assign(r.params.size(), ""); r.defaults.assign(r.params.size(), {false, Val()}); } c->methods[name].push_back(r); }
    template <class... A, class... Extra> class_& def(shim::Init<void, A...>, const Extra&... e)
    {
        Rec r = pyshim::record<std::shared_ptr<T>, A...>([](A... a) { return std::make_shared<T>(std::forward<A>(a)...); }, false);
        r.ctor = true;
        (shim::extra(r, e), ...);
        add(r, "__init__");
        return *this;
    }
    template <class F, class... Extra> class_& def(shim::Factory<F> f, const Extra&... e)
    {
        Rec r = pyshim::from<T>(f.f, false);
        r.ctor = true;
        (shim::extra(r, e), ...);
        add(r, "__init__");
        return *this;
    }
    template <class F, class... Extra> class_& def(const char *name, F f, const Extra&... e)
    {
        Rec r = shim::function<T>(f, true);
        (shim::extra(r, e), ...);
        add(r, name);
        return *this;
    }
    template <class F, class... Extra> class_& def_static(const char *name, F f, const Extra&... e)
    {
        Rec r = pyshim::from<T>(f, false);
        (shim::extra(r, e), ...);
        add(r, name);
        return *this;
    }
    template <class D, class B> class_& def_readonly(const char *name, D B::*p)
    {
        pyshim::Attr a; a.readonly = true; a.returns = pyshim::result<D&>();
        a.get = [p](const Val& s, pyshim::rvp pol, Val& out) { std::shared_ptr<T> o = pyshim::unwrap<T>(s); if (!o) return false; out = pyshim::to_py(o.get()->*p, pol); return true; };
        c->attrs[name] = a;
        return *this;
    }
    template <class D, class B> class_& def_readwrite(const char *name, D B::*p)
    {
        def_readonly(name, p);
        pyshim::Attr& a = c->attrs[name];
        a.readonly = false;
        a.set = [p](const Val& s, const Val& v) { std::shared_ptr<T> o = pyshim::unwrap<T>(s); pyshim::Loader<const D&> l; if (!o || !l.load(v)) return false; o.get()->*p = l.get(); return true; };
        return *this;
    }
    template <class G, class... Extra> class_& def_property_readonly(const char *name, G g, const Extra&... e)
    {
        Rec r = shim::function<T>(g, true);
        if (!r.policy_given) r.policy = pyshim::rvp::reference_internal;
        (shim::extra(r, e), ...);
        pyshim::Attr a; a.readonly = true; a.returns = r.returns; a.policy = r.policy;
        a.get = [r](const Val& s, pyshim::rvp pol, Val& out) mutable { return r.invoke({s}, pol, out); };
        c->attrs[name] = a;
        return *this;
    }
    template <class G, class S, class... Extra> class_& def_property(const char *name, G g, S s, const Extra&... e)
    {
        def_property_readonly(name, g, e...);
        if constexpr (std::is_same<S, std::nullptr_t>::value) return *this;
        else {
        Rec r = shim::function<T>(s, true);
        pyshim::Attr& a = c->attrs[name];
        a.readonly = false;
        a.set = [r](const Val& o, const Val& v) mutable { Val out; return r.invoke({o, v}, pyshim::rvp::automatic, out); };
        return *this;
        }
    }
};
template <class E> struct enum_
{
    pyshim::Enum *e;
    template <class M, class... Extra> enum_(M&, const char *name, const Extra&...)
    {
        e = &registry().enums[name];
        e->name = name; e->type = &typeid(E);
        registry().enum_names[std::type_index(typeid(E))] = name;
    }
    template <class... D> enum_& value(const char *name, E v, const D&...) { e->values.push_back({name, (long)v}); return *this; }
    enum_& export_values() { return *this; }
};
struct module_
{
    struct Sink { template <class T> Sink& operator=(const T&) { return *this; } };
    Sink doc() { return {}; }
    Sink attr(const char *) { return {}; }
    template <class X> void add_object(const char *, const X&, bool = false) {}
    template <class F, class... Extra> module_& def(const char *name, F f, const Extra&... e)
    {
        Rec r = shim::function<void>(f, false);
        (shim::extra(r, e), ...);
        r.name = name;
        if (r.names.empty()) { r.names.assign(r.params.size(), ""); r.defaults.assign(r.params.size(), {false, Val()}); }
        registry().functions[name].push_back(r);
        return *this;
    }
    module_& def_submodule(const char *, const char * = "") { return *this; }
};
typedef module_ module;
template <class A, class B> void implicitly_convertible() {}
} // namespace pybind11
#define PYBIND11_MODULE(name, m) \
    static void pyshim_module_##name(pybind11::module_& m); \
    static const bool pyshim_registered_##name = (pyshim::registry().modules.push_back([] { pybind11::module_ mod; pyshim_module_##name(mod); }), true); \
    static void pyshim_module_##name(pybind11::module_& m)

namespace pyshim
{
// ---- calling what is exposed ----
inline void (*&border_hook())(bool) { static void (*h)(bool) = nullptr; return h; }       // entering and leaving the library
struct Border { Border() { if (border_hook()) border_hook()(true); } ~Border() { if (border_hook()) border_hook()(false); } };
typedef std::vector<Val> Args;
typedef std::map<std::string, Val> Kw;
inline void load_modules()
{
    static bool done = false;
    if (done) return;
    done = true;
    for (auto& f : registry().modules) f();
}
inline const Class *class_of(const std::type_info& t) { auto it = registry().names.find(std::type_index(t)); return it == registry().names.end() ? nullptr : &registry().classes.at(it->second); }
inline Val dispatch(const std::vector<Rec>& recs, const Val *self, const Args& args, const Kw& kw)
{
    for (const Rec& rc : recs) {
        Rec r = rc;
        size_t n = r.params.size();
        if (args.size() > n) continue;
        std::vector<Val> a;
        if (self && r.method) a.push_back(*self);
        bool ok = true; size_t used = 0;
        for (size_t k = 0; k < n && ok; ++k) {
            auto it = k < r.names.size() && !r.names[k].empty() ? kw.find(r.names[k]) : kw.end();
            if (k < args.size()) { if (it != kw.end()) ok = false; a.push_back(args[k]); }
            else if (it != kw.end()) { a.push_back(it->second); ++used; }
            else if (k < r.defaults.size() && r.defaults[k].first) a.push_back(r.defaults[k].second);
            else ok = false;
        }
        if (!ok || used != kw.size()) continue;
        Val out;
        bool fits;
        { Border border; fits = r.invoke(a, r.policy, out); }
        if (fits) { registry().last = rc; return out; }
    }
    throw TypeError("incompatible function arguments");
}
inline const std::vector<Rec> *find(const Class *c, const std::string& name)
{
    if (!c) return nullptr;
    auto it = c->methods.find(name);
    if (it != c->methods.end()) return &it->second;
    for (auto b : c->bases) if (auto r = find(class_of(*b), name)) return r;
    return nullptr;
}
inline const Attr *find_attr(const Class *c, const std::string& name)
{
    if (!c) return nullptr;
    auto it = c->attrs.find(name);
    if (it != c->attrs.end()) return &it->second;
    for (auto b : c->bases) if (auto r = find_attr(class_of(*b), name)) return r;
    return nullptr;
}
inline Val create(const std::string& cls, const Args& a, const Kw& kw = {})
{
    load_modules();
    auto it = registry().classes.find(cls);
    if (it == registry().classes.end()) throw TypeError("no class " + cls);
    auto m = it->second.methods.find("__init__");
    if (m == it->second.methods.end()) throw TypeError(cls + ": no constructor");
    return dispatch(m->second, nullptr, a, kw);
}
inline Val call(const Val& self, const std::string& name, const Args& a = {}, const Kw& kw = {})
{
    if (self.k != OBJ) throw TypeError("no object to call " + name + " of");
    const std::vector<Rec> *m = find(class_of(*self.dyn), name);
    if (!m) throw TypeError("no method " + name);
    return dispatch(*m, &self, a, kw);
}
inline Val function(const std::string& name, const Args& a, const Kw& kw = {})
{
    load_modules();
    auto it = registry().functions.find(name);
    if (it == registry().functions.end()) throw TypeError("no function " + name);
    return dispatch(it->second, nullptr, a, kw);
}
inline Val get(const Val& self, const std::string& name)
{
    const Attr *a = self.k == OBJ ? find_attr(class_of(*self.dyn), name) : nullptr;
    Val out;
    if (!a) throw TypeError("no attribute " + name);
    Attr b = *a;
    bool fits;
    { Border border; fits = b.get(self, b.policy, out); }
    if (!fits) throw TypeError("no attribute " + name);
    return out;
}
inline void set(const Val& self, const std::string& name, const Val& v)
{
    const Attr *a = self.k == OBJ ? find_attr(class_of(*self.dyn), name) : nullptr;
    if (!a || a->readonly) throw TypeError("attribute " + name + " cannot be set");
    Attr b = *a;
    bool fits;
    { Border border; fits = b.set(self, v); }
    if (!fits) throw TypeError("attribute " + name + " cannot be set");
}
inline Val enumerator(const std::string& cls, const std::string& name)
{
    load_modules();
    auto it = registry().enums.find(cls);
    if (it == registry().enums.end()) throw TypeError("no enumeration " + cls);
    for (auto& p : it->second.values) if (p.first == name) { Val v; v.k = ENUM; v.i = p.second; v.dyn = it->second.type; return v; }
    throw TypeError("no enumerator " + cls + "." + name);
}
} // namespace pyshim
