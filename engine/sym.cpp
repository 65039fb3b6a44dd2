// Runtime of the symbolic scalar: expression DAG, path decisions, harness primitives, dump of one path.
#include "sym.hpp"
#include <vh.hpp>
#include <csignal>
#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>

namespace verif
{
using std::string; using std::vector;

#define EARLY __attribute__((init_priority(101)))
struct NodeX : Node { double val; bool sym; };   // concrete value under the seed; depends on a variable
static std::deque<NodeX> g_nodes EARLY;
struct Key { int op; const Node *a; const Node *b; bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key& k) const { return std::hash<int>()(k.op) * 1000003u ^ (reinterpret_cast<size_t>(k.a) >> 4) * 2654435761u ^ (reinterpret_cast<size_t>(k.b) >> 4) * 40503u; } };
static std::unordered_map<Key, const Node *, KeyH> g_cons EARLY;
static std::unordered_map<uint64_t, const Node *> g_consts EARLY;

static FILE *g_out = nullptr;
static string g_case;
static std::map<string, double> g_seed EARLY;
static vector<int> g_prefix EARLY;
static size_t g_pos = 0;
static size_t g_limit = 4000000;
struct Decision { int kind; const Node *a; const Node *b; int taken; string name; int lo, hi; };
static vector<Decision> g_dec EARLY;
struct Line { string s; };
static vector<string> g_lines EARLY;
static std::map<std::tuple<int, const Node *, const Node *>, bool> g_known EARLY;
static int g_uninit = 0;

static inline double val(const Node *n) { return static_cast<const NodeX *>(n)->val; }
static inline bool issym(const Node *n) { return static_cast<const NodeX *>(n)->sym; }
static inline double val(const Sym& s) { return s.v ? val(s.v) : s.c; }

static void dump(const char *end)
{
    if (!g_out) return;
    for (auto& n : g_nodes) {
        if (n.op == VAR) fprintf(g_out, "N %d %d\n", n.id, n.op);
        else if (n.op == CONST) fprintf(g_out, "N %d %d %a\n", n.id, n.op, n.c);
        else if (n.b) fprintf(g_out, "N %d %d %d %d\n", n.id, n.op, n.a->id, n.b->id);
        else fprintf(g_out, "N %d %d %d\n", n.id, n.op, n.a ? n.a->id : -1);
    }
    for (auto& l : g_lines) fprintf(g_out, "%s\n", l.c_str());
    fprintf(g_out, "END %s\n", end);
    fclose(g_out);
    g_out = nullptr;
}
void engine_abort(const char *why)
{
    dump(("abort " + string(why)).c_str());
    _exit(0);
}
static void fail_now(const string& name)
{
    g_lines.push_back("O " + name + "\tfalse -1 -1");
    dump("crash");
    _exit(0);
}
void on_assert(const char *what, const char *file, int line)
{
    const char *base = strrchr(file, '/');
    fail_now("no-assertion-failure(" + string(what) + " at " + (base ? base + 1 : file) + ":" + std::to_string(line) + ")");
}
static void on_signal(int s)
{
    static bool once = false;
    if (!once) { once = true; fail_now("no-crash(signal " + std::to_string(s) + ")"); }
    _exit(0);
}

const Node *mk_const(double c)
{
    uint64_t k; memcpy(&k, &c, 8);
    auto it = g_consts.find(k);
    if (it != g_consts.end()) return it->second;
    g_nodes.push_back(NodeX{{(int)g_nodes.size(), CONST, nullptr, nullptr, c}, c, false});
    return g_consts[k] = &g_nodes.back();
}
static double eval(int op, double a, double b)
{
    switch (op) {
    case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case NEG: return -a;
    case SQRT: return std::sqrt(a); case SIN: return std::sin(a); case COS: return std::cos(a); case TAN: return std::tan(a);
    case ACOS: return std::acos(a); case ASIN: return std::asin(a); case ATAN: return std::atan(a); case ATAN2: return std::atan2(a, b);
    case ABS: return std::fabs(a); case FLOOR: return std::floor(a); case EXP: return std::exp(a); case LOG: return std::log(a);
    }
    return std::nan("");
}
const Node *mk(int op, const Node *a, const Node *b)
{
    if ((op == ADD || op == MUL) && b->id < a->id) std::swap(a, b);
    Key k{op, a, b};
    auto it = g_cons.find(k);
    if (it != g_cons.end()) return it->second;
    if (g_nodes.size() > g_limit) engine_abort("node limit");
    double v = eval(op, val(a), b ? val(b) : 0.0);
    g_nodes.push_back(NodeX{{(int)g_nodes.size(), op, a, b, 0.0}, v, issym(a) || (b && issym(b))});
    const Node *n = &g_nodes.back();
    g_cons[k] = n;
    return n;
}
const Node *fresh_var(const string& name)
{
    auto it = g_seed.find(name);
    double v = it != g_seed.end() ? it->second : 0.37 + 0.13 * (double)(std::hash<string>()(name) % 17);
    g_nodes.push_back(NodeX{{(int)g_nodes.size(), VAR, nullptr, nullptr, 0.0}, v, true});
    return &g_nodes.back();
}
static const Node *poison()
{
    static const Node *p = nullptr;
    if (!p) { g_nodes.push_back(NodeX{{(int)g_nodes.size(), POISON, nullptr, nullptr, 0.0}, std::nan(""), true}); p = &g_nodes.back(); }
    return p;
}
static Sym mkuninit()
{
    string nm = "uninitialised#" + std::to_string(g_uninit++);
    const Node *n = fresh_var(nm);
    g_lines.push_back("U " + std::to_string(n->id) + " " + nm);
    return Sym(n, nullptr, 0.0);
}
static inline Sym fix(const Sym& s) { return s.uninit() ? mkuninit() : s; }
const Node *Sym::node() const
{
    if (uninit()) return mkuninit().v;
    return v ? v : mk_const(c);
}
const Node *Sym::tan_node() const
{
    if (uninit()) return mk_const(0.0);
    return d ? d : mk_const(0.0);
}

// value-level operations with exact simplification
static inline bool is0(const Sym& s) { return !s.v && s.c == 0.0; }
static inline bool is1(const Sym& s) { return !s.v && s.c == 1.0; }
static inline bool nonfin(const Sym& s) { return !s.v && !std::isfinite(s.c); }
static inline Sym C(double c) { return Sym(nullptr, nullptr, c); }
static inline Sym V(const Node *n)
{
    if (n->op == CONST) return C(n->c);
    return Sym(n, nullptr, 0.0);
}
static inline Sym val_of(const Sym& s) { return Sym(s.v, nullptr, s.c); }
static Sym vneg(const Sym& a)
{
    if (!a.v) return C(-a.c);
    if (a.v->op == NEG) return V(a.v->a);
    return V(mk(NEG, a.v));
}
static Sym vadd(const Sym& a, const Sym& b)
{
    if (!a.v && !b.v) {
        double s = a.c + b.c;
        if (!std::isfinite(s)) return C(s);
        double bb = s - a.c, e = (a.c - (s - bb)) + (b.c - bb);
        if (e == 0.0) return C(s);
        return V(mk(ADD, mk_const(a.c), mk_const(b.c)));
    }
    if (nonfin(a)) return a; if (nonfin(b)) return b;
    if (is0(a)) return b; if (is0(b)) return a;
    if (b.v && b.v->op == NEG && a.v == b.v->a) return C(0.0);
    if (a.v && a.v->op == NEG && b.v == a.v->a) return C(0.0);
    return V(mk(ADD, a.node(), b.node()));
}
static Sym vsub(const Sym& a, const Sym& b)
{
    if (!b.v) return vadd(a, C(-b.c));
    if (nonfin(a)) return a;
    if (a.v == b.v) return C(0.0);
    if (is0(a)) return vneg(b);
    return V(mk(SUB, a.node(), b.node()));
}
static Sym vmul(const Sym& a, const Sym& b)
{
    if (!a.v && !b.v) {
        double p = a.c * b.c;
        if (!std::isfinite(p) || a.c == 0.0 || b.c == 0.0) return C(p);
        if (std::fma(a.c, b.c, -p) == 0.0 && std::fabs(p) > 1e-290) return C(p);
        return V(mk(MUL, mk_const(a.c), mk_const(b.c)));
    }
    if (nonfin(a)) return C(std::isnan(a.c) ? a.c : a.c * (val(b) < 0 ? -1.0 : 1.0));
    if (nonfin(b)) return C(std::isnan(b.c) ? b.c : b.c * (val(a) < 0 ? -1.0 : 1.0));
    if (is0(a) || is0(b)) return C(0.0);
    if (is1(a)) return b; if (is1(b)) return a;
    if (!a.v && a.c == -1.0) return vneg(b);
    if (!b.v && b.c == -1.0) return vneg(a);
    return V(mk(MUL, a.node(), b.node()));
}
static Sym vdiv(const Sym& a, const Sym& b)
{
    if (!a.v && !b.v) {
        double q = a.c / b.c;
        if (!std::isfinite(q) || a.c == 0.0) return C(q);
        if (std::isfinite(b.c) && std::fma(q, b.c, -a.c) == 0.0 && std::fabs(a.c) > 1e-290) return C(q);
        return V(mk(DIV, mk_const(a.c), mk_const(b.c)));
    }
    if (nonfin(a)) return a;
    if (nonfin(b)) return C(std::isnan(b.c) ? b.c : 0.0);
    if (is0(a)) return a;
    if (is1(b)) return a;
    if (!b.v && b.c == -1.0) return vneg(a);
    if (a.v && a.v == b.v) return C(1.0);
    return V(mk(DIV, a.node(), b.node()));
}
static inline Sym T(const Sym& s) { return s.d ? V(s.d) : C(0.0); }
static inline Sym join(const Sym& v, const Sym& t)
{
    Sym r = v;
    r.d = is0(t) ? nullptr : t.node();
    return r;
}
static inline bool nod(const Sym& a) { return a.d == nullptr; }

Sym op_add(const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y), r = vadd(a, b);
    return nod(a) && nod(b) ? r : join(r, vadd(T(a), T(b)));
}
Sym op_sub(const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y), r = vsub(val_of(a), val_of(b));
    return nod(a) && nod(b) ? r : join(r, vsub(T(a), T(b)));
}
Sym op_mul(const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y), r = vmul(val_of(a), val_of(b));
    return nod(a) && nod(b) ? r : join(r, vadd(vmul(T(a), val_of(b)), vmul(val_of(a), T(b))));
}
Sym op_div(const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y), r = vdiv(val_of(a), val_of(b));
    if (nod(a) && nod(b)) return r;
    return join(r, vdiv(vsub(T(a), vmul(r, T(b))), val_of(b)));
}
Sym op_neg(const Sym& x)
{
    Sym a = fix(x), r = vneg(val_of(a));
    return nod(a) ? r : join(r, vneg(T(a)));
}
Sym& Sym::operator+=(const Sym& o) { return *this = *this + o; }
Sym& Sym::operator-=(const Sym& o) { return *this = *this - o; }
Sym& Sym::operator*=(const Sym& o) { return *this = *this * o; }
Sym& Sym::operator/=(const Sym& o) { return *this = *this / o; }
Sym& Sym::operator++() { return *this = *this + Sym(1.0); }
Sym::operator int() const { Sym s = fix(*this); if (!s.v) return (int)s.c; if (!issym(s.v)) return (int)val(s.v); engine_abort("conversion of a symbolic value to int"); }
Sym::operator long() const { Sym s = fix(*this); if (!s.v) return (long)s.c; if (!issym(s.v)) return (long)val(s.v); engine_abort("conversion of a symbolic value to long"); }
Sym::operator double() const { Sym s = fix(*this); if (!s.v) return s.c; if (!issym(s.v)) return val(s.v); engine_abort("conversion of a symbolic value to double"); }
Sym::operator bool() const { return *this != Sym(0.0); }

bool decide(int kind, const Node *a, const Node *b)
{
    double x = val(a), y = val(b);
    bool conc = kind == 0 ? x < y : kind == 1 ? x <= y : x == y;
    if (!issym(a) && !issym(b)) return conc;
    if (a->op == POISON || b->op == POISON) engine_abort("branch on an undefined derivative");
    if (a == b) return kind != 0;
    if (kind == 2 && b->id < a->id) std::swap(a, b);
    auto it = g_known.find({kind, a, b});
    if (it != g_known.end()) return it->second;
    bool res = conc;
    if (g_pos < g_prefix.size()) res = g_prefix[g_pos] != 0;
    ++g_pos;
    g_dec.push_back({kind, a, b, res, "", 0, 1});
    if (g_dec.size() > 3000) engine_abort("decision limit");
    char buf[128];
    snprintf(buf, sizeof buf, "D %d %d %d %d", kind, a->id, b->id, (int)res);
    g_lines.push_back(buf);
    g_known[{kind, a, b}] = res;
    if (kind == 0) { g_known[{1, b, a}] = !res; if (res) { g_known[{1, a, b}] = true; g_known[{0, b, a}] = false; } }
    if (kind == 1) { g_known[{0, b, a}] = !res; if (!res) { g_known[{0, a, b}] = false; g_known[{1, b, a}] = true; } }
    if (kind == 2 && res) { g_known[{0, a, b}] = g_known[{0, b, a}] = false; g_known[{1, a, b}] = g_known[{1, b, a}] = true; }
    return res;
}
static bool cmp(int kind, const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y);
    if (!a.v && !b.v) return kind == 0 ? a.c < b.c : kind == 1 ? a.c <= b.c : a.c == b.c;
    if ((!a.v && std::isnan(a.c)) || (!b.v && std::isnan(b.c))) return false;
    if (nonfin(a)) return kind == 2 ? false : a.c < 0;
    if (nonfin(b)) return kind == 2 ? false : b.c > 0;
    return decide(kind, a.node(), b.node());
}
bool operator<(const Sym& a, const Sym& b) { return cmp(0, a, b); }
bool operator<=(const Sym& a, const Sym& b) { return cmp(1, a, b); }
bool operator==(const Sym& a, const Sym& b) { return cmp(2, a, b); }
std::ostream& operator<<(std::ostream& o, const Sym&) { return o << "<sym>"; }

static Sym unary(int op, const Sym& x)
{
    if (!x.v) {
        double r = eval(op, x.c, 0.0);
        bool exact = !std::isfinite(r);
        if (op == SQRT) exact = exact || std::fma(r, r, -x.c) == 0.0;
        if (op == ABS || op == FLOOR) exact = true;
        if ((op == SIN || op == TAN || op == ASIN || op == ATAN) && x.c == 0.0) exact = true;
        if ((op == COS || op == EXP) && x.c == 0.0) exact = true;
        if (op == ACOS && x.c == 1.0) exact = true;
        if (op == LOG && x.c == 1.0) exact = true;
        if (exact) return C(r);
        return V(mk(op, mk_const(x.c)));
    }
    return V(mk(op, x.v));
}
Sym sqrt(const Sym& x0)
{
    Sym x = fix(x0), r = unary(SQRT, val_of(x));
    if (nod(x)) return r;
    if (is0(r)) { r.d = poison(); return r; }
    return join(r, vdiv(T(x), vmul(C(2.0), r)));
}
Sym sin(const Sym& x0) { Sym x = fix(x0), r = unary(SIN, val_of(x)); return nod(x) ? r : join(r, vmul(T(x), unary(COS, val_of(x)))); }
Sym cos(const Sym& x0) { Sym x = fix(x0), r = unary(COS, val_of(x)); return nod(x) ? r : join(r, vneg(vmul(T(x), unary(SIN, val_of(x))))); }
Sym tan(const Sym& x) { return sin(x) / cos(x); }
Sym acos(const Sym& x0)
{
    Sym x = fix(x0), r = unary(ACOS, val_of(x));
    if (nod(x)) return r;
    Sym q = unary(SQRT, vsub(C(1.0), vmul(val_of(x), val_of(x))));
    if (is0(q)) { r.d = poison(); return r; }
    return join(r, vneg(vdiv(T(x), q)));
}
Sym asin(const Sym& x0)
{
    Sym x = fix(x0), r = unary(ASIN, val_of(x));
    if (nod(x)) return r;
    Sym q = unary(SQRT, vsub(C(1.0), vmul(val_of(x), val_of(x))));
    if (is0(q)) { r.d = poison(); return r; }
    return join(r, vdiv(T(x), q));
}
Sym atan(const Sym& x0)
{
    Sym x = fix(x0), r = unary(ATAN, val_of(x));
    return nod(x) ? r : join(r, vdiv(T(x), vadd(C(1.0), vmul(val_of(x), val_of(x)))));
}
Sym atan2(const Sym& y0, const Sym& x0)
{
    Sym y = fix(y0), x = fix(x0), yv = val_of(y), xv = val_of(x), r;
    if (nonfin(y)) return y;
    if (nonfin(x)) return std::isnan(x.c) ? x : (x.c > 0 ? C(0.0) : C(M_PI));
    if (!y.v && !x.v && y.c == 0.0 && x.c >= 0.0) r = C(0.0);
    else r = V(mk(ATAN2, yv.node(), xv.node()));
    if (nod(y) && nod(x)) return r;
    return join(r, vdiv(vsub(vmul(xv, T(y)), vmul(yv, T(x))), vadd(vmul(xv, xv), vmul(yv, yv))));
}
Sym abs(const Sym& x0)
{
    Sym x = fix(x0);
    if (!nod(x)) { return x < Sym(0.0) ? -x : x; }
    return unary(ABS, x);
}
Sym exp(const Sym& x0) { Sym x = fix(x0), r = unary(EXP, val_of(x)); return nod(x) ? r : join(r, vmul(T(x), r)); }
Sym log(const Sym& x0) { Sym x = fix(x0), r = unary(LOG, val_of(x)); return nod(x) ? r : join(r, vdiv(T(x), val_of(x))); }
Sym floor(const Sym& x0) { Sym x = fix(x0); return unary(FLOOR, val_of(x)); }
Sym pow(const Sym& x, const Sym& y)
{
    Sym e = fix(y);
    if (!e.v) {
        if (e.c == 0.5) return sqrt(x);
        if (e.c == -0.5) return Sym(1.0) / sqrt(x);
        if (e.c == std::floor(e.c) && std::fabs(e.c) <= 64) {
            int n = (int)std::fabs(e.c);
            Sym r(1.0);
            for (int i = 0; i < n; ++i) r = r * x;
            return e.c < 0 ? Sym(1.0) / r : r;
        }
        if (2 * e.c == std::floor(2 * e.c) && std::fabs(e.c) <= 64) return e.c < 0 ? Sym(1.0) / (pow(x, C(-e.c - 0.5)) * sqrt(x)) : pow(x, C(e.c - 0.5)) * sqrt(x);
    }
    return exp(e * log(x));
}
bool isfinite(const Sym& x) { Sym a = fix(x); return a.v ? true : std::isfinite(a.c); }
bool isnan(const Sym& x) { Sym a = fix(x); return a.v ? false : std::isnan(a.c); }
bool isinf(const Sym& x) { Sym a = fix(x); return a.v ? false : std::isinf(a.c); }
} // namespace verif

namespace symchrono
{
Sym clock_reading()
{
    using namespace verif;
    static int k = 0;
    static const Node *last = nullptr;
    string nm = "clock#" + std::to_string(k++);
    const Node *n = fresh_var(nm);
    if (!g_seed.count(nm)) const_cast<NodeX *>(static_cast<const NodeX *>(n))->val = k;
    g_lines.push_back("I " + std::to_string(n->id) + " " + nm + " - -");
    if (last) g_lines.push_back("A 1 " + std::to_string(last->id) + " " + std::to_string(n->id));
    last = n;
    return Sym(n, nullptr, 0.0);
}
} // namespace symchrono

// ---- harness primitives ----
namespace vh
{
using namespace verif;
static string g_ns;
static vector<std::pair<string, void (*)()>>& cases() { static vector<std::pair<string, void (*)()>> c; return c; }
bool add_case(const char *n, void (*f)()) { cases().push_back({n, f}); return true; }
static string num(double x) { char b[64]; snprintf(b, sizeof b, "%a", x); return b; }
static std::map<string, Sym> g_inputs EARLY;
static void plain_name(const string& n)
{
    if (n.find_first_of(" \t\n") != string::npos) { std::fprintf(stderr, "harness: input name '%s' contains a space\n", n.c_str()); std::abort(); }
}
static Sym mkinput(const string& name, const string& rest)
{
    plain_name(name);
    auto it = g_inputs.find(name);
    if (it != g_inputs.end()) return it->second;
    const Node *n = fresh_var(name);
    g_lines.push_back("I " + std::to_string(n->id) + " " + name + " " + rest);
    return g_inputs[name] = Sym(n, nullptr, 0.0);
}
Sym input(const string& name) { return mkinput(name, "- -"); }
Sym input(const string& name, Sym lo, Sym hi)
{
    bool isnew = !g_inputs.count(name);
    Sym r = mkinput(name, num((double)lo) + " " + num((double)hi));
    (void)isnew;
    return r;
}
Eigen::Vector3_S unit3(const string& name)
{
    Eigen::Vector3_S u(mkinput(name + ".x", "- -"), mkinput(name + ".y", "- -"), mkinput(name + ".z", "- -"));
    g_lines.push_back("G " + std::to_string(u[0].v->id) + " " + std::to_string(u[1].v->id) + " " + std::to_string(u[2].v->id));
    return u;
}
int choose(const string& name, int lo, int hi)
{
    plain_name(name);
    int r = lo;
    if (lo == hi) return lo;
    if (g_pos < g_prefix.size()) r = g_prefix[g_pos];
    ++g_pos;
    g_dec.push_back({3, nullptr, nullptr, r, name, lo, hi});
    g_lines.push_back("C " + name + " " + std::to_string(lo) + " " + std::to_string(hi) + " " + std::to_string(r));
    return r;
}
static string two(const Sym& a, const Sym& b) { return std::to_string(a.node()->id) + " " + std::to_string(b.node()->id); }
void assume_le(const Sym& a, const Sym& b) { string t = two(a, b); g_lines.push_back("A 1 " + t); }
void assume_lt(const Sym& a, const Sym& b) { string t = two(a, b); g_lines.push_back("A 0 " + t); }
static void req(const string& name, const char *k, const Sym& a, const Sym& b) { string t = two(a, b); g_lines.push_back("O " + name + "\t" + k + " " + t); }
void require_eq(const string& name, const Sym& a, const Sym& b) { req(name, "eq", a, b); }
void require_le(const string& name, const Sym& a, const Sym& b) { req(name, "le", a, b); }
void require_lt(const string& name, const Sym& a, const Sym& b) { req(name, "lt", a, b); }
void require_true(const string& name, bool b) { g_lines.push_back("O " + name + "\t" + (b ? "true" : "false") + " -1 -1"); }
void known(const string& finding, const string& name, const Sym& a, const Sym& b) { string t = two(a, b); g_lines.push_back("F " + finding + "\t" + name + "\t" + t); }
void hint(const Sym& e) { g_lines.push_back("H " + std::to_string(e.node()->id)); }
void alias(const Sym& e) { g_lines.push_back("L " + std::to_string(e.node()->id)); }
void cut_rotation(const string& name, const Eigen::Matrix3_S& E)
{
    string l = "K " + name;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) l += " " + std::to_string(E(i, j).node()->id);
    g_lines.push_back(l);
}
void probe(const string& name, const Sym& a) { g_lines.push_back("P " + name + "\t" + std::to_string(a.node()->id)); }
static void skip_() { dump("skip"); _exit(0); }
void skip() { skip_(); }
bool symbolic() { return true; }
Sym nan_value() { return Sym(std::nan("")); }
Sym inf_value() { return Sym(INFINITY); }
bool same_bits(const Sym& x, const Sym& y)
{
    Sym a = fix(x), b = fix(y);
    if (a.v || b.v) return a.node() == b.node();
    return a.c == b.c || (std::isnan(a.c) && std::isnan(b.c));
}
bool is_uninit(const Sym& x) { return x.uninit() || (x.v && x.v->op == VAR && false); }
Eigen::VectorX_S derivative(const std::function<Eigen::VectorX_S(Sym)>& f)
{
    Eigen::VectorX_S r = f(Sym(nullptr, mk_const(1.0), 0.0)), o(r.size());
    for (int i = 0; i < (int)r.size(); ++i) o[i] = r[i].d ? V(r[i].d) : C(0.0);
    return o;
}
} // namespace vh

int main(int argc, char **argv)
{
    using namespace verif;
    if (argc < 2 || string(argv[1]) == "--list") {
        for (auto& c : vh::cases()) printf("%s\n", c.first.c_str());
        return 0;
    }
    mallopt(M_PERTURB, 0x01);
    g_case = argv[1];
    g_out = fopen(argv[2], "w");
    if (argc > 3) {
        std::ifstream in(argv[3]);
        string n, v;
        while (in >> n >> v) g_seed[n] = strtod(v.c_str(), nullptr);
    }
    if (argc > 4) {
        std::stringstream ss(argv[4]);
        string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) g_prefix.push_back(atoi(t.c_str()));
    }
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
    static char altstack[1 << 16];
    (void)altstack;
    mk_const(0.0);
    for (auto& c : vh::cases()) if (c.first == g_case) {
        try {
            c.second();
        } catch (const std::exception& e) {
            string w = e.what();
            for (auto& ch : w) if (ch == '\n' || ch == '\t') ch = ' ';
            g_lines.push_back("O no-unexpected-exception(" + w + ")\tfalse -1 -1");
            dump("exception");
            _exit(0);
        }
        dump("ok");
        _exit(0);
    }
    return 3;
}
