// bounds: 25 scenarios (every variable and factor class, a finalised and an unfinished graph, an optimizer after a run, with everything they hand out) and every object handed out by a name held alone; in each, histories of at most 3 (thorough: 6) statements out of all constructors, methods and attributes exposed, with any set of names dropped before each
// assumes: pybind11's wrappers, holders, keep_alive and return value policies work as in engine/pyshim and lifetime/tracer.cpp; what a statement touches and frees is measured from the state its scenario starts in
// A small Python: runs programs over the real bindings (compiled against engine/pyshim) and the real library, with
// pybind11's rules for wrappers, holders, keep_alive and return value policies. Every allocation the library makes lives
// on pages of its own, so that each statement can be asked which allocations it touches, which it frees, and whether it
// touches or frees one that was freed before. Statements come on standard input, one program per line:
//   statement ; statement ; ...      where a leading ! asks for the allocations a statement touches
#include <Eigen/Dense>
#include <iostream>
#include <fstream>
#include <sstream>
#include <set>
#include <cstring>
#include <csignal>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace verif { void on_assert(const char *what, const char *file, int line) { throw std::runtime_error(std::string(file) + ":" + std::to_string(line) + ": " + what); } }
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/eigen.h>
#include <python/factorama/_factorama.cpp>
using namespace pyshim;

// ---- memory ----
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
static const size_t PAGE = 4096, ARENA = size_t(1) << 32, MAXA = 200000;
static char *arena = nullptr;
static size_t used = 0;
static int count = 0;
struct Block { size_t off, len, size; bool freed; };
static Block blocks[MAXA];
static int owner_of_page[ARENA / PAGE];
static bool paged = false, tracing = false;
static unsigned char touched[MAXA];
struct Fault { int id; int kind; };              // 0: use of freed memory, 1: freed twice
static Fault faults[1024];
static int nfaults = 0;
static void fault(int id, int kind) { if (nfaults < 1024) faults[nfaults++] = {id, kind}; }
static bool ours(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + used; }
static int id_of(const void *p) { return owner_of_page[((const char *)p - arena) / PAGE]; }
static void *page_alloc(size_t n, size_t align = 16)
{
    size_t len = (n + PAGE - 1) / PAGE * PAGE;
    if (!len) len = PAGE;
    if (used + len > ARENA || count >= (int)MAXA) abort();
    Block& b = blocks[count];
    b.off = used; b.len = len; b.size = n; b.freed = false;
    for (size_t k = 0; k < len / PAGE; ++k) owner_of_page[used / PAGE + k] = count;
    ++count;
    char *p = arena + used;
    used += len;
    mprotect(p, len, PROT_READ | PROT_WRITE);
    return p;                                       // page aligned
}
static void page_free(void *p)
{
    int id = id_of(p);
    Block& b = blocks[id];
    if (b.freed) { fault(id, 1); return; }
    b.freed = true;
    mprotect(arena + b.off, b.len, PROT_NONE);
}
extern "C" {
void *malloc(size_t n) { return paged ? page_alloc(n) : __libc_malloc(n); }
void free(void *p) { if (!p) return; if (ours(p)) page_free(p); else __libc_free(p); }
void *calloc(size_t a, size_t b) { if (!paged) return __libc_calloc(a, b); void *p = page_alloc(a * b); memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n)
{
    if (!ours(p)) { if (!paged || p) return __libc_realloc(p, n); return page_alloc(n); }
    void *q = page_alloc(n);
    size_t m = blocks[id_of(p)].size;
    memcpy(q, p, m < n ? m : n);
    page_free(p);
    return q;
}
void *memalign(size_t a, size_t n) { return paged ? page_alloc(n) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
}
static void on_segv(int, siginfo_t *si, void *)
{
    void *p = si->si_addr;
    if (!ours(p)) { const char m[] = "{\"crash\": true}\n"; if (write(1, m, sizeof m - 1)) {} _exit(3); }
    int id = id_of(p);
    Block& b = blocks[id];
    if (b.freed) fault(id, 0); else if (tracing) touched[id] = 1;
    mprotect(arena + b.off, b.len, PROT_READ | PROT_WRITE);
}
static void trace(bool on)
{
    tracing = on;
    if (on) memset(touched, 0, sizeof touched);
    for (int k = 0; k < count; ++k) if (!blocks[k].freed) mprotect(arena + blocks[k].off, blocks[k].len, on ? PROT_NONE : PROT_READ | PROT_WRITE);
}
static void border(bool in) { paged = in; }

// ---- objects of the interpreter ----
struct Py;
typedef std::shared_ptr<Py> PyP;
typedef std::pair<void *, std::type_index> Where;
static std::map<Where, std::weak_ptr<Py>> registered;
static Where where(const Val& v) { return {v.obj.get(), std::type_index(*v.root)}; }
struct Py
{
    Val v;
    std::shared_ptr<void> adopted;
    std::vector<PyP> patients, items;
    ~Py()
    {
        if (v.k == OBJ) { auto it = registered.find(where(v)); if (it != registered.end() && it->second.expired()) registered.erase(it); }
        v = Val();
        adopted.reset();
        items.clear();
        patients.clear();
    }
};
static std::map<std::string, PyP> names;
static PyP plain(const Val& v) { PyP p = std::make_shared<Py>(); p->v = v; return p; }
static PyP result_of(const Val& v, rvp policy, const PyP& self)
{
    PyP p;
    if (v.k == OBJ) {
        auto it = registered.find(where(v));
        if (it != registered.end()) if (PyP q = it->second.lock()) return q;
        p = plain(v);
        if (!v.owned) {
            if ((policy == rvp::automatic || policy == rvp::take_ownership) && v.adopt) p->adopted = v.adopt();
            if (policy == rvp::reference_internal && self) p->patients.push_back(self);
        }
        registered[where(v)] = p;
        return p;
    }
    if (v.k == LIST) {
        p = plain(Val());
        p->v.k = LIST;
        for (auto& e : v.items) p->items.push_back(result_of(e, policy, self));
        return p;
    }
    p = plain(v);
    if (v.view && policy == rvp::reference_internal && self) p->patients.push_back(self);
    return p;
}
static void keep(const Rec& r, const PyP& result, const PyP& self, const std::vector<PyP>& args)
{
    auto at = [&](int k) -> PyP {
        if (k == 0) return result;
        if (r.ctor || r.method) return k == 1 ? (r.ctor ? result : self) : k - 2 < (int)args.size() ? args[k - 2] : nullptr;
        return k - 1 < (int)args.size() ? args[k - 1] : nullptr;
    };
    for (auto& p : r.keep) { PyP n = at(p.first), q = at(p.second); if (n && q && q->v.k != NONE) n->patients.push_back(q); }
}
// ---- programs ----
struct Parser
{
    const std::string& t; size_t i = 0;
    void ws() { while (i < t.size() && t[i] == ' ') ++i; }
    bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
    std::string word() { ws(); std::string w; while (i < t.size() && (isalnum(t[i]) || t[i] == '_')) w += t[i++]; return w; }
    bool end() { ws(); return i >= t.size(); }
};
static PyP expr(Parser& p);
static void arguments(Parser& p, std::vector<PyP>& a)
{
    if (p.eat(')')) return;
    do a.push_back(expr(p)); while (p.eat(','));
    if (!p.eat(')')) throw std::runtime_error("syntax: ) expected in " + p.t);
}
static Args values(const std::vector<PyP>& a) { Args r; for (auto& x : a) { if (x->v.k == LIST) { Val v; v.k = LIST; for (auto& e : x->items) v.items.push_back(e->v); r.push_back(v); } else r.push_back(x->v); } return r; }
static PyP expr(Parser& p)
{
    p.ws();
    if (p.i >= p.t.size()) throw std::runtime_error("syntax: " + p.t);
    char c = p.t[p.i];
    if (c == '[') {                                     // numbers, or rows of numbers
        ++p.i;
        std::vector<std::vector<double>> rows; bool nested = false;
        PyP l = plain(Val()); std::vector<double> flat;
        if (!p.eat(']')) {
            do {
                PyP e = expr(p);
                if (e->v.k == ARR) { nested = true; std::vector<double> r; for (int k = 0; k < e->v.m.size(); ++k) r.push_back(e->v.m.data()[k]); rows.push_back(r); }
                else flat.push_back(e->v.k == DBL ? e->v.d : (double)e->v.i);
            } while (p.eat(','));
            if (!p.eat(']')) throw std::runtime_error("syntax: ] expected in " + p.t);
        }
        if (nested) { Eigen::MatrixXd m(rows.size(), rows[0].size()); for (size_t a = 0; a < rows.size(); ++a) for (size_t b = 0; b < rows[0].size(); ++b) m(a, b) = rows[a][b]; return plain(Val(m)); }
        Eigen::VectorXd v(flat.size());
        for (size_t k = 0; k < flat.size(); ++k) v[k] = flat[k];
        return plain(Val(v));
    }
    if (isdigit(c) || c == '-') {
        char *e; const char *s = p.t.c_str() + p.i;
        double d = strtod(s, &e);
        std::string w(s, (const char *)e);
        p.i += e - s;
        return w.find_first_of(".e") == std::string::npos ? plain(Val((long)d)) : plain(Val(d));
    }
    std::string w = p.word();
    if (w == "True" || w == "False") return plain(Val(w == "True"));
    PyP cur;
    auto it = names.find(w);
    if (it != names.end()) cur = it->second;
    else if (registry().enums.count(w)) { if (!p.eat('.')) throw std::runtime_error("syntax"); return plain(enumerator(w, p.word())); }
    else if (registry().classes.count(w)) {
        if (!p.eat('(')) throw std::runtime_error("syntax");
        std::vector<PyP> a; arguments(p, a);
        Val v = create(w, values(a));
        Rec r = registry().last;
        cur = result_of(v, rvp::take_ownership, nullptr);
        keep(r, cur, nullptr, a);
    }
    else throw std::runtime_error("unknown name " + w);
    for (;;) {
        if (p.eat('.')) {
            std::string m = p.word();
            PyP self = cur;
            if (p.eat('(')) {
                std::vector<PyP> a; arguments(p, a);
                if (self->v.k == ARR) {                       // x.sum(): reads it
                    volatile double s = 0;
                    if (self->v.view) for (long k = 0; k < self->v.m.size(); ++k) s = s + ((const double *)self->v.view)[k];
                    cur = plain(Val(double(s)));
                    continue;
                }
                Val v = call(self->v, m, values(a));
                Rec r = registry().last;
                cur = result_of(v, r.policy, self);
                keep(r, cur, self, a);
            } else {
                Val v = get(self->v, m);
                cur = result_of(v, find_attr(class_of(*self->v.dyn), m)->policy, self);
            }
        } else if (p.eat('[')) {
            PyP k = expr(p);
            if (!p.eat(']')) throw std::runtime_error("syntax");
            if (k->v.i >= (long)cur->items.size()) throw std::runtime_error("index");
            cur = cur->items[k->v.i];
        } else return cur;
    }
}
static std::string kind_of(const PyP& p)
{
    if (p->v.k == ARR) return p->v.view ? "view" : "array";
    if (p->v.k == OBJ) { auto c = class_of(*p->v.dyn); return "object:" + (c ? c->name : std::string("?")); }
    if (p->v.k == LIST) { std::string s = "list"; for (auto& e : p->items) s += "|" + kind_of(e); return s; }
    return "value";
}
static std::string statement(const std::string& s)
{
    Parser p{s};
    size_t save = p.i;
    std::string w = p.word();
    if (w == "del") {                                   // del a, b
        std::vector<std::string> d;
        do d.push_back(p.word()); while (p.eat(','));
        for (auto& n : d) { auto it = names.find(n); if (it == names.end()) throw std::runtime_error("unknown name " + n); PyP x = it->second; names.erase(it); x.reset(); }
        return "";
    }
    if (p.eat('=') && !(p.i < s.size() && s[p.i] == '=')) {
        PyP x = expr(p);
        std::string k = kind_of(x);
        for (auto& n : names) if (n.second == x) { k = "same:" + n.first; break; }
        names[w] = x;
        return k;
    }
    p.i = save;
    // attribute assignment: a.b = expr
    size_t dot = s.find('.'), eq = s.find('=');
    if (dot != std::string::npos && eq != std::string::npos && s.find('(') == std::string::npos) {
        std::string n = p.word(); p.eat('.'); std::string f = p.word(); p.eat('=');
        PyP x = expr(p);
        set(names.at(n)->v, f, x->v);
        return "";
    }
    PyP x = expr(p);
    return kind_of(x);
}
static void describe()
{
    load_modules();
    std::cout << "{\"classes\": {";
    bool first = true;
    for (auto& c : registry().classes) {
        std::cout << (first ? "" : ", ") << "\"" << c.first << "\": {\"bases\": ["; first = false;
        for (size_t k = 0; k < c.second.bases.size(); ++k) { auto b = class_of(*c.second.bases[k]); std::cout << (k ? ", " : "") << "\"" << (b ? b->name : "?") << "\""; }
        std::cout << "], \"methods\": {";
        bool f2 = true;
        for (auto& m : c.second.methods) { std::cout << (f2 ? "" : ", ") << "\"" << m.first << "\": ["; f2 = false; for (size_t k = 0; k < m.second.size(); ++k) std::cout << (k ? ", " : "") << m.second[k].params.size(); std::cout << "]"; }
        std::cout << "}, \"attrs\": [";
        f2 = true;
        for (auto& a : c.second.attrs) { std::cout << (f2 ? "" : ", ") << "\"" << a.first << "\""; f2 = false; }
        std::cout << "]}";
    }
    std::cout << "}}" << std::endl;
}
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c >= ' ') r += c; } return r + "\""; }
static void program(const std::string& line)
{
    std::stringstream out;
    std::stringstream ss(line);
    std::string s;
    std::vector<std::string> st;
    while (std::getline(ss, s, ';')) { size_t a = s.find_first_not_of(' '); if (a != std::string::npos) st.push_back(s.substr(a)); }
    out << "{\"steps\": [";
    for (size_t k = 0; k < st.size(); ++k) {
        bool tr = st[k][0] == '!';
        std::string text = tr ? st[k].substr(1) : st[k];
        std::vector<char> was(count);
        int before = count;
        for (int j = 0; j < count; ++j) was[j] = blocks[j].freed;
        nfaults = 0;
        std::string kind, error;
        if (tr) trace(true);
        try { kind = statement(text); } catch (const std::exception& e) { error = e.what(); if (error.empty()) error = "exception"; }
        paged = false;
        std::vector<int> tv, fv;
        if (tr) { for (int j = 0; j < before; ++j) if (touched[j]) tv.push_back(j); trace(false); }
        for (int j = 0; j < before; ++j) if (blocks[j].freed && !was[j]) fv.push_back(j);
        out << (k ? ", " : "") << "{\"kind\": " << quoted(kind) << ", \"error\": " << quoted(error) << ", \"touched\": [";
        for (size_t j = 0; j < tv.size(); ++j) out << (j ? "," : "") << tv[j];
        out << "], \"freed\": [";
        for (size_t j = 0; j < fv.size(); ++j) out << (j ? "," : "") << fv[j];
        out << "], \"faults\": [";
        for (int j = 0; j < nfaults && j < 20; ++j) out << (j ? "," : "") << "[" << faults[j].id << "," << faults[j].kind << "]";
        out << "], \"live\": ";
        int live = 0; for (int j = 0; j < count; ++j) live += !blocks[j].freed;
        out << live << ", \"blocks\": " << count << "}";
    }
    out << "]}\n";
    std::string r = out.str();
    for (size_t a = 0; a < r.size();) { ssize_t n = write(3, r.data() + a, r.size() - a); if (n <= 0) break; a += n; }
}
int main(int argc, char **argv)
{
    if (argc > 1 && std::string(argv[1]) == "--describe") { describe(); return 0; }
    arena = (char *)mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { perror("mmap"); return 2; }
    static char stack[1 << 16];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    load_modules();
    dup2(1, 3);                                         // results go to the original output, what the library prints does not
    if (!freopen("/dev/null", "w", stdout)) return 2;
    std::vector<std::string> lines;
    std::string line;
    while (std::getline(std::cin, line)) lines.push_back(line);
    for (auto& l : lines) {
        pid_t c = fork();
        if (!c) { border_hook() = border; alarm(60); program(l); _exit(0); }
        int st = 0;
        waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::string m = "{\"crash\": " + std::to_string(st) + "}\n"; if (write(3, m.data(), m.size()) < 0) return 2; }
    }
    return 0;
}
