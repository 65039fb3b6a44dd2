// Runtime of the plain (double) build of a harness: replays one assignment of the inputs and prints what it observed.
#include <vh.hpp>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>

namespace verif { void on_assert(const char *what, const char *file, int line); }
static FILE *g_out;
static std::map<std::string, std::string> g_in;
static std::vector<std::pair<std::string, void (*)()>>& cases() { static std::vector<std::pair<std::string, void (*)()>> c; return c; }
static void done(const char *e) { if (g_out) { fprintf(g_out, "END %s\n", e); fflush(g_out); } _exit(0); }
namespace verif
{
void on_assert(const char *what, const char *file, int line)
{
    const char *b = strrchr(file, '/');
    fprintf(g_out, "O no-assertion-failure(%s at %s:%d)\tfalse 0 0\n", what, b ? b + 1 : file, line);
    done("crash");
}
}
static void on_signal(int s) { fprintf(g_out, "O no-crash(signal %d)\tfalse 0 0\n", s); done("crash"); }
namespace vh
{
bool add_case(const char *n, void (*f)()) { cases().push_back({n, f}); return true; }
double input(const std::string& n)
{
    auto it = g_in.find(n);
    if (it == g_in.end()) { fprintf(g_out, "MISSING %s\n", n.c_str()); return 0.5; }
    return strtod(it->second.c_str(), nullptr);
}
double input(const std::string& n, double, double) { return input(n); }
Eigen::Vector3d unit3(const std::string& n) { return Eigen::Vector3d(input(n + ".x"), input(n + ".y"), input(n + ".z")).normalized(); }
int choose(const std::string& n, int lo, int hi)
{
    if (lo == hi) return lo;
    auto it = g_in.find("choice:" + n);
    return it == g_in.end() ? lo : atoi(it->second.c_str());
}
void assume_le(const double& a, const double& b) { fprintf(g_out, "A 1 %a %a\n", a, b); }
void assume_lt(const double& a, const double& b) { fprintf(g_out, "A 0 %a %a\n", a, b); }
void require_eq(const std::string& n, const double& a, const double& b) { fprintf(g_out, "O %s\teq %a %a\n", n.c_str(), a, b); }
void require_le(const std::string& n, const double& a, const double& b) { fprintf(g_out, "O %s\tle %a %a\n", n.c_str(), a, b); }
void require_lt(const std::string& n, const double& a, const double& b) { fprintf(g_out, "O %s\tlt %a %a\n", n.c_str(), a, b); }
void require_true(const std::string& n, bool b) { fprintf(g_out, "O %s\t%s 0 0\n", n.c_str(), b ? "true" : "false"); }
void known(const std::string& f, const std::string& n, const double& a, const double& b) { fprintf(g_out, "F %s\t%s\t%a %a\n", f.c_str(), n.c_str(), a, b); }
void hint(const double&) {}
void alias(const double&) {}
void cut_rotation(const std::string&, const Eigen::Matrix3d&) {}
void probe(const std::string& n, const double& a) { fprintf(g_out, "P %s\t%a\n", n.c_str(), a); }
void skip() { done("skip"); throw 0; }
bool symbolic() { return false; }
double nan_value() { return std::nan(""); }
double inf_value() { return INFINITY; }
bool same_bits(const double& a, const double& b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
Eigen::VectorXd derivative(const std::function<Eigen::VectorXd(double)>& f)
{
    // fourth-order central difference
    const double h = 1e-4;
    Eigen::VectorXd p1 = f(h), m1 = f(-h), p2 = f(2 * h), m2 = f(-2 * h);
    return (8.0 * (p1 - m1) - (p2 - m2)) / (12.0 * h);
}
}
// the clock of the replayed path
static double clock_value()
{
    static int k = 0;
    static double last = 0.0;
    auto it = g_in.find("clock#" + std::to_string(k++));
    last = it == g_in.end() ? last + 1e-6 : strtod(it->second.c_str(), nullptr);
    return last;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long long)std::llround(clock_value() * 1e9))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long long)std::llround(clock_value() * 1e9))); }
} } }
int main(int argc, char **argv)
{
    if (argc < 4) { for (auto& c : cases()) printf("%s\n", c.first.c_str()); return 0; }
    mallopt(M_PERTURB, 0x01);
    g_out = fopen(argv[2], "w");
    setvbuf(g_out, nullptr, _IOLBF, 0);
    std::ifstream in(argv[3]);
    std::string n, v;
    while (in >> n >> v) g_in[n] = v;
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
    alarm(60);
    for (auto& c : cases()) if (c.first == argv[1]) {
        try { c.second(); }
        catch (const std::exception& e) {
            std::string w = e.what();
            for (auto& ch : w) if (ch == '\n' || ch == '\t') ch = ' ';
            fprintf(g_out, "O no-unexpected-exception(%s)\tfalse 0 0\n", w.c_str());
            done("exception");
        }
        done("ok");
    }
    return 3;
}
