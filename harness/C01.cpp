// encodes: SparseOptimizer (setup, optimize, prepare_to_estimate_covariances, estimate_covariance), FactorGraph (placements, sparse Jacobian), Eigen SimplicialLDLT (factorisation and solve)
// bounds: Gauss-Newton and Levenberg-Marquardt runs of 1 iteration (up to 2 trials) from a given Jacobian; covariances at the final state for an arbitrary Jacobian of 1 column (1e-5..1e5, any) and 2 residuals (quiet and verbose), upper triangular (which every information matrix reduces to) of 2 columns (diagonal 0.1..10, off it -2..2) in one variable of size 2 or two of size 1, and of 3 columns (diagonal 0.5..2, off it -1..1) in variables of size 1 and 2 with a constant one in between; second runs, second preparations and replaced graphs
// assumes: the factor is an arbitrary function: its residuals are independent unknowns at every state visited (three columns: given), its Jacobian is given at the start and an independent unknown at every other state
#include "optstubs.hpp"

struct Run { Problem p; FacP f; SparseOptimizer o; OptimizerSettings s; bool verbose = false; };
static VarP var(Run& u, int id, int size, bool c = false) { VarP v = std::make_shared<StubVariable>(id, "x" + std::to_string(id), size, c); u.p.add(v); return v; }
static void start(Run& u, OptimizerMethod m)
{
    u.p.ready();
    u.s = plain_settings(m, 1);
    u.s.learning_rate = 1.0; u.s.step_tolerance = 0.0; u.s.residual_tolerance = 0.0; u.s.max_lambda = 1.6;   // one trial
    u.s.verbose = u.verbose;
    u.o.setup(u.p.g, u.s);
}
static OptimizerMethod method() { return choose("method", 0, 1) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt; }
// the reported covariance against the inverse information at the values the variables hold
static void covariances(Run& u, const std::string& tag, bool must_be_valid)
{
    Eigen::MatrixXd J = u.p.R.J(), H = J.transpose() * J;
    int n = (int)H.rows();
    for (auto& v : u.p.R.vars) {
        bool ok = true;
        Eigen::MatrixXd P = u.o.estimate_covariance(v.get(), ok);
        std::string nm = "x" + std::to_string(v->id()) + tag;
        if (v->is_constant()) { require_true("no covariance for constant " + nm, !ok && P.size() == 0); continue; }
        if (!ok) { require_true("covariance available for " + nm, !must_be_valid && P.size() == 0); continue; }
        int k = v->size(), c = u.p.R.column(v.get());
        require_true("shape of covariance of " + nm, P.rows() == k && P.cols() == k);
        if (P.rows() != k || P.cols() != k) continue;
        require_eq("symmetry of covariance of " + nm, P, Eigen::MatrixXd(P.transpose()));
        // P det(H) = the block of adj(H)
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) {
            double det, adj;
            int a = c + i, b = c + j;
            if (n == 1) { det = H(0, 0); adj = 1.0; }
            else if (n == 2) { det = H(0, 0) * H(1, 1) - H(0, 1) * H(1, 0); adj = a == b ? H(1 - a, 1 - a) : 0.0 - H(a, b); }
            else {
                auto minor = [&](int r, int q) {
                    int r0 = r == 0 ? 1 : 0, r1 = r == 2 ? 1 : 2, q0 = q == 0 ? 1 : 0, q1 = q == 2 ? 1 : 2;
                    return H(r0, q0) * H(r1, q1) - H(r0, q1) * H(r1, q0);
                };
                det = H(0, 0) * minor(0, 0) - H(0, 1) * minor(0, 1) + H(0, 2) * minor(0, 2);
                adj = ((a + b) % 2 ? -1.0 : 1.0) * minor(b, a);
            }
            double left = P(i, j) * det;
            require_eq("covariance of " + nm + " [" + std::to_string(i) + "," + std::to_string(j) + "]", left, adj);
        }
    }
}
static std::string at(const char *n, int s) { return std::string(n) + "@" + std::to_string(s); }
static Eigen::MatrixXd full(int s)
{
    Eigen::MatrixXd J(2, 2);
    if (s == 0) J << 1.0, 0.5, -0.25, 2.0;
    else J << input(at("J00", s), 0.1, 10.0), input(at("J01", s), -2.0, 2.0), 0.0, input(at("J11", s), 0.1, 10.0);
    return J;
}
CASE(one_column)
{
    Run u;
    VarP v = var(u, 4, 1);
    u.f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{v});
    u.f->block_at = [](int s, int) { Eigen::MatrixXd J(2, 1); if (s == 0) J << 1.0, 0.5; else J << input(at("J0", s), 1e-5, 1e5), input(at("J1", s)); return J; };
    u.p.add(u.f);
    u.verbose = choose("verbose", 0, 1) == 1;
    start(u, method());
    bool ok = true;
    require_true("nothing before a run", u.o.estimate_covariance(v.get(), ok).size() == 0 && !ok);
    u.o.prepare_to_estimate_covariances();
    ok = true;
    require_true("nothing before a run, even if prepared", u.o.estimate_covariance(v.get(), ok).size() == 0 && !ok);
    u.o.optimize();
    ok = true;
    require_true("nothing before preparation", u.o.estimate_covariance(v.get(), ok).size() == 0 && !ok);
    u.o.prepare_to_estimate_covariances();
    covariances(u, "", true);
    ok = true;
    require_true("nothing for a null variable", u.o.estimate_covariance(nullptr, ok).size() == 0 && !ok);
    StubVariable other(77, "other", 1);
    ok = true;
    require_true("nothing for an unknown variable", u.o.estimate_covariance(&other, ok).size() == 0 && !ok);
    covariances(u, " again", true);
}
static void two(bool single)
{
    Run u;
    std::vector<VarP> l;
    if (single) l = {var(u, 4, 2)}; else { VarP b = var(u, 9, 1), a = var(u, 4, 1); l = {a, b}; }
    u.f = std::make_shared<StubFactor>(1, "f", 2, l);
    u.f->block_at = [=](int s, int i) { Eigen::MatrixXd J = full(s); return single ? J : Eigen::MatrixXd(J.col(i)); };
    u.p.add(u.f);
    start(u, method());
    u.o.optimize();
    u.o.prepare_to_estimate_covariances();
    covariances(u, "", true);
}
CASE(one_of_two) { two(true); }
CASE(two_of_one) { two(false); }
CASE(three_columns)
{
    Run u;
    VarP a = var(u, 4, 1), c = var(u, 2, 1, true), b = var(u, 9, 2);
    u.f = std::make_shared<StubFactor>(1, "f", 3, std::vector<VarP>{b, c, a});
    u.f->block_at = [=](int s, int i) {
        Eigen::MatrixXd L = Eigen::MatrixXd::Zero(3, 3);      // columns: a, b0, b1
        if (s == 0) L << 1.0, 0.0, 0.0, 0.5, 2.0, 0.0, -0.25, 1.0, 1.0;
        else {
            L(0, 0) = input(at("L00", s), 0.5, 2.0); L(1, 1) = input(at("L11", s), 0.5, 2.0); L(2, 2) = input(at("L22", s), 0.5, 2.0);
            L(0, 1) = input(at("L01", s), -1.0, 1.0); L(0, 2) = input(at("L02", s), -1.0, 1.0); L(1, 2) = input(at("L12", s), -1.0, 1.0);
        }
        return i == 2 ? Eigen::MatrixXd(L.col(0)) : Eigen::MatrixXd(L.rightCols(2));
    };
    u.f->residual_at = [](int s) { Eigen::VectorXd r(3); r << 1.0, -2.0, 0.5; return Eigen::VectorXd(s == 0 ? r : 0.5 * r); };
    u.p.add(u.f);
    start(u, OptimizerMethod::GaussNewton);
    u.o.optimize();
    u.o.prepare_to_estimate_covariances();
    covariances(u, "", true);
}
// what an earlier run prepared is not reported after a later one, nor after the graph is replaced
CASE(second_run)
{
    Run u;
    VarP v = var(u, 4, 1);
    u.f = std::make_shared<StubFactor>(1, "f", 1, std::vector<VarP>{v});
    u.f->block_at = [](int s, int) { Eigen::MatrixXd J(1, 1); J(0, 0) = s == 0 ? 1.0 : input(at("J", s), 0.01, 100.0); return J; };
    u.p.add(u.f);
    start(u, method());
    u.o.optimize();
    if (choose("prepared_before", 0, 1)) u.o.prepare_to_estimate_covariances();
    if (choose("setup_again", 0, 1)) {
        u.o.setup(u.p.g, u.s);
        bool ok = true;
        require_true("nothing after setup", u.o.estimate_covariance(v.get(), ok).size() == 0 && !ok);
        u.o.prepare_to_estimate_covariances();
        ok = true;
        require_true("nothing after setup and preparation", u.o.estimate_covariance(v.get(), ok).size() == 0 && !ok);
    }
    u.o.optimize();
    bool ok = true;
    Eigen::MatrixXd P = u.o.estimate_covariance(v.get(), ok);
    require_true("nothing after a second run that was not prepared", P.size() == 0 && !ok);
    u.o.prepare_to_estimate_covariances();
    covariances(u, " after the second run", true);
}
