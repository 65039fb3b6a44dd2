// encodes: SparseOptimizer (setup, optimize, single_step_gauss_newton, single_step_levenberg_marquardt, stats), FactorGraph residual vector and sparse Jacobian, Eigen SimplicialLDLT (over NaN and infinities)
// bounds: both methods, 1 or 2 iterations (1 with verbose output), up to 2 trials per Levenberg-Marquardt iteration; two variables of size 1 (one-variable cases: arbitrary Jacobian), 2 residuals; from the 1st, 2nd or 3rd visited state on (or at that state only) one entry of the residual or of the Jacobian is NaN, +infinity or -infinity; everything finite is unbounded
// assumes: the factors are arbitrary functions: finite residuals are independent unknowns at every state visited; at least one iteration is allowed
#include "optstubs.hpp"

static double bad_value(int kind) { return kind == 0 ? nan_value() : kind == 1 ? inf_value() : -inf_value(); }
static void run(OptimizerMethod m, int nv, int iterations, bool verbose = false)
{
    Problem p;
    std::vector<VarP> l;
    for (int i = 0; i < nv; ++i) { VarP v = std::make_shared<StubVariable>(i + 1, "x" + std::to_string(i), 1); p.add(v); l.push_back(v); }
    FacP f = std::make_shared<StubFactor>(1, "f", 2, l);
    p.add(f);
    auto r = f->residual_at;
    auto J = nv > 1 ? fixed_block(2) : f->block_at;
    int where = choose("state", 0, 2), only = choose("only_there", 0, 1), kind = choose("value", 0, 2), entry = choose("entry", 0, 2);
    auto hit = [=](int s) { return only ? s == where : s >= where; };
    f->residual_at = [=](int s) { Eigen::VectorXd x = r(s); if (entry == 0 && hit(s)) x[1] = bad_value(kind); return x; };
    f->block_at = [=](int s, int i) { Eigen::MatrixXd x = J(s, i); if (entry == 1 + (i == nv - 1 ? 0 : 1) && hit(s)) x(0, 0) = bad_value(kind); return x; };
    if (nv == 1 && entry == 2) skip();
    p.ready();
    OptimizerSettings s = plain_settings(m, iterations);
    s.learning_rate = 1.0;
    s.verbose = verbose;
    SparseOptimizer o;
    o.setup(p.g, s);
    bool threw = refused([&] { o.optimize(); });
    require_true("no exception", !threw);
    const OptimizerStats& e = o.current_stats_;
    int base = 0;
    bool started_bad = false;
    for (auto& q : f->log) if (q.first == 'J') { base = q.second; if (hit(q.second)) started_bad = true; }
    bool finite_values = true;
    for (auto& v : l) if (!std::isfinite(v->x[0])) finite_values = false;
    int last = f->state();
    bool ended_bad = !finite_values || (entry == 0 && hit(last));
    if (started_bad || ended_bad) {
        require_true("no success", e.status != OptimizerStatus::SUCCESS);
        require_true("statistics are invalid", !e.valid);
    }
    if (m == OptimizerMethod::LevenbergMarquardt) {
        require_true("Levenberg-Marquardt ends at finite values", finite_values);
        if (entry == 0 && where > 0) require_true("Levenberg-Marquardt does not keep a non-finite residual", !hit(last));
        if (started_bad) require_true("Levenberg-Marquardt stays where the non-finite iteration began", last == base);
    }
}
CASE(gn_one) { run(OptimizerMethod::GaussNewton, 1, choose("iterations", 1, 2)); }
CASE(gn_verbose) { run(OptimizerMethod::GaussNewton, 1, 1, true); }
CASE(lm_verbose) { run(OptimizerMethod::LevenbergMarquardt, 1, 1, true); }
CASE(gn_two) { run(OptimizerMethod::GaussNewton, 2, choose("iterations", 1, 2)); }
CASE(lm_one) { run(OptimizerMethod::LevenbergMarquardt, 1, choose("iterations", 1, 2)); }
CASE(lm_two) { run(OptimizerMethod::LevenbergMarquardt, 2, 1); }
