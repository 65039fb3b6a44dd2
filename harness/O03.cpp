// encodes: SparseOptimizer (setup, optimize, stats, initial_stats, single_step_gauss_newton, single_step_levenberg_marquardt), FactorGraph residual vector and sparse Jacobian, Eigen SimplicialLDLT
// bounds: both methods, 0 to 2 iterations (with given Jacobians and tolerances: 6 of Gauss-Newton, 5 of Levenberg-Marquardt), verbose output with up to 1, up to 2 trials per Levenberg-Marquardt iteration; one variable of size 1 with 1 or 2 residuals and an arbitrary Jacobian, or two variables with given Jacobians of full or deficient rank; residuals, values, Jacobian entries and tolerances unbounded
// assumes: the factors are arbitrary functions: residuals and Jacobians are independent unknowns at every state visited
#include "optstubs.hpp"

static VarP var(Problem& p, int id, int size) { VarP v = std::make_shared<StubVariable>(id, "x" + std::to_string(id), size); p.add(v); return v; }
static OptimizerSettings tolerances(OptimizerMethod m, int iterations)
{
    OptimizerSettings s = plain_settings(m, iterations);
    s.learning_rate = 1.0;
    s.step_tolerance = input("step_tolerance", 1e-9, 1.0);
    s.residual_tolerance = input("residual_tolerance", 1e-9, 1.0);
    return s;
}
static void finish(Problem& p, SparseOptimizer& o, const OptimizerSettings& s, const Eigen::VectorXd& x0)
{
    const FacP& f = p.R.facs[0];
    Eigen::VectorXd x1 = p.R.value();
    int last = f->state();
    double cost = squared(f->residual_at(last)), first = squared(f->residual_at(0));
    const OptimizerStats& e = o.current_stats_;
    require_true("starts at the given values", same(f->states[0], x0));
    require_eq("final chi2", e.chi2, cost);
    require_eq("final residual norm", e.residual_norm * e.residual_norm, cost);
    require_le("the residual norm is not negative", 0.0, e.residual_norm);
    require_eq("initial chi2", o.initial_stats_.chi2, first);
    require_eq("initial residual norm", o.initial_stats_.residual_norm * o.initial_stats_.residual_norm, first);
    require_true("no more iterations than allowed", e.current_iteration >= 0 && e.current_iteration <= (int)s.max_num_iterations);
    int lin = 0, prev = 0;
    for (auto& q : f->log) if (q.first == 'J') { ++lin; prev = q.second; }
    require_true("no more linearisations than allowed", lin <= (int)s.max_num_iterations);
    if (lin > 0 && (s.method == OptimizerMethod::LevenbergMarquardt || !error_status(e.status))) {
        require_eq("step norm of the last iteration", e.delta_norm * e.delta_norm, 0.25 * squared(x1 - f->states[prev]));
        require_le("the step norm is not negative", 0.0, e.delta_norm);
        require_true("iterations are counted", e.current_iteration == lin);
    }
    require_true("the run is over", e.status != OptimizerStatus::RUNNING);
    if (e.status == OptimizerStatus::SUCCESS && lin < (int)s.max_num_iterations) {
        // stopped early: a tolerance was met by the last step, or the cost is below the initial one
        Eigen::VectorXd dx = 0.5 * (x1 - f->states[prev]);
        bool lower = cost < first;
        if (!lower) {
            double before = squared(f->residual_at(prev));
            bool small_step = squared(dx) < s.step_tolerance * s.step_tolerance;
            if (!small_step) require_le("early success after a large step needs a residual that did not grow", cost, before);
            if (!small_step) require_lt("early success needs a met tolerance or a lower cost", std::sqrt(before) - std::sqrt(cost), s.residual_tolerance);
        }
    }
    if (e.status == OptimizerStatus::SUCCESS) require_true("success is marked valid", e.valid);
    if (error_status(e.status)) {
        require_true("errors are marked invalid", !e.valid);
        require_true("an error leaves the variables where the iteration found them", lin > 0 && last == prev);
    }
}
static void one(OptimizerMethod m, int iterations, bool verbose = false, bool given = false)
{
    Problem p;
    VarP v = var(p, 1, 1);
    FacP f = std::make_shared<StubFactor>(1, "f", given ? 2 : choose("residuals", 1, 2), std::vector<VarP>{v});
    if (given) f->block_at = fixed_block(2);
    p.add(f);
    p.ready();
    OptimizerSettings s = given ? given_settings(m, iterations) : tolerances(m, choose("iterations", 0, iterations));
    if (given) { s.step_tolerance = 1e-3; s.residual_tolerance = 1e-3; }
    s.verbose = verbose;
    SparseOptimizer o;
    o.setup(p.g, s);
    Eigen::VectorXd x0 = p.R.value();
    o.optimize();
    finish(p, o, s, x0);
}
CASE(gauss_newton) { one(OptimizerMethod::GaussNewton, 2); }
CASE(levenberg_marquardt) { one(OptimizerMethod::LevenbergMarquardt, 2); }
CASE(gn_longer) { one(OptimizerMethod::GaussNewton, 6, false, true); }
CASE(lm_longer) { one(OptimizerMethod::LevenbergMarquardt, 5, false, true); }
CASE(gn_verbose) { one(OptimizerMethod::GaussNewton, 1, true); }
CASE(lm_verbose) { one(OptimizerMethod::LevenbergMarquardt, 1, true); }
static void two(OptimizerMethod m, int iterations, bool deficient)
{
    Problem p;
    VarP a = var(p, 1, 1), b = var(p, 2, 1);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{a, b});
    p.add(f);
    if (deficient) {
        // column b is an exact multiple of column a (0, 1 or -2 times), or both are zero
        int kind = choose("kind", 0, 3), from = choose("from", 0, 1);
        auto full = fixed_block(2);
        f->block_at = [=](int st, int i) {
            if (st < from) return full(st, i);
            Eigen::MatrixXd J(2, 1); double k = i == 0 ? (kind == 3 ? 0.0 : 1.0) : kind == 0 || kind == 3 ? 0.0 : kind == 1 ? 1.0 : -2.0; J << 1.0 * k, 2.0 * k; return J; };
    } else f->block_at = fixed_block(2);
    p.ready();
    OptimizerSettings s = tolerances(m, iterations);
    SparseOptimizer o;
    o.setup(p.g, s);
    Eigen::VectorXd x0 = p.R.value();
    o.optimize();
    finish(p, o, s, x0);
    if (deficient && m == OptimizerMethod::GaussNewton && f->log.back().first == 'J' && f->log.back().second >= choose("from", 0, 1)) {
        require_true("a singular system is reported", o.current_stats_.status == OptimizerStatus::SINGULAR_HESSIAN || o.current_stats_.status == OptimizerStatus::FAILED);
        require_true("and is not valid", !o.current_stats_.valid);
        require_true("and leaves the variables unchanged", a->increments.size() == (size_t)f->log.back().second && b->increments.size() == a->increments.size());
    }
}
CASE(gn_two) { two(OptimizerMethod::GaussNewton, 2, false); }
CASE(lm_two) { two(OptimizerMethod::LevenbergMarquardt, 1, false); }
CASE(gn_deficient) { two(OptimizerMethod::GaussNewton, 2, true); }
CASE(lm_deficient) { two(OptimizerMethod::LevenbergMarquardt, 1, true); }
// systems that are singular to working precision: two columns equal up to a relative 1e-8, or a variable whose column is below 5e-8
static void nearly(bool tiny)
{
    Problem p;
    VarP a = var(p, 1, 1), b = tiny ? a : var(p, 2, 1);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, tiny ? std::vector<VarP>{a} : std::vector<VarP>{a, b});
    p.add(f);
    f->block_at = [=](int, int i) {
        Eigen::MatrixXd J(2, 1);
        if (tiny) J << input("delta", -5e-8, 5e-8), 0.0; else J << 1.0, i == 0 ? 1.0 : 1.0 + input("delta", -1e-8, 1e-8);
        return J;
    };
    p.ready();
    OptimizerSettings s = tolerances(OptimizerMethod::GaussNewton, 1);
    s.verbose = choose("verbose", 0, 1) == 1;
    SparseOptimizer o;
    o.setup(p.g, s);
    Eigen::VectorXd x0 = p.R.value();
    o.optimize();
    require_true("a singular system is reported", error_status(o.current_stats_.status) && !o.current_stats_.valid);
    require_true("and leaves the variables unchanged", same(p.R.value(), x0) && a->increments.empty() && b->increments.empty());
}
CASE(gn_nearly) { nearly(false); }
CASE(gn_tiny) { nearly(true); }
