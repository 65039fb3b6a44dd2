// encodes: SparseOptimizer (setup, optimize, single_step_levenberg_marquardt, stats), FactorGraph residual vector and sparse Jacobian, Eigen SimplicialLDLT
// bounds: one variable of size 1 with 1 residual and an arbitrary Jacobian entry different from zero (squared >= 1e-4); 1 to 2 iterations with up to 5 trials each, verbose output with 1, 6 iterations with given Jacobians and settings, and a second run after the first; initial damping 1e-3..10, maximum 1e-2..1e4, up 1.5..20, down 0.05..0.9; failed trials: a zero Jacobian in one of two columns with damping below the singularity threshold
// assumes: the factor is an arbitrary function: residual and Jacobian are independent unknowns at every state visited
#include "optstubs.hpp"

static OptimizerSettings damping(int iterations)
{
    OptimizerSettings s = settings(OptimizerMethod::LevenbergMarquardt, iterations);
    s.step_tolerance = 1e-6; s.residual_tolerance = 1e-6; s.learning_rate = 1.0;
    return s;
}
// follows one run of the optimizer from the increments the variable received and checks the damping of each trial:
// a trial goes from the base state to base (+) increment, which becomes the new base if it lowers the cost
static void follow(const VarP& v, const FacP& f, const OptimizerSettings& s, int base, size_t first, const OptimizerStats& e, const std::string& tag)
{
    double lambda = s.initial_lambda;
    for (size_t t = first; t < v->increments.size(); ++t) {
        std::string n = tag + " trial " + std::to_string(t - first);
        double J = f->block_at(base, 0)(0, 0), r = f->residual_at(base)[0], dx = v->increments[t][0];
        double left = (J * J + lambda) * dx, right = -(J * r);
        require_eq("damping of" + n, left, right);
        if (t > first) require_le("damping within its maximum in" + n, lambda, s.max_lambda < s.initial_lambda ? s.initial_lambda : s.max_lambda);
        Eigen::VectorXd x = f->states[base] + 2.0 * v->increments[t];
        int now = -1;
        for (size_t i = 0; i < f->states.size(); ++i) if (symbolic() ? same(f->states[i], x) : f->states[i] == x) now = (int)i;
        require_true("the residual is evaluated after" + n, now >= 0);
        if (now < 0) return;
        bool accepted = squared(f->residual_at(now)) < squared(f->residual_at(base));
        if (accepted) { lambda = lambda * s.lambda_down_factor; base = now; }
        else lambda = lambda * s.lambda_up_factor < s.max_lambda ? lambda * s.lambda_up_factor : s.max_lambda;
    }
    require_eq("final damping of" + tag, e.damping_parameter, lambda);
}
static void run(int iterations, bool twice, bool verbose = false, bool given = false)
{
    Problem p;
    VarP v = std::make_shared<StubVariable>(1, "x", 1);
    p.add(v);
    FacP f = std::make_shared<StubFactor>(1, "f", 1, std::vector<VarP>{v});
    f->block_at = [](int s, int) { Eigen::MatrixXd J(1, 1); J << input("J@" + std::to_string(s), 0.01, 100.0); return J; };
    if (given) f->block_at = fixed_block(1);
    p.add(f);
    p.ready();
    SparseOptimizer o;
    OptimizerSettings s = damping(iterations);
    if (given) s = given_settings(OptimizerMethod::LevenbergMarquardt, iterations);
    s.verbose = verbose;
    if (twice) { s.lambda_up_factor = 4.0; s.max_lambda = 8.0; s.initial_lambda = input("initial_lambda2", 1.0, 1.5); }
    o.setup(p.g, s);
    o.optimize();
    follow(v, f, s, 0, 0, o.current_stats_, " run 1");
    if (twice) {
        size_t inc = v->increments.size();
        int base = f->state();
        if (choose("setup_again", 0, 1)) { s.initial_lambda = input("initial_lambda3", 0.5, 2.0); o.setup(p.g, s); }
        o.optimize();
        follow(v, f, s, base, inc, o.current_stats_, " run 2");
    }
}
CASE(one_iteration) { run(1, false); }
CASE(verbose) { run(1, false, true); }
CASE(two_iterations) { run(2, false); }
CASE(longer) { run(6, false, false, true); }
CASE(second_run) { run(1, true); }
// trials that fail because the system is too ill-conditioned: columns of very different size
CASE(failed_trials)
{
    Problem p;
    VarP a = std::make_shared<StubVariable>(1, "a", 1), b = std::make_shared<StubVariable>(2, "b", 1);
    p.add(a); p.add(b);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{a, b});
    f->block_at = [](int, int i) { Eigen::MatrixXd J(2, 1); if (i == 0) J << 1e6, 0.0; else J << 0.0, 0.01; return J; };
    p.add(f);
    p.ready();
    SparseOptimizer o;
    OptimizerSettings s = damping(1);
    s.initial_lambda = input("initial_lambda4", 1e-6, 0.5); s.lambda_up_factor = input("lambda_up4", 5.0, 50.0); s.verbose = choose("verbose", 0, 1) == 1; s.max_lambda = input("max_lambda4", 0.5, 20.0); s.lambda_down_factor = 0.5;
    o.setup(p.g, s);
    o.optimize();
    double lambda = s.initial_lambda, used = 1.0, ended = 1.0, e = o.current_stats_.damping_parameter;
    double r = f->residual_at(0)[1], dx = b->increments.empty() ? 0.0 : b->increments[0][0];
    double up = lambda * s.lambda_up_factor < s.max_lambda ? lambda * s.lambda_up_factor : s.max_lambda;
    bool accepted = o.current_stats_.valid;
    for (int k = 0; k < 6; ++k) {
        double miss = (0.0001 + lambda) * dx + 0.01 * r, off = e - (accepted ? 0.5 * lambda : lambda);
        used = used * miss; ended = ended * off;
        lambda = lambda * s.lambda_up_factor < s.max_lambda ? lambda * s.lambda_up_factor : s.max_lambda;
    }
    if (!b->increments.empty()) require_eq("the first damping that works is the initial one times a power of the up factor, or the maximum", used, 0.0);
    require_eq("the final damping is on the same scale", ended, 0.0);
    require_le("the final damping is within its maximum", e, s.max_lambda);
    if (b->increments.empty()) require_le("failed trials raise the damping", up, e);
}
