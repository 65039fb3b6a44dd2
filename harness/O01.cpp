// encodes: SparseOptimizer (setup, optimize, single_step_levenberg_marquardt), FactorGraph (finalize_structure, compute_full_residual_vector, compute_sparse_jacobian_matrix), Eigen SimplicialLDLT
// bounds: Levenberg-Marquardt, up to 2 iterations with up to 5 trials each, one variable of size 1 with 1 residual and an arbitrary Jacobian, or two of size 1 with 2 residuals and given Jacobians (1 iteration); one variable with given Jacobians and settings (up to 6 iterations); one variable with verbose output (up to 2 trials); damping settings within initial 1e-3..10, maximum 1e-2..1e4, up 1.5..20, down 0.05..0.9, learning rate 0.1..1.5, tolerances 1e-9..1; values, residuals and Jacobian entries unbounded
// assumes: the factor is an arbitrary function: residual and Jacobian entries are independent unknowns at every state visited
#include "optstubs.hpp"

static void run(int nv, int m, int iterations, bool verbose = false, bool given = false)
{
    Problem p;
    std::vector<VarP> l;
    VarP fixed = std::make_shared<StubVariable>(50, "fixed", 1, true);
    for (int i = 0; i < nv; ++i) { if (i == nv - 1) p.add(fixed); VarP v = std::make_shared<StubVariable>(i + 1, "x" + std::to_string(i), 1); p.add(v); l.push_back(v); }
    FacP f = std::make_shared<StubFactor>(1, "f", m, l);
    p.add(f);
    if (nv > 1 || given) f->block_at = fixed_block(m);
    p.ready();
    SparseOptimizer o;
    OptimizerSettings s = verbose ? plain_settings(OptimizerMethod::LevenbergMarquardt, iterations) : settings(OptimizerMethod::LevenbergMarquardt, iterations);
    if (given) s = given_settings(OptimizerMethod::LevenbergMarquardt, iterations);
    s.verbose = verbose;
    o.setup(p.g, s);
    Eigen::VectorXd x0 = p.R.value();
    o.optimize();
    // states in the order of the factor's own record: a Jacobian evaluation starts an iteration
    std::vector<int> starts;
    for (auto& e : f->log) if (e.first == 'J') starts.push_back(e.second);
    int last = f->state();
    starts.push_back(last);
    require_true("starts at the given values", starts[0] == 0 && same(f->states[0], x0));
    for (size_t i = 0; i + 1 < starts.size(); ++i) {
        std::string n = std::to_string(i);
        require_le("cost never increases in iteration " + n, squared(f->residual_at(starts[i + 1])), squared(f->residual_at(starts[i])));
        if (starts[i + 1] != starts[i]) require_lt("a step that is kept lowers the cost in iteration " + n, squared(f->residual_at(starts[i + 1])), squared(f->residual_at(starts[i])));
    }
    require_le("final cost", squared(f->residual_at(last)), squared(f->residual_at(0)));
    // with no accepted step the values are those before the iteration, exactly
    int iter = (int)starts.size() - 1;
    require_true("one Jacobian per iteration", iter == o.current_stats_.current_iteration);
    if (error_status(o.current_stats_.status)) require_true("values restored after a failed iteration", starts[iter] == starts[iter - 1]);
    require_eq("constant variable", fixed->x, vecn("fixed", 1));
}
CASE(one_variable) { run(1, 1, 2); }
CASE(two_variables) { run(2, 2, 1); }
CASE(verbose) { run(1, 1, 2, true); }
CASE(longer) { run(1, 2, 6, false, true); }
