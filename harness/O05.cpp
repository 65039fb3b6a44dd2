// encodes: SparseOptimizer (setup, optimize, single_step_gauss_newton, single_step_levenberg_marquardt), FactorGraph (finalize_structure, placements, residual vector, sparse Jacobian), Variable constant flags, Eigen SimplicialLDLT
// bounds: both methods; 3 variables of sizes 1, 1 and 2 with every subset of them constant, in a graph of two factors of 2 residuals with given Jacobians (1 iteration, up to 2 trials); one free and one constant variable with arbitrary Jacobians; flags changed between two runs, and no free variable, quiet and verbose; residuals and values unbounded
// assumes: the factors are arbitrary functions: residuals (and Jacobians where not given) are independent unknowns at every state visited
#include "optstubs.hpp"

static OptimizerSettings simple(OptimizerMethod m, int iterations)
{
    OptimizerSettings s = plain_settings(m, iterations);
    s.learning_rate = 1.0; s.step_tolerance = 0.0; s.residual_tolerance = 0.0;
    return s;
}
// the same two-factor problem with all its variables (some constant), or with the constant ones left out
struct Build { Problem p; std::vector<VarP> v; };
static void build(Build& b, int mask, bool leave_out)
{
    const int size[3] = {1, 1, 2};
    auto wide = fixed_block(2, 2), narrow = fixed_block(2, 1);
    std::vector<int> present;
    for (int i = 0; i < 3; ++i) {
        bool c = (mask >> i) & 1;
        VarP v = std::make_shared<StubVariable>(10 - i, "x" + std::to_string(i), size[i], c);
        b.v.push_back(v);
        if (c && leave_out) continue;
        present.push_back(i);
        b.p.add(v);
    }
    for (int k = 0; k < 2; ++k) {
        std::vector<VarP> l; std::vector<int> which;
        for (int i : present) if (k == 1 || i != 1) { l.push_back(b.v[i]); which.push_back(i); }
        FacP f = std::make_shared<StubFactor>(k + 1, "f" + std::to_string(k), 2, l);
        f->block_at = [=](int, int i) {
            int w = which[i];
            Eigen::MatrixXd J = w == 2 ? wide(k + 1, w) : narrow(k + 3, w);
            return J;
        };
        b.p.add(f);
    }
    b.p.ready();
}
static void compare(OptimizerMethod m, int iterations)
{
    int mask = choose("constant", 0, 6);
    Build a, b;
    build(a, mask, false);
    build(b, mask, true);
    OptimizerSettings s = simple(m, iterations);
    SparseOptimizer oa, ob;
    oa.setup(a.p.g, s); oa.optimize();
    ob.setup(b.p.g, s); ob.optimize();
    for (int i = 0; i < 3; ++i) {
        Eigen::VectorXd x0 = vecn("x" + std::to_string(i), (int)a.v[i]->x.size());
        std::string n = std::to_string(i);
        if ((mask >> i) & 1) {
            require_eq("constant variable " + n, a.v[i]->x, x0);
            require_true("no increment for constant variable " + n, a.v[i]->increments.empty());
        } else require_eq("same result as without the constant variables " + n, a.v[i]->x, b.v[i]->x);
    }
    require_true("same status", oa.current_stats_.status == ob.current_stats_.status && oa.current_stats_.valid == ob.current_stats_.valid);
    require_true("same iterations", oa.current_stats_.current_iteration == ob.current_stats_.current_iteration);
    require_eq("same chi2", oa.current_stats_.chi2, ob.current_stats_.chi2);
    require_true("size of the problem", a.p.g->num_values() == b.p.g->num_values() && a.p.g->num_residuals() == b.p.g->num_residuals());
}
CASE(gn_compare) { compare(OptimizerMethod::GaussNewton, 1); }
CASE(lm_compare) { compare(OptimizerMethod::LevenbergMarquardt, 1); }
CASE(all_constant)
{
    OptimizerMethod m = choose("method", 0, 1) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
    Build a;
    build(a, 7, false);
    OptimizerSettings s = settings(m, choose("iterations", 0, 2));
    s.verbose = choose("verbose", 0, 1) == 1;
    SparseOptimizer o;
    o.setup(a.p.g, s);
    bool threw = refused([&] { o.optimize(); });
    require_true("a problem without free variables is not refused", !threw);
    require_true("success", o.current_stats_.status == OptimizerStatus::SUCCESS && o.current_stats_.valid);
    require_true("at once", o.current_stats_.current_iteration == 0);
    for (int i = 0; i < 3; ++i) require_eq("constant variable " + std::to_string(i), a.v[i]->x, vecn("x" + std::to_string(i), (int)a.v[i]->x.size()));
    double cost = 0.0;
    for (auto& f : a.p.R.facs) cost += squared(f->residual_at(f->state()));
    require_eq("its chi2 is reported", o.current_stats_.chi2, cost);
}
// arbitrary Jacobians, one free and one constant variable
static void arbitrary(OptimizerMethod m)
{
    Problem p;
    VarP a = std::make_shared<StubVariable>(1, "a", 1), c = std::make_shared<StubVariable>(2, "c", 1, true);
    if (choose("first", 0, 1)) { p.add(c); p.add(a); } else { p.add(a); p.add(c); }
    FacP f = std::make_shared<StubFactor>(1, "f", 2, choose("order", 0, 1) ? std::vector<VarP>{c, a} : std::vector<VarP>{a, c});
    p.add(f);
    p.ready();
    OptimizerSettings s = simple(m, 1);
    SparseOptimizer o;
    o.setup(p.g, s);
    o.optimize();
    require_eq("constant variable", c->x, vecn("c", 1));
    require_true("no increment for the constant variable", c->increments.empty());
    require_true("one column", p.g->num_values() == 1);
}
CASE(gn_arbitrary) { arbitrary(OptimizerMethod::GaussNewton); }
CASE(lm_arbitrary) { arbitrary(OptimizerMethod::LevenbergMarquardt); }
// a flag that changes between two runs (with a new finalisation in between)
CASE(flag_changes)
{
    OptimizerMethod m = choose("method", 0, 1) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
    Problem p;
    VarP a = std::make_shared<StubVariable>(1, "a", 1), b = std::make_shared<StubVariable>(2, "b", 1);
    bool freed = choose("freed", 0, 1);
    b->set_constant(freed);
    p.add(a); p.add(b);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{a, b});
    f->block_at = fixed_block(2);
    p.add(f);
    p.ready();
    OptimizerSettings s = simple(m, 1);
    s.verbose = choose("verbose", 0, 1) == 1;
    SparseOptimizer o;
    o.setup(p.g, s);
    o.optimize();
    Eigen::VectorXd x1 = b->x;
    size_t before = b->increments.size();
    if (freed) { require_eq("constant in the first run", b->x, vecn("b", 1)); require_true("no increment in the first run", before == 0); }
    b->set_constant(!freed);
    p.g->finalize_structure();
    if (choose("setup_again", 0, 1)) o.setup(p.g, s);
    o.optimize();
    if (!freed) { require_eq("constant in the second run", b->x, x1); require_true("no increment in the second run", b->increments.size() == before); }
    else require_true("freed in the second run", p.g->num_values() == 2);
}
