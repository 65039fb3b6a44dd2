// encodes: SparseOptimizer (optimize, single_step_gauss_newton, single_step_levenberg_marquardt), FactorGraph (structure, residual vector, sparse Jacobian), Eigen SparseMatrix products and SimplicialLDLT
// bounds: both methods; 8 Gauss-Newton and 6 Levenberg-Marquardt iterations of one variable of size 1 with 2 residuals and given Jacobians; one variable of size 1 with 1 or 2 residuals and an arbitrary Jacobian (Gauss-Newton 2 iterations, Levenberg-Marquardt 1 with up to 5 damped trials); a variable of size 2 with a Jacobian within 1/4 of a diagonal in [1, 2]; three columns in variables of size 1 and 2 with a constant variable in between and two factors in either order with given Jacobians (1 iteration, up to 2 trials); a second run, set up again or not, after no change, a changed flag, an added factor, an added variable or a change to another graph of three variables (given Jacobians, residuals 1..1.125 in the second run, 1 iteration each, quiet and verbose); residuals and values unbounded; learning rate 0.1..1.5, damping 1e-3..10 (three columns: 1..1.5), up factor 1.5..20
// assumes: the factors are arbitrary functions: residuals (and Jacobians where not given) are independent unknowns at every state visited
#include "optstubs.hpp"
#include <algorithm>

// what the variables and factors had been through before a run
struct Mark { std::map<const void *, size_t> steps, linearised; };
static std::vector<int> linearised(const FacP& f, size_t skip)
{
    std::vector<int> s;
    for (auto& e : f->log) if (e.first == 'J') s.push_back(e.second);
    return std::vector<int>(s.begin() + std::min(skip, s.size()), s.end());
}
static Mark mark(const Problem& p)
{
    Mark m;
    for (auto& v : p.R.vars) m.steps[v.get()] = v->increments.size();
    for (auto& f : p.R.facs) m.linearised[f.get()] = linearised(f, 0).size();
    return m;
}
// the increments received since then, per trial, in column order
static std::vector<Eigen::VectorXd> steps(const Problem& p, Mark& m)
{
    std::vector<Eigen::VectorXd> out;
    size_t k = 0;
    for (auto& v : p.R.vars) if (!v->is_constant()) { k = v->increments.size() - m.steps[v.get()]; break; }
    for (auto& v : p.R.vars) if (!v->is_constant()) require_true("every variable gets an increment per step", v->increments.size() - m.steps[v.get()] == k);
    for (size_t t = 0; t < k; ++t) {
        Eigen::VectorXd d(p.R.values());
        int c = 0;
        for (auto& v : p.R.vars) {
            size_t i = m.steps[v.get()] + t;
            if (!v->is_constant() && i < v->increments.size()) { d.segment(c, v->size()) = v->increments[i]; c += v->size(); }
        }
        out.push_back(d);
    }
    return out;
}
struct Stacked { Eigen::MatrixXd J; Eigen::VectorXd r; };
// the problem at the states its factors had when iteration k was linearised
static Stacked at(const Problem& p, Mark& m, size_t k)
{
    Stacked o{Eigen::MatrixXd::Zero(p.R.residuals(), p.R.values()), Eigen::VectorXd::Zero(p.R.residuals())};
    int row = 0;
    for (auto& f : p.R.facs) {
        std::vector<int> l = linearised(f, m.linearised[f.get()]);
        require_true("every factor is linearised in every iteration", k < l.size());
        if (k >= l.size()) return o;
        int s = l[k];
        o.r.segment(row, f->dim) = f->residual_at(s);
        for (size_t i = 0; i < f->vars.size(); ++i) if (!f->vars[i]->is_constant()) o.J.block(row, p.R.column(f->vars[i]), f->dim, f->vars[i]->size()) = f->block_at(s, (int)i);
        row += f->dim;
    }
    return o;
}
// the steps of one run, made by an optimizer that was set up before
static void check_run(Problem& p, SparseOptimizer& o, const OptimizerSettings& s, const std::string& nm = "")
{
    Mark m = mark(p);
    bool gn = s.method == OptimizerMethod::GaussNewton;
    o.optimize();
    auto d = steps(p, m);
    size_t iters = linearised(p.R.facs[0], m.linearised[p.R.facs[0].get()]).size();
    require_true(nm + "at least one iteration", iters > 0 || s.max_num_iterations == 0);
    double lr = s.learning_rate, lambda = s.initial_lambda;
    size_t t = 0;
    for (size_t k = 0; k < iters; ++k) {
        Stacked a = at(p, m, k);
        Eigen::MatrixXd H = a.J.transpose() * a.J;
        Eigen::VectorXd b = a.J.transpose() * a.r;
        std::string n = std::to_string(k);
        if (gn) {
            if (k >= d.size()) { require_true(nm + "a step is missing only after a failed factorisation", error_status(o.current_stats_.status) && k + 1 == iters); break; }
            Eigen::VectorXd left = H * d[k], right = -lr * b;
            require_eq(nm + "Gauss-Newton step " + n, left, right);
        } else if (s.max_num_iterations == 1) {
            // every trial of the iteration starts from the same values
            for (; t < d.size(); ++t) {
                Eigen::VectorXd left = H * d[t] + lambda * d[t], right = -lr * b;
                require_eq(nm + "damped step, trial " + std::to_string(t), left, right);
                lambda = lambda * s.lambda_up_factor < s.max_lambda ? lambda * s.lambda_up_factor : s.max_lambda;
            }
        }
    }
    if (!gn && s.max_num_iterations != 1 && p.R.facs.size() == 1 && iters > 0) {
        // of several iterations, for one factor: every trial starts where the last one that lowered the cost ended
        const FacP& f = p.R.facs[0];
        std::vector<int> l = linearised(f, m.linearised[f.get()]);
        int here = l[0];
        for (; t < d.size(); ++t) {
            std::string n = std::to_string(t);
            Stacked a{Eigen::MatrixXd::Zero(p.R.residuals(), p.R.values()), f->residual_at(here)};
            for (size_t i = 0; i < f->vars.size(); ++i) if (!f->vars[i]->is_constant()) a.J.block(0, p.R.column(f->vars[i]), f->dim, f->vars[i]->size()) = f->block_at(here, (int)i);
            Eigen::VectorXd left = a.J.transpose() * a.J * d[t] + lambda * d[t], right = -lr * (a.J.transpose() * a.r), next = f->states[here] + 2.0 * d[t];
            require_eq(nm + "damped step, trial " + n, left, right);
            require_true(nm + "linearised before trial " + n, std::find(l.begin(), l.end(), here) != l.end());
            bool lower = false;
            int then = -1;
            for (size_t i = 0; i < f->states.size(); ++i) if (then < 0 && (symbolic() ? same(f->states[i], next) : f->states[i].isApprox(next, 1e-12))) { then = (int)i; lower = squared(f->residual_at(then)) < squared(a.r); }
            require_true(nm + "evaluated after trial " + n, then >= 0);
            if (lower) here = then;
            lambda = lower ? lambda * s.lambda_down_factor : lambda * s.lambda_up_factor < s.max_lambda ? lambda * s.lambda_up_factor : s.max_lambda;
        }
    }
    if (gn) require_true(nm + "one step per iteration", d.size() <= iters);
}
static void run(Problem& p, OptimizerMethod m, int iterations, bool plain = false)
{
    OptimizerSettings s = plain ? plain_settings(m, iterations) : settings(m, iterations);
    SparseOptimizer o;
    o.setup(p.g, s);
    check_run(p, o, s);
}
static VarP var(Problem& p, int id, int size, bool c = false) { VarP v = std::make_shared<StubVariable>(id, "x" + std::to_string(id), size, c); p.add(v); return v; }

CASE(gn_arbitrary)
{
    Problem p;
    VarP v = var(p, 1, 1);
    p.add(std::make_shared<StubFactor>(1, "f", choose("residuals", 1, 2), std::vector<VarP>{v}));
    p.ready();
    run(p, OptimizerMethod::GaussNewton, 2);
}
CASE(lm_arbitrary)
{
    Problem p;
    VarP v = var(p, 1, 1);
    p.add(std::make_shared<StubFactor>(1, "f", choose("residuals", 1, 2), std::vector<VarP>{v}));
    p.ready();
    run(p, OptimizerMethod::LevenbergMarquardt, 1);
}
static void diagonal(Problem& p, FacP& f)
{
    VarP v = var(p, 5, 2);
    f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{v});
    p.add(f);
    f->block_at = [](int s, int) {
        std::string n = "@" + std::to_string(s);
        Eigen::MatrixXd J(2, 2);
        J << input("J00" + n, 1.0, 2.0), input("J01" + n, -0.25, 0.25), input("J10" + n, -0.25, 0.25), input("J11" + n, 1.0, 2.0);
        return J;
    };
    p.ready();
}
CASE(gn_two) { Problem p; FacP f; diagonal(p, f); run(p, OptimizerMethod::GaussNewton, 1); }
static void mixed(Problem& p)
{
    VarP a = var(p, 5, 1), c = var(p, 3, 2, true), b = var(p, 9, 2);
    int order = choose("order", 0, 1);
    FacP f = std::make_shared<StubFactor>(order ? 7 : 2, "f", 2, std::vector<VarP>{b, c}), h = std::make_shared<StubFactor>(4, "h", 2, std::vector<VarP>{a, c, b});
    f->block_at = fixed_block(2, 2);
    auto wide = fixed_block(2, 2), narrow = fixed_block(2, 1);
    h->block_at = [=](int s, int i) { return i == 0 ? narrow(s + 1, i) : wide(s + 2, i); };
    p.add(order ? h : f); p.add(order ? f : h);
    p.ready();
}
CASE(gn_mixed) { Problem p; mixed(p); run(p, OptimizerMethod::GaussNewton, 1, true); }
CASE(lm_mixed) { Problem p; mixed(p); run(p, OptimizerMethod::LevenbergMarquardt, 1, true); }

// more iterations, with given Jacobians
static void longer(OptimizerMethod m, int iterations)
{
    Problem p;
    VarP v = var(p, 1, 1);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{v});
    f->block_at = fixed_block(2);
    p.add(f);
    p.ready();
    OptimizerSettings s = given_settings(m, iterations);
    SparseOptimizer o;
    o.setup(p.g, s);
    check_run(p, o, s);
}
CASE(gn_longer) { longer(OptimizerMethod::GaussNewton, 8); }
CASE(lm_longer) { longer(OptimizerMethod::LevenbergMarquardt, 6); }

// a second run from new values after the problem has changed: nothing, a flag, another factor, another variable, another graph of the same size
static bool given_residuals;
static Eigen::MatrixXd given(int m, int k)
{
    static const double T[8] = {1.0, -0.5, 2.0, 0.75, 1.5, -1.25, 0.25, 3.0};
    Eigen::MatrixXd J(m, 1);
    for (int r = 0; r < m; ++r) J(r, 0) = T[(3 * r + 5 * k) % 8];
    return J;
}
static void attach(Problem& p, int id, int m, const std::vector<VarP>& v)
{
    FacP f = std::make_shared<StubFactor>(id, "f" + std::to_string(id), m, v);
    f->block_at = [=](int s, int i) { return given(m, id + 2 * i + s); };
    f->residual_at = [=](int s) {
        Eigen::VectorXd r(m);
        for (int i = 0; i < m; ++i) r[i] = given_residuals ? 1.0 / (1 + s) : input("r" + std::to_string(id) + "." + std::to_string(i) + "@" + std::to_string(s), 1.0, 1.125);
        return r;
    };
    p.add(f);
}
static void again(OptimizerMethod m)
{
    Problem p, q;
    VarP a = var(p, 5, 1), b = var(p, 3, 1), c = var(p, 9, 1);
    for (auto& v : p.R.vars) v->x[0] = 1.0;
    int change = choose("change", 0, 4), constant_first = change == 1 ? choose("constant_first", 0, 1) : 0;
    bool setup = change == 4 || choose("setup_again", 0, 1) == 1;
    attach(p, 1, 1, {a}); attach(p, 2, 1, {b, a}); attach(p, 4, 2, {c});
    b->set_constant(constant_first == 1);
    p.ready();
    OptimizerSettings s = given_settings(m, 1);
    s.verbose = choose("verbose", 0, 1) == 1;
    SparseOptimizer o;
    o.setup(p.g, s);
    given_residuals = true;
    o.optimize();
    given_residuals = false;
    if (change == 1) b->set_constant(!constant_first);
    else if (change == 2) attach(p, 7, 1, {c, a});
    else if (change == 3) { VarP e = var(p, 1, 1); attach(p, 7, 2, {e, b}); }
    else if (change == 4) {
        VarP u = var(q, 15, 1), v = var(q, 13, 1), w = var(q, 19, 1);
        attach(q, 1, 1, {u, w}); attach(q, 2, 1, {v}); attach(q, 4, 2, {w});
        q.ready();
    }
    Problem& next = change == 4 ? q : p;
    for (auto& v : next.R.vars) v->x = vecn("again" + std::to_string(v->id()), 1);
    if (change >= 1 && change <= 3) p.g->finalize_structure();
    if (setup) o.setup(next.g, s);
    check_run(next, o, s, "second run: ");
}
CASE(gn_again) { again(OptimizerMethod::GaussNewton); }
CASE(lm_again) { again(OptimizerMethod::LevenbergMarquardt); }
