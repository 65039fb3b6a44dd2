// encodes: ComputeNumericalJacobians, FactorGraph::detailed_factor_test
// bounds: numerical Jacobians of a factor of 1 or 2 residuals over three variables of sizes 1, 2 and 1 with every subset of them constant, step 1e-8..0.1, and over two variables of which one moves to unrelated values; self-test of graphs of one factor with a block of 1x1, 2x1, 1x2 and of two factors of 1x1 each, tolerance 1e-9..0.5, and of every kind of ill-formed block; blocks unbounded, residuals unbounded (blocks of more than one entry and two factors: 1..2 on one side of the step, -2..-1 on the other)
// assumes: the factor is an arbitrary function: residuals and blocks are independent unknowns at every state visited; a block agrees with its numerical counterpart when the largest difference is below max(1e-2, tolerance x largest numerical entry)
#include "stubs.hpp"
#include "factorama/numerical_jacobian.hpp"

// the state in which variable i of the factor has the given value and the others have theirs, -1 if never visited
static int visited(const StubFactor& f, int i, const Eigen::VectorXd& x)
{
    int n = 0;
    for (auto v : f.vars) n += v->size();
    Eigen::VectorXd k(n);
    n = 0;
    for (int j = 0; j < (int)f.vars.size(); ++j) { int m = f.vars[j]->size(); k.segment(n, m) = j == i ? x : f.vars[j]->value(); n += m; }
    for (size_t s = 0; s < f.states.size(); ++s) if (symbolic() ? same(f.states[s], k) : (f.states[s] - k).norm() <= 1e-12 * (1.0 + k.norm())) return (int)s;
    return -1;
}
// the central difference along every coordinate, from the residuals the factor reported
// a variable whose increments lead to unrelated values (they do not cancel and do not add up)
struct OpaqueVariable : public StubVariable {
    struct Step { Eigen::VectorXd from, dx, to; };
    std::string nm;
    std::vector<Step> steps;
    OpaqueVariable(int id, const std::string& n, int dim) : StubVariable(id, n, dim), nm(n) {}
    Eigen::VectorXd moved(const Eigen::VectorXd& from, const Eigen::VectorXd& dx)
    {
        for (auto& s : steps) if (symbolic() ? same(s.from, from) && same(s.dx, dx) : s.from == from && s.dx == dx) return s.to;
        Eigen::VectorXd to = vecn(nm + ".to" + std::to_string(steps.size()), (int)from.size());
        steps.push_back({from, dx, to});
        return to;
    }
    void apply_increment(const Eigen::VectorXd& dx) override
    {
        require_true("an increment of the variable's size is applied", dx.size() == x.size());
        increments.push_back(dx); x = moved(x, dx);
    }
};
static Eigen::MatrixXd central(const StubFactor& f, int i, double eps, const std::string& nm)
{
    Eigen::VectorXd x = f.vars[i]->value();
    Eigen::MatrixXd J(f.dim, x.size());
    for (int k = 0; k < (int)x.size(); ++k) {
        Eigen::VectorXd d = Eigen::VectorXd::Zero(x.size());
        d[k] = eps;
        Eigen::VectorXd up = x + 2.0 * d, down = x + 2.0 * (-d);      // the variables' own retraction
        if (OpaqueVariable *o = dynamic_cast<OpaqueVariable *>(f.vars[i])) { up = o->moved(x, d); down = o->moved(x, -d); }
        int a = visited(f, i, up), b = visited(f, i, down);
        require_true("the residual is evaluated a step forward " + nm, a >= 0);
        require_true("the residual is evaluated a step backward " + nm, b >= 0);
        if (a < 0 || b < 0) { J.col(k).setZero(); continue; }
        J.col(k) = (f.residual_at(a) - f.residual_at(b)) / (2.0 * eps);
    }
    return J;
}
CASE(central_differences)
{
    int mask = choose("constant", 0, 7), given = choose("given_step", 0, 1);
    std::vector<VarP> v;
    const int size[3] = {1, 2, 1};
    for (int i = 0; i < 3; ++i) v.push_back(std::make_shared<StubVariable>(i, "x" + std::to_string(i), size[i], (mask >> i) & 1));
    StubFactor f(1, "f", choose("residuals", 1, 2), v);
    double eps = given ? input("step", 1e-8, 0.1) : 1e-6;
    Blocks J(choose("stale", 0, 1) ? 5 : 0, Eigen::MatrixXd::Ones(7, 7));
    if (given) ComputeNumericalJacobians(f, J, eps); else ComputeNumericalJacobians(f, J);
    require_true("one block per variable", J.size() == 3);
    for (int i = 0; i < 3; ++i) {
        std::string n = "variable " + std::to_string(i);
        require_eq("restored " + n, v[i]->x, vecn("x" + std::to_string(i), size[i]));
        if ((mask >> i) & 1) { require_true("no block for constant " + n, J[i].size() == 0); require_true("constant untouched " + n, v[i]->increments.empty()); continue; }
        require_true("shape for " + n, J[i].rows() == f.dim && J[i].cols() == size[i]);
        if (J[i].rows() == f.dim && J[i].cols() == size[i]) require_eq("central difference " + n, J[i], central(f, i, eps, n));
    }
}
CASE(no_undo_by_stepping)
{
    int n = choose("size", 1, 2), m = choose("residuals", 1, 2);
    auto o = std::make_shared<OpaqueVariable>(1, "o", n);
    VarP x = std::make_shared<StubVariable>(2, "x", 1);
    StubFactor f(3, "f", m, choose("first", 0, 1) ? std::vector<VarP>{o, x} : std::vector<VarP>{x, o});
    double eps = input("step", 1e-8, 0.1);
    Blocks J;
    ComputeNumericalJacobians(f, J, eps);
    require_true("one block per variable", J.size() == 2);
    require_eq("restored o", o->x, vecn("o", n));
    require_eq("restored x", x->x, vecn("x", 1));
    if (J.size() != 2) return;
    for (int i = 0; i < 2; ++i) {
        std::string nm = "variable " + std::to_string(i);
        require_true("shape for " + nm, J[i].rows() == m && J[i].cols() == f.vars[i]->size());
        if (J[i].rows() == m && J[i].cols() == f.vars[i]->size()) require_eq("central difference " + nm, J[i], central(f, i, eps, nm));
    }
}
// the verdict of the self-test against the blocks
static double magnitude(double a) { return a < 0.0 ? -a : a; }
static bool agrees(const StubFactor& f, double tol, const std::string& nm)
{
    bool ok = true;
    for (int i = 0; i < (int)f.vars.size(); ++i) {
        Eigen::MatrixXd N = central(f, i, 1e-6, nm), A = f.block_at(0, i);
        double top = 0.0, err = 0.0;
        for (int r = 0; r < (int)N.rows(); ++r) for (int c = 0; c < (int)N.cols(); ++c) {
            double m = magnitude(N(r, c)), d = N(r, c) - A(r, c), e = magnitude(d);
            if (top < m) top = m;
            if (err < e) err = e;
        }
        double t = top * tol;
        if (t < 0.01) t = 0.01;
        if (!(err < t)) ok = false;
    }
    return ok;
}
static void self_test(int factors, int residuals, int size, bool settled = false)
{
    double tol = input("tolerance", 1e-9, 0.5);
    FactorGraph g;
    std::vector<VarP> v; std::vector<FacP> fs;
    for (int k = 0; k < factors; ++k) {
        VarP x = std::make_shared<StubVariable>(k, "x" + std::to_string(k), size);
        FacP f = std::make_shared<StubFactor>(k, "f" + std::to_string(k), residuals, std::vector<VarP>{x});
        // (large blocks: the signs of the numerical entries are settled)
        if (settled) f->residual_at = [k, residuals](int s) {
            Eigen::VectorXd r(residuals);
            for (int i = 0; i < residuals; ++i) { std::string n = "r" + std::to_string(k) + "." + std::to_string(i) + "@" + std::to_string(s); r[i] = s % 2 ? input(n, 1.0, 2.0) : input(n, -2.0, -1.0); }
            return r;
        };
        v.push_back(x); fs.push_back(f);
        g.add_variable(x);
    }
    if (residuals < size) { VarP x = v[0]; g.add_factor(fs[0]); FacP e = std::make_shared<StubFactor>(50, "extra", 1, std::vector<VarP>{}); g.add_factor(e); }
    else for (auto& f : fs) g.add_factor(f);
    g.finalize_structure();
    bool verdict = g.detailed_factor_test(tol);
    bool want = true;
    for (int k = 0; k < factors; ++k) {
        require_eq("restored variable " + std::to_string(k), v[k]->x, vecn("x" + std::to_string(k), size));
        if (!agrees(*fs[k], tol, "of factor " + std::to_string(k))) want = false;
    }
    require_true("the self-test passes when the blocks agree", verdict || !want);
    require_true("the self-test fails when a block disagrees", !verdict || want);
}
CASE(self_test_1x1) { self_test(1, 1, 1); }
CASE(self_test_2x1) { self_test(1, 2, 1, true); }
CASE(self_test_1x2) { self_test(1, 1, 2, true); }
CASE(self_test_two_factors) { self_test(2, 1, 1, true); }
// two variables, one of them possibly constant, the other wrong or right
CASE(self_test_two_variables)
{
    FactorGraph g;
    int c = choose("constant", 0, 2);
    VarP a = std::make_shared<StubVariable>(1, "a", 1, c == 1), b = std::make_shared<StubVariable>(2, "b", 1, c == 2);
    FacP f = std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{a, b});
    // linear in a and b with slopes 3 and -2 (through the retraction x + 2 dx: 6 and -4)
    f->residual_at = [f = f.get()](int s) { Eigen::VectorXd r(2); r << 3.0 * f->states[s][0], -2.0 * f->states[s][1]; return r; };
    double ea = input("error_a", -1.0, 1.0), eb = input("error_b", -1.0, 1.0);
    f->block_at = [=](int, int i) { Eigen::MatrixXd J = Eigen::MatrixXd::Zero(2, 1); if (i == 0) J(0, 0) = 6.0 + ea; else J(1, 0) = -4.0 + eb; return J; };
    g.add_variable(a); g.add_variable(b); g.add_factor(f);
    g.finalize_structure();
    bool verdict = g.detailed_factor_test(0.01);
    bool oka = c == 1 || (ea < 0.059 && -0.059 < ea), okb = c == 2 || (eb < 0.039 && -0.039 < eb);
    bool bada = c != 1 && (0.061 < ea || ea < -0.061), badb = c != 2 && (0.041 < eb || eb < -0.041);
    if (oka && okb) require_true("right blocks pass", verdict);
    if (bada || badb) require_true("a wrong block fails", !verdict);
}
struct IllFormed : StubFactor {
    void rename(int i) { id_ = i; }
    int kind;
    IllFormed(int k, const std::vector<VarP>& v) : StubFactor(1, "f", 2, v), kind(k) { residual_at = [](int) { return Eigen::VectorXd(Eigen::VectorXd::Zero(2)); }; block_at = [](int, int) { return Eigen::MatrixXd(Eigen::MatrixXd::Zero(2, 1)); }; }
    void compute_jacobians(Blocks& J) const override
    {
        StubFactor::compute_jacobians(J);
        if (kind == 1) J.pop_back();
        if (kind == 2) J.push_back(Eigen::MatrixXd());
        if (kind == 3) J[0] = Eigen::MatrixXd();
        if (kind == 4) J[0] = Eigen::MatrixXd::Zero(1, 1);
        if (kind == 5) J[0] = Eigen::MatrixXd::Zero(2, 2);
        if (kind == 6) J[1] = Eigen::MatrixXd::Zero(2, 1);       // the constant variable's
        if (kind == 7) J[0](1, 0) = nan_value();
        if (kind == 8) J[0](0, 0) = nan_value();
        if (kind == 9) J[0](0, 0) = inf_value();
    }
};
CASE(self_test_ill_formed)
{
    FactorGraph g;
    int kind = choose("kind", 0, 9), other = choose("other", 0, 2);
    VarP a = std::make_shared<StubVariable>(1, "a", 1), c = std::make_shared<StubVariable>(2, "c", 1, true), b = std::make_shared<StubVariable>(3, "b", 1);
    std::shared_ptr<IllFormed> f = std::make_shared<IllFormed>(kind, std::vector<VarP>{a, c});
    std::shared_ptr<IllFormed> good = std::make_shared<IllFormed>(0, std::vector<VarP>{b});
    good->rename(2);
    g.add_variable(a); g.add_variable(c);
    if (other) g.add_variable(b);
    if (other == 1) g.add_factor(good);
    g.add_factor(f);
    if (other == 2) g.add_factor(good);
    g.finalize_structure();
    bool verdict = g.detailed_factor_test(0.01);
    require_true("well-formed blocks pass", verdict || kind != 0);
    require_true("ill-formed blocks fail", !verdict || kind == 0);
}
