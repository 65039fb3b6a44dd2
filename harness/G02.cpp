// encodes: FactorGraph (add_variable, add_factor, finalize_structure, compute_full_residual_vector in both forms, compute_full_jacobian_matrix, compute_sparse_jacobian_matrix, compute_full_jacobian_and_residual, copy_sparse_data_to_eigen_matrix, jacobian, sparse_jacobian, residual)
// bounds: 3 variables of sizes 1, 2, 1 (none, one or all constant at first), 3 factors of sizes 2, 1, 2 with one to three variables in any listed order, one variable and one factor added later; every sequence of 3 (thorough: 4) operations out of change values, dense, sparse, residual, dense and residual, toggle a constant flag and finalise, add a variable and factor and finalise; every sequence of 3 sets of constant variables, finalised and evaluated after each; all values, residuals and Jacobian entries unbounded
// bounds: also 9 and 20 variables of size 1 to 3 with 14 and 25 factors over one to five of them, three sets of constants, changed values and flags
// assumes: factors are arbitrary functions of their variables' values that follow the empty-block convention; each factor lists a variable once
#include "stubs.hpp"
#ifdef VERIF_THOROUGH
static const int OPS = 4;
#else
static const int OPS = 3;
#endif

static void compare(const std::string& nm, const Eigen::MatrixXd& got, const Eigen::MatrixXd& want) { require_eq(nm, got, want); }
static void check_dense(const std::string& nm, FactorGraph& g, const Reference& R)
{
    compare(nm + " dense", g.compute_full_jacobian_matrix(), R.J());
    compare(nm + " dense, cached", g.jacobian(), R.J());
}
static void check_sparse(const std::string& nm, FactorGraph& g, const Reference& R)
{
    Eigen::MatrixXd S(g.compute_sparse_jacobian_matrix());
    compare(nm + " sparse", S, R.J());
    compare(nm + " sparse, cached", Eigen::MatrixXd(g.sparse_jacobian()), R.J());
}
static void check_residual(const std::string& nm, FactorGraph& g, const Reference& R)
{
    require_eq(nm + " residual", g.compute_full_residual_vector(), R.r());
    require_eq(nm + " residual, cached", g.residual(), R.r());
    Eigen::VectorXd out = Eigen::VectorXd::Constant(4, 7.0);
    g.compute_full_residual_vector(out);
    require_eq(nm + " residual, into a vector", out, R.r());
}
static Reference problem(int layout, int constant)
{
    Reference R;
    R.vars = {std::make_shared<StubVariable>(7, "a", 1, constant & 1), std::make_shared<StubVariable>(3, "b", 2, constant & 2), std::make_shared<StubVariable>(12, "c", 1, constant & 4)};
    VarP a = R.vars[0], b = R.vars[1], d = R.vars[2];
    if (layout == 0) R.facs = {std::make_shared<StubFactor>(5, "f", 2, std::vector<VarP>{d, a}), std::make_shared<StubFactor>(1, "g", 1, std::vector<VarP>{b}), std::make_shared<StubFactor>(9, "h", 2, std::vector<VarP>{a, b})};
    if (layout == 1) R.facs = {std::make_shared<StubFactor>(2, "f", 2, std::vector<VarP>{b, d, a}), std::make_shared<StubFactor>(1, "g", 1, std::vector<VarP>{a}), std::make_shared<StubFactor>(0, "h", 2, std::vector<VarP>{d})};
    if (layout == 2) R.facs = {std::make_shared<StubFactor>(40, "f", 2, std::vector<VarP>{a}), std::make_shared<StubFactor>(-1, "g", 1, std::vector<VarP>{d, b}), std::make_shared<StubFactor>(8, "h", 2, std::vector<VarP>{b})};
    return R;
}
CASE(history)
{
    int c = choose("constant", 0, 3);                       // none, the first, the middle variable, all
    Reference R = problem(choose("layout", 0, 2), c == 3 ? 7 : c);
    VarP a = R.vars[0], b = R.vars[1];
    FactorGraph g;
    for (auto& v : R.vars) g.add_variable(v);
    for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    bool added = false;
    for (int i = 0; i < OPS; ++i) {
        std::string n = std::to_string(i);
        int op = choose("op" + n, 0, 6);
        if (op == 0) for (auto& v : R.vars) v->x = vecn("new" + n + "." + std::to_string(v->id()), v->size());
        if (op == 1) check_dense(n, g, R);
        if (op == 2) check_sparse(n, g, R);
        if (op == 3) check_residual(n, g, R);
        if (op == 4) { g.compute_full_jacobian_and_residual(); compare(n + " both, J", g.jacobian(), R.J()); require_eq(n + " both, r", g.residual(), R.r()); }
        if (op == 5) { b->set_constant(!b->is_constant()); g.finalize_structure(); }
        if (op == 6) {
            if (added) skip();
            added = true;
            R.vars.push_back(std::make_shared<StubVariable>(100, "e", 1));
            R.facs.push_back(std::make_shared<StubFactor>(101, "k", 2, std::vector<VarP>{R.vars[3], a}));
            g.add_factor(R.facs[3]); g.add_variable(R.vars[3]);
            g.finalize_structure();
        }
    }
    int first = choose("first", 0, 1);
    if (first == 0) check_dense("end", g, R);
    check_sparse("end", g, R);
    check_residual("end", g, R);
    if (first == 1) check_dense("end", g, R);
    // once more at other values
    for (auto& v : R.vars) v->x = vecn("last." + std::to_string(v->id()), v->size());
    check_sparse("again", g, R);
    check_dense("again", g, R);
    check_residual("again", g, R);
}
// any change of the flags, also one that leaves all sizes as they were
CASE(flags)
{
    Reference R = problem(choose("layout", 0, 2), choose("constant", 0, 7));
    FactorGraph g;
    for (auto& v : R.vars) g.add_variable(v);
    for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    for (int i = 0; i < 3; ++i) {
        std::string n = std::to_string(i);
        check_dense(n, g, R);
        check_sparse(n, g, R);
        check_residual(n, g, R);
        if (i == 2) break;
        int mask = choose("mask" + n, 0, 7);
        for (int k = 0; k < 3; ++k) R.vars[k]->set_constant(mask >> k & 1);
        g.finalize_structure();
    }
}
// a block that vanishes at the first evaluation keeps its place
CASE(zero_block)
{
    Reference R;
    R.vars = {std::make_shared<StubVariable>(1, "a", 1), std::make_shared<StubVariable>(2, "b", 2)};
    R.facs = {std::make_shared<StubFactor>(1, "f", 2, std::vector<VarP>{R.vars[0], R.vars[1]}), std::make_shared<StubFactor>(2, "g", 2, std::vector<VarP>{R.vars[1]})};
    int which = choose("which", 0, 2);
    auto old = R.facs[0]->block_at;
    R.facs[0]->block_at = [=](int s, int i) {
        Eigen::MatrixXd J = old(s, i);
        if (s == 0 && (which == 2 || i == which)) J.setZero();
        if (s == 1 && which == 2) J.row(0).setZero();
        return J;
    };
    FactorGraph g;
    for (auto& v : R.vars) g.add_variable(v);
    for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    for (int i = 0; i < 3; ++i) {
        check_sparse(std::to_string(i), g, R);
        check_dense(std::to_string(i), g, R);
        for (auto& v : R.vars) v->x = vecn("new" + std::to_string(i) + "." + std::to_string(v->id()), v->size());
    }
}
// many variables and factors
CASE(large)
{
    int nv = choose("size", 0, 1) ? 20 : 9;
    Reference R = large(nv, nv + 5, choose("constants", 0, 2));
    FactorGraph g;
    for (auto& v : R.vars) g.add_variable(v);
    for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    for (int i = 0; i < 3; ++i) {
        std::string n = std::to_string(i);
        if (i != 1) check_dense(n, g, R);
        check_sparse(n, g, R);
        if (i == 1) check_dense(n, g, R);
        check_residual(n, g, R);
        if (i == 0) for (size_t k = 0; k < R.vars.size(); k += 2) R.vars[k]->x = vecn("new" + std::to_string(k), R.vars[k]->size());
        if (i == 1) { R.vars[nv - 1]->set_constant(!R.vars[nv - 1]->is_constant()); g.finalize_structure(); }
    }
}
