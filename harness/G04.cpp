// encodes: FactorGraph (add_variable, add_factor, finalize_structure, every compute_ and cached accessor, apply_increment, detailed_factor_test, print_structure)
// bounds: graphs of 2 variables and 2 factors with every pair of identifiers in [-1, 1]; every single defect (missing variable, null variable, too few residuals) in every position, before and after a successful finalisation; additions to a finalised graph, null ones included; values and residuals unbounded
// assumes: factors are arbitrary functions of their variables' values
#include "stubs.hpp"

static void all_refused(const std::string& nm, FactorGraph& g, int n)
{
    Eigen::VectorXd out;
    Eigen::VectorXd d = vecn("d", n);
    require_true(nm + ": residual refused", refused([&] { g.compute_full_residual_vector(); }));
    require_true(nm + ": residual into a vector refused", refused([&] { g.compute_full_residual_vector(out); }));
    require_true(nm + ": dense Jacobian refused", refused([&] { g.compute_full_jacobian_matrix(); }));
    require_true(nm + ": sparse Jacobian refused", refused([&] { g.compute_sparse_jacobian_matrix(); }));
    require_true(nm + ": both refused", refused([&] { g.compute_full_jacobian_and_residual(); }));
    require_true(nm + ": increment refused", refused([&] { g.apply_increment(d); }));
    require_true(nm + ": factor test refused", refused([&] { g.detailed_factor_test(1e-3); }));
    require_true(nm + ": structure not printed", refused([&] { g.print_structure(); }));
}
static void cached_refused(const std::string& nm, FactorGraph& g)
{
    require_true(nm + ": cached Jacobian refused", refused([&] { g.jacobian(); }));
    require_true(nm + ": cached sparse Jacobian refused", refused([&] { g.sparse_jacobian(); }));
    require_true(nm + ": cached residual refused", refused([&] { g.residual(); }));
}
static void works(const std::string& nm, FactorGraph& g, const Reference& R)
{
    cached_refused(nm + " before the first evaluation", g);
    require_eq(nm + " residual", g.compute_full_residual_vector(), R.r());
    require_eq(nm + " dense", g.compute_full_jacobian_matrix(), R.J());
    require_eq(nm + " sparse", Eigen::MatrixXd(g.compute_sparse_jacobian_matrix()), R.J());
    require_eq(nm + " cached residual", g.residual(), R.r());
    require_eq(nm + " cached dense", g.jacobian(), R.J());
    require_eq(nm + " cached sparse", Eigen::MatrixXd(g.sparse_jacobian()), R.J());
    Eigen::VectorXd x = R.value();
    g.apply_increment(Eigen::VectorXd::Zero(x.size()));
    g.print_structure();
    require_eq(nm + " values", g.get_variable_vector(), x);
}
CASE(identifiers)
{
    int a = choose("a", -1, 1), b = choose("b", -1, 1), f = choose("f", -1, 1), h = choose("h", -1, 1);
    VarP va = std::make_shared<StubVariable>(a, "a", 1), vb = std::make_shared<StubVariable>(b, "b", 2);
    FacP ff = std::make_shared<StubFactor>(f, "f", 2, std::vector<VarP>{va, vb}), hh = std::make_shared<StubFactor>(h, "h", 1, std::vector<VarP>{va});
    FactorGraph g;
    all_refused("empty", g, 1);
    cached_refused("empty", g);
    require_true("first variable accepted", !refused([&] { g.add_variable(va); }));
    require_true("second variable accepted exactly when its identifier is new", refused([&] { g.add_variable(vb); }) == (a == b));
    require_true("first factor accepted", !refused([&] { g.add_factor(ff); }));
    require_true("second factor accepted exactly when its identifier is new", refused([&] { g.add_factor(hh); }) == (f == h));
    // a refused addition leaves the first owner in place
    require_true("owner of the identifier", g.get_variable(a) == va.get() && g.num_variables() == (a == b ? 1 : 2) && g.get_all_factors().size() == (f == h ? 1u : 2u));
    all_refused("not finalised", g, 3);
    cached_refused("not finalised", g);
    Reference R;
    R.vars = {va}; R.facs = {ff};
    if (a != b) R.vars.push_back(vb);
    if (f != h) R.facs.push_back(hh);
    if (a == b) return;                     // ff refers to a variable that is not in the graph but shares an identifier
    bool small = R.residuals() < R.values();
    require_true("finalised exactly when there are enough residuals", refused([&] { g.finalize_structure(); }) == small);
    if (small) { all_refused("too few residuals", g, 3); cached_refused("too few residuals", g); }
    else works("good", g, R);
}
CASE(defects)
{
    VarP va = std::make_shared<StubVariable>(3, "a", 1), vb = std::make_shared<StubVariable>(8, "b", 2), vc = std::make_shared<StubVariable>(5, "c", 1);
    FacP f1 = std::make_shared<StubFactor>(3, "f", 2, std::vector<VarP>{va, vb}), f2 = std::make_shared<StubFactor>(4, "h", 2, std::vector<VarP>{vb});
    FacP bad = std::make_shared<StubFactor>(6, "k", 2, std::vector<VarP>{vb, va, vc});
    int defect = choose("defect", 0, 3), late = choose("late", 0, 1), used = choose("used", 0, 1);
    if (!late && used) skip();
    FactorGraph g;
    Reference R;
    R.vars = {va, vb}; R.facs = {f1, f2};
    g.add_variable(va); g.add_variable(vb);
    g.add_factor(f1); g.add_factor(f2);
    if (late) { g.finalize_structure(); if (used) works("at first", g, R); }
    bool expect = true;
    int where = 0;
    if (defect == 0) expect = false;
    if (defect == 1) g.add_factor(bad);                                                      // vc is missing
    if (defect == 2) { where = choose("where", 0, 2); bad->vars[where] = nullptr; g.add_variable(vc); g.add_factor(bad); }
    if (defect == 3) g.add_variable(std::make_shared<StubVariable>(77, "many", 4));          // 7 values, 4 residuals
    if (defect && late) all_refused("added after finalisation", g, 3);
    require_true("finalisation refused exactly for a defect", refused([&] { g.finalize_structure(); }) == expect);
    if (expect) { all_refused("after the refusal", g, 3); }
    else if (defect == 0) works("good", g, R);
    // repaired: the graph can be used again
    if (defect == 1) {
        g.add_variable(vc); R.vars.push_back(vc); R.facs.push_back(bad);
        require_true("repaired", !refused([&] { g.finalize_structure(); }));
        works("repaired", g, R);
    }
    if (defect == 2) {
        bad->vars[where] = where == 0 ? vb.get() : where == 1 ? va.get() : vc.get();
        R.vars.push_back(vc); R.facs.push_back(bad);
        require_true("repaired", !refused([&] { g.finalize_structure(); }));
        works("repaired", g, R);
    }
}
// whatever is added to a finalised graph has to be finalised before anything is asked of it
CASE(additions)
{
    VarP va = std::make_shared<StubVariable>(3, "a", 1), vb = std::make_shared<StubVariable>(8, "b", 2), vc = std::make_shared<StubVariable>(5, "c", 1);
    FacP f1 = std::make_shared<StubFactor>(3, "f", 2, std::vector<VarP>{va, vb}), f2 = std::make_shared<StubFactor>(4, "h", 2, std::vector<VarP>{vb}), f3 = std::make_shared<StubFactor>(6, "k", 2, std::vector<VarP>{vb, vc});
    int what = choose("what", 0, 3), used = choose("used", 0, 1);
    FactorGraph g;
    Reference R;
    R.vars = {va, vb}; R.facs = {f1, f2};
    g.add_variable(va); g.add_variable(vb);
    g.add_factor(f1); g.add_factor(f2);
    g.finalize_structure();
    if (used) works("at first", g, R);
    if (what == 0 || what == 2) { g.add_variable(vc); R.vars.push_back(vc); all_refused("variable added", g, 3); }
    if (what == 1) { f3 = std::make_shared<StubFactor>(6, "k", 2, std::vector<VarP>{va}); }
    if (what == 1 || what == 2) { g.add_factor(f3); R.facs.push_back(f3); all_refused("factor added", g, 3); }
    if (what == 3) {
        // nothing is added by a refused addition
        require_true("null variable refused", refused([&] { g.add_variable(nullptr); }));
        require_true("null factor refused", refused([&] { g.add_factor(nullptr); }));
        require_true("used variable identifier refused", refused([&] { g.add_variable(std::make_shared<StubVariable>(8, "d", 1)); }));
        require_true("used factor identifier refused", refused([&] { g.add_factor(std::make_shared<StubFactor>(3, "m", 1, std::vector<VarP>{va})); }));
        require_eq("still usable", g.compute_full_residual_vector(), R.r());
        require_eq("still the same Jacobian", Eigen::MatrixXd(g.compute_sparse_jacobian_matrix()), R.J());
    }
    require_true("accepted", !refused([&] { g.finalize_structure(); }));
    if (what == 3 && used) { require_eq("residual", g.compute_full_residual_vector(), R.r()); require_eq("Jacobian", g.compute_full_jacobian_matrix(), R.J()); }
    else works("finalised again", g, R);
}
