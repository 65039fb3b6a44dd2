// encodes: FactorGraph (add_variable, add_factor, finalize_structure, variable_placement, factor_placement, both placement maps, get_variable, get_all_variables, get_all_factors, num_values, num_residuals, num_variables, get_variable_vector, compute_full_residual_vector)
// bounds: 1 to 3 variables of size 1 to 2, each constant or not, added in 3 identifier orders; 1 to 2 (thorough: 3) factors of size 1 to 4 on one or two of them; problems with at least as many residuals as values; variables and factors added later, flags toggled and the structure finalised again; values and residuals unbounded
// bounds: also 17 and 40 variables of size 1 to 3 with 22 and 45 factors over one to five of them, scattered identifiers up to 2e9 in magnitude, three sets of constants; a variable and factor added and a flag toggled
// assumes: factors are arbitrary functions of their variables' values; each factor lists a variable once
#include "stubs.hpp"
#ifdef VERIF_THOROUGH
static const int NV = 3, NF = 3, DV = 2;
#else
static const int NV = 3, NF = 2, DV = 2;
#endif
static int id_of(int order, int i)
{
    static const int T[3][3] = {{0, 1, 2}, {42, -7, 5}, {2, 1, 0}};
    return T[order][i];
}
static void check(FactorGraph& g, const Reference& R)
{
    require_true("number of variables", g.num_variables() == (int)R.vars.size() && g.get_all_variables().size() == R.vars.size());
    require_true("number of values", g.num_values() == R.values());
    require_true("number of residuals", g.num_residuals() == R.residuals());
    require_true("number of placements", g.variable_placement_map().size() == R.vars.size() && g.factor_placement_map().size() == R.facs.size());
    Eigen::VectorXd x = g.get_variable_vector(), r = g.compute_full_residual_vector();
    require_true("length of the value vector", x.size() == R.values());
    require_true("length of the residual vector", r.size() == R.residuals());
    int col = 0, row = 0;
    for (size_t i = 0; i < R.vars.size(); ++i) {
        auto& v = R.vars[i];
        std::string n = "variable " + std::to_string(i);
        bool ok = false;
        VariablePlacement p = g.variable_placement(v->id(), ok);
        require_true(n + " is placed", ok);
        require_true(n + " is found by its identifier", g.get_variable(v->id()) == v.get() && g.get_all_variables()[i].get() == v.get());
        if (!ok) continue;
        require_true(n + " placement names the variable", p.variable == v.get());
        int dim = v->is_constant() ? 0 : v->size();
        require_true(n + " owns its columns", p.dim == dim);
        if (dim) {
            require_true(n + " starts where the previous one ended", p.index == col);
            if (p.index >= 0 && p.index + dim <= x.size()) require_eq(n + " segment of the value vector", Eigen::VectorXd(x.segment(p.index, dim)), v->x);
        }
        col += dim;
    }
    for (size_t i = 0; i < R.facs.size(); ++i) {
        auto& f = R.facs[i];
        std::string n = "factor " + std::to_string(i);
        bool ok = false;
        FactorPlacement p = g.factor_placement(f->id(), ok);
        require_true(n + " is placed", ok);
        if (!ok) continue;
        require_true(n + " placement names the factor", p.factor == f.get() && g.get_all_factors()[i].get() == f.get());
        require_true(n + " starts where the previous one ended", p.residual_index == row && p.residual_dim == f->dim);
        if (p.residual_index >= 0 && p.residual_index + f->dim <= r.size()) require_eq(n + " segment of the residual vector", Eigen::VectorXd(r.segment(p.residual_index, f->dim)), f->residual_at(f->state()));
        std::vector<int> cols, dims;
        for (auto v : f->vars) if (!v->is_constant()) { cols.push_back(R.column(v)); dims.push_back(v->size()); }
        require_true(n + " lists its variables' columns", p.variable_column_indices == cols && p.variable_dims == dims);
        row += f->dim;
    }
    bool ok = true;
    g.variable_placement(777, ok);
    require_true("an unknown variable is not placed", !ok && g.get_variable(777) == nullptr);
    ok = true;
    g.factor_placement(777, ok);
    require_true("an unknown factor is not placed", !ok);
}
CASE(structure)
{
    Reference R;
    FactorGraph g;
    int nv = choose("variables", 1, NV), nf = choose("factors", 1, NF), order = choose("order", 0, 2);
    for (int i = 0; i < nv; ++i) {
        std::string n = std::to_string(i);
        R.vars.push_back(std::make_shared<StubVariable>(id_of(order, i), "v" + n, choose("size" + n, 1, DV), choose("constant" + n, 0, 1) == 1));
    }
    for (int i = 0; i < nf; ++i) {
        std::string n = std::to_string(i);
        int a = choose("first" + n, 0, NF == 3 ? nv - 1 : nv > 1), second = choose("second" + n, 0, nv > 1);
        if (NF == 2 && a == 1) a = nv - 1 - i % nv;
        std::vector<VarP> l{R.vars[a]};
        if (second) l.push_back(R.vars[(a + 1 + i) % nv == a ? (a + 1) % nv : (a + 1 + i) % nv]);
        R.facs.push_back(std::make_shared<StubFactor>(id_of(2 - order, i), "f" + n, 1 + 2 * choose("rows" + n, 0, NF == 3 ? 0 : 1) + (NF == 3 ? i + 1 : 0), l));
    }
    if (R.residuals() < R.values()) skip();
    int mix = order == 1;
    if (mix) for (auto& f : R.facs) g.add_factor(f);
    for (auto& v : R.vars) g.add_variable(v);
    if (!mix) for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    check(g, R);
}
// structure after variables and factors are added, flags toggled, and finalised again
CASE(again)
{
    Reference R;
    FactorGraph g;
    for (int i = 0; i < 3; ++i) {
        std::string n = std::to_string(i);
        R.vars.push_back(std::make_shared<StubVariable>(id_of(1, i), "v" + n, 1 + (i == 1), choose("constant" + n, 0, 1) == 1));
        R.facs.push_back(std::make_shared<StubFactor>(id_of(1, 2 - i), "f" + n, 2 + (i == 0), std::vector<VarP>{R.vars[i]}));
        g.add_variable(R.vars[i]); g.add_factor(R.facs[i]);
    }
    g.finalize_structure();
    check(g, R);
    for (int i = 0; i < 3; ++i) if (choose("toggle" + std::to_string(i), 0, 1)) R.vars[i]->set_constant(!R.vars[i]->is_constant());
    if (choose("add", 0, 1)) {
        R.vars.push_back(std::make_shared<StubVariable>(1000, "w", 2));
        R.facs.push_back(std::make_shared<StubFactor>(-1000, "h", 3, std::vector<VarP>{R.vars[3], R.vars[0]}));
        g.add_variable(R.vars[3]); g.add_factor(R.facs[3]);
    }
    g.finalize_structure();
    check(g, R);
    g.finalize_structure();
    check(g, R);
}
// many variables and factors with scattered identifiers
CASE(large)
{
    int nv = choose("size", 0, 1) ? 40 : 17;
    Reference R = large(nv, nv + 5, choose("constants", 0, 2));
    FactorGraph g;
    bool factors_first = choose("factors_first", 0, 1) == 1;
    if (factors_first) for (auto& f : R.facs) g.add_factor(f);
    for (auto& v : R.vars) g.add_variable(v);
    if (!factors_first) for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    check(g, R);
    R.vars[nv / 2]->set_constant(!R.vars[nv / 2]->is_constant());
    R.vars.push_back(std::make_shared<StubVariable>(-2000000011, "w", 2));
    R.facs.push_back(std::make_shared<StubFactor>(2000000011, "h", 3, std::vector<VarP>{R.vars[nv], R.vars[0]}));
    g.add_variable(R.vars.back()); g.add_factor(R.facs.back());
    g.finalize_structure();
    check(g, R);
}
