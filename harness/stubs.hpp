// Stand-ins for the variables and factors of a graph: a variable is a plain vector with a retraction of its own, a
// factor's residual and Jacobian are arbitrary numbers for every combination of its variables' values.
#pragma once
#include "common.hpp"
#include "factorama/factor_graph.hpp"

// x (+) dx = x + 2 dx: differs from plain addition, so that an increment has to go through apply_increment
struct StubVariable : public Variable {
    Eigen::VectorXd x;
    std::vector<Eigen::VectorXd> increments, written;
    StubVariable(int id, const std::string& name, int dim, bool constant = false) : x(vecn(name, dim)) { id_ = id; is_constant_ = constant; }
    int size() const override { return (int)x.size(); }
    const Eigen::VectorXd& value() const override { return x; }
    void set_value_from_vector(const Eigen::VectorXd& v) override
    {
        require_true("a value of the variable's size is written", v.size() == x.size());
        written.push_back(v); x = v;
    }
    void apply_increment(const Eigen::VectorXd& dx) override
    {
        require_true("an increment of the variable's size is applied", dx.size() == x.size());
        increments.push_back(dx); x = x + 2.0 * dx;
    }
    VariableType::VariableTypeEnum type() const override { return VariableType::custom; }
    std::shared_ptr<Variable> clone() const override { return std::make_shared<StubVariable>(*this); }
};
typedef std::shared_ptr<StubVariable> VarP;

struct StubFactor : public Factor {
    std::string nm; int dim;
    std::vector<Variable *> vars;
    mutable std::vector<Eigen::VectorXd> states;             // combinations of values met so far
    mutable std::vector<std::pair<char, int>> log;           // 'r' or 'J' and the state it was evaluated at
    int plain_states = 0;                                    // bound on the number of states, 0: none
    std::function<Eigen::VectorXd(int)> residual_at;
    std::function<Eigen::MatrixXd(int, int)> block_at;
    StubFactor(int id, const std::string& name, int d, const std::vector<VarP>& v) : nm(name), dim(d)
    {
        id_ = id;
        for (auto& p : v) vars.push_back(p.get());
        residual_at = [this](int s) { return vecn(nm + ".r@" + std::to_string(s), dim); };
        block_at = [this](int s, int i) {
            Eigen::MatrixXd J(dim, vars[i]->size());
            for (int r = 0; r < dim; ++r) for (int c = 0; c < vars[i]->size(); ++c)
                J(r, c) = input(nm + ".J" + std::to_string(i) + "." + std::to_string(r) + "." + std::to_string(c) + "@" + std::to_string(s));
            return J;
        };
    }
    int state() const
    {
        int n = 0;
        for (auto v : vars) n += v->size();
        Eigen::VectorXd k(n);
        n = 0;
        for (auto v : vars) { k.segment(n, v->size()) = v->value(); n += v->size(); }
        for (size_t i = 0; i < states.size(); ++i) if (symbolic() ? same(states[i], k) : states[i] == k) return (int)i;
        states.push_back(k);
        return (int)states.size() - 1;
    }
    int residual_size() const override { return dim; }
    Eigen::VectorXd compute_residual() const override { int s = state(); log.push_back({'r', s}); return residual_at(s); }
    void compute_residual(Eigen::Ref<Eigen::VectorXd> r) const override
    {
        require_true("room for the residual", r.size() == dim);
        int s = state(); log.push_back({'r', s}); r = residual_at(s);
    }
    void compute_jacobians(Blocks& J) const override
    {
        int s = state(); log.push_back({'J', s});
        J.resize(vars.size());
        for (size_t i = 0; i < vars.size(); ++i) if (vars[i]->is_constant()) J[i] = Eigen::MatrixXd(); else J[i] = block_at(s, (int)i);
    }
    std::vector<Variable *> variables() override { return vars; }
    FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
};
typedef std::shared_ptr<StubFactor> FacP;

// the residual and Jacobian a graph must report, from the factors' blocks alone
struct Reference {
    std::vector<VarP> vars; std::vector<FacP> facs;
    int values() const { int n = 0; for (auto& v : vars) if (!v->is_constant()) n += v->size(); return n; }
    int residuals() const { int n = 0; for (auto& f : facs) n += f->dim; return n; }
    int column(const Variable *p) const { int n = 0; for (auto& v : vars) { if (v.get() == p) return n; if (!v->is_constant()) n += v->size(); } return -1; }
    Eigen::VectorXd value() const
    {
        Eigen::VectorXd x(values()); int n = 0;
        for (auto& v : vars) if (!v->is_constant()) { x.segment(n, v->size()) = v->x; n += v->size(); }
        return x;
    }
    Eigen::VectorXd r() const
    {
        Eigen::VectorXd x(residuals()); int n = 0;
        for (auto& f : facs) { x.segment(n, f->dim) = f->residual_at(f->state()); n += f->dim; }
        return x;
    }
    Eigen::MatrixXd J() const
    {
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(residuals(), values()); int n = 0;
        for (auto& f : facs) {
            for (size_t i = 0; i < f->vars.size(); ++i)
                if (!f->vars[i]->is_constant()) M.block(n, column(f->vars[i]), f->dim, f->vars[i]->size()) = f->block_at(f->state(), (int)i);
            n += f->dim;
        }
        return M;
    }
};

// different numbers of either sign, far apart, some equal in magnitude or in their lower 16 bits
inline int scattered(int i, int far, int near)
{
    switch (i % 5) {
    case 0: return far + 3 * i;
    case 1: return near + (i + 1) * 65536;
    case 2: return -near - i * 65536;
    default: return (i % 2 ? -1 : 1) * (near + (i * 7) % 31 + 40 * i);
    }
}
// a problem of many variables and factors: sizes 1 to 3, factors over one to five variables listed in any order
inline Reference large(int nv, int nf, int constants)
{
    Reference R;
    for (int i = 0; i < nv; ++i) {
        bool c = constants == 1 ? i % 3 == 1 : constants == 2 ? i % 4 != 2 : false;
        int id = scattered(i, 1000000007, 2);
        R.vars.push_back(std::make_shared<StubVariable>(id, "v" + std::to_string(i), 1 + i % 3, c));
    }
    for (int i = 0; i < nf; ++i) {
        std::vector<VarP> l;
        for (int k = 0; k <= (3 * i) % 5; ++k) l.push_back(R.vars[(5 * i + 7 * k + (k > 1 ? 3 : 0)) % nv]);
        for (size_t a = 0; a < l.size(); ++a) for (size_t b = 0; b < a; ++b) if (l[a] == l[b]) { l.erase(l.begin() + (long)a); --a; break; }
        int id = scattered(i, 1500000001, 500);
        R.facs.push_back(std::make_shared<StubFactor>(id, "f" + std::to_string(i), 1 + (i * 5) % 4, l));
    }
    return R;
}
