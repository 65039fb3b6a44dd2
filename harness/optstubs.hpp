// A problem for the optimizer made of stub variables and factors, and a record of what the optimizer did with it.
#pragma once
#include "stubs.hpp"
#include "factorama/sparse_optimizer.hpp"

struct Problem {
    Reference R;
    std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
    OptimizerSettings s;
    // whole states of the problem, numbered as they are first met, and what was evaluated where
    void add(const VarP& v) { R.vars.push_back(v); g->add_variable(v); }
    void add(const FacP& f) { R.facs.push_back(f); g->add_factor(f); }
    void ready() { g->finalize_structure(); }
};
inline OptimizerSettings settings(OptimizerMethod m, int iterations)
{
    OptimizerSettings s;
    s.method = m;
    s.max_num_iterations = iterations;
    s.step_tolerance = input("step_tolerance", 1e-9, 1.0);
    s.residual_tolerance = input("residual_tolerance", 1e-9, 1.0);
    s.learning_rate = input("learning_rate", 0.1, 1.5);
    s.initial_lambda = input("initial_lambda", 1e-3, 10.0);
    s.max_lambda = input("max_lambda", 1e-2, 1e4);
    s.lambda_up_factor = input("lambda_up", 1.5, 20.0);
    s.lambda_down_factor = input("lambda_down", 0.05, 0.9);
    return s;
}
// only the damping and the learning rate left open; at most two trials per iteration
inline OptimizerSettings plain_settings(OptimizerMethod m, int iterations)
{
    OptimizerSettings s;
    s.method = m;
    s.max_num_iterations = iterations;
    s.step_tolerance = 0.001;
    s.residual_tolerance = 0.001;
    s.learning_rate = input("learning_rate", 0.1, 1.5);
    s.initial_lambda = input("initial_lambda", 1.0, 1.5);
    s.max_lambda = 8.0;
    s.lambda_up_factor = 4.0;
    s.lambda_down_factor = 0.25;
    return s;
}
// everything given
inline OptimizerSettings given_settings(OptimizerMethod m, int iterations)
{
    OptimizerSettings s;
    s.method = m;
    s.max_num_iterations = iterations;
    s.step_tolerance = 0.0;
    s.residual_tolerance = 0.0;
    s.learning_rate = 1.0;
    s.initial_lambda = 1.0;
    s.max_lambda = 8.0;
    s.lambda_up_factor = 8.0;
    s.lambda_down_factor = 0.25;
    return s;
}
inline double squared(const Eigen::VectorXd& r) { double a = 0.0; for (int i = 0; i < (int)r.size(); ++i) a += r[i] * r[i]; return a; }
inline bool error_status(OptimizerStatus s) { return s == OptimizerStatus::SINGULAR_HESSIAN || s == OptimizerStatus::ILL_CONDITIONED || s == OptimizerStatus::FAILED; }
// given Jacobians of full rank, different at every state (for problems with several columns)
inline std::function<Eigen::MatrixXd(int, int)> fixed_block(int m, int width = 1)
{
    return [=](int s, int i) {
        static const double T[12] = {1.0, 0.5, -0.25, 2.0, 1.5, -1.0, 0.75, 0.25, -0.5, 1.25, -2.0, 0.125};
        Eigen::MatrixXd J(m, width);
        for (int r = 0; r < m; ++r) for (int c = 0; c < width; ++c) J(r, c) = T[(r * 5 + (i + c) * 3 + s * 7) % 12];
        return J;
    };
}
