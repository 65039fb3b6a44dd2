// encodes: Variable name, print, id, type, size of every class; FactorGraph (print_structure, print_variables, print_jacobian_and_residual, detailed_factor_test, every accessor and evaluation), SparseOptimizer (print_all_covariances, estimate_covariance, prepare_to_estimate_covariances, settings), Eigen SVD and formatting
// bounds: every variable class, any value; graphs of three variables of size 1 or 2 (none, one or all constant) and two or three linear factors with given coefficients and unbounded measurements and values: every pair of 12 inspections in a row; graphs with one variable or all or none constant and measurements and values within 1/16: one of 14 inspections before, between setup and run, or after a run of one iteration of either method (followed by a second run)
// assumes: the factors of the graphs are linear in the values
#include "optstubs.hpp"
#include "observe.hpp"

template <class V> static void inspect_variable(V& v)
{
    if (choose("constant", 0, 1)) v.set_constant(true);
    Obs before = observe(v);
    Meta m = meta(v);
    bool failed = refused([&] { v.print(); v.name(); v.id(); v.type(); v.size(); v.print(); });
    require_true("no exception", !failed);
    require_unchanged("the variable", before, observe(v));
    require_true("its description", m == meta(v));
}
CASE(pose) { PoseVariable v(4, posevec(vec3("p"), rotvec("w"))); inspect_variable(v); }
CASE(rotation) { RotationVariable v(4, rotmat("w")); inspect_variable(v); }
CASE(pose_2d) { Eigen::Vector3d x(input("x"), input("y"), input("t", -3.0, 3.0)); Pose2DVariable v(4, x); inspect_variable(v); }
CASE(plane) { PlaneVariable v(4, unit3("n"), input("d")); inspect_variable(v); }
CASE(landmark) { LandmarkVariable v(4, vec3("p")); inspect_variable(v); }
CASE(generic) { GenericVariable v(4, vecn("x", choose("size", 1, 3))); inspect_variable(v); }
CASE(inverse_range) { InverseRangeVariable v(4, vec3("o"), unit3("b"), input("range", 0.1, 10.0)); inspect_variable(v); }

// a linear factor: residual sum A_i x_i - z, through the retraction x + 2 dx
static bool narrow = false;      // measurements and values within 1/16, so that few comparisons of a run stay open
struct Linear : public StubFactor {
    std::vector<Eigen::MatrixXd> A;
    Linear(int id, int m, const std::vector<VarP>& v) : StubFactor(id, "f" + std::to_string(id), m, v)
    {
        static const double T[12] = {1.0, 0.5, -0.25, 2.0, 1.5, -1.0, 0.75, 0.25, -0.5, 1.25, -2.0, 0.125};
        for (size_t i = 0; i < v.size(); ++i) {
            Eigen::MatrixXd M(m, v[i]->size());
            for (int r = 0; r < m; ++r) for (int c = 0; c < v[i]->size(); ++c) M(r, c) = T[(5 * r + 3 * c + 7 * (int)i + 2 * id) % 12];
            A.push_back(M);
        }
        residual_at = [this](int s) {
            Eigen::VectorXd r(dim);
            for (int i = 0; i < dim; ++i) r[i] = -(narrow ? input(nm + ".z" + std::to_string(i), 1.0 + i, 1.0625 + i) : input(nm + ".z" + std::to_string(i)));
            int o = 0;
            for (size_t i = 0; i < A.size(); ++i) { r += A[i] * states[s].segment(o, A[i].cols()); o += (int)A[i].cols(); }
            return r;
        };
        block_at = [this](int, int i) { return Eigen::MatrixXd(2.0 * A[i]); };
    }
};
struct World { Problem p; std::vector<VarP> v; SparseOptimizer o; OptimizerSettings s; };
static void make(World& w, int constant, int size)
{
    const int n[3] = {1, size, 1};
    for (int i = 0; i < 3; ++i) {
        w.v.push_back(std::make_shared<StubVariable>(7 - 2 * i, "x" + std::to_string(i), n[i], constant == i || constant == 3));
        for (int k = 0; narrow && k < n[i]; ++k) w.v[i]->x[k] = input("near" + std::to_string(i) + std::to_string(k), -4.0 + 3 * i, -3.9375 + 3 * i);
        w.p.add(w.v[i]);
    }
    w.p.add(FacP(new Linear(3, 2, {w.v[0], w.v[1]})));
    w.p.add(FacP(new Linear(1, 2, {w.v[2], w.v[1]})));
    if (size > 1) w.p.add(FacP(new Linear(2, 1, {w.v[2]})));
    w.p.ready();
}
static const int INSPECTIONS = 14;
static void inspect(World& w, int what)
{
    FactorGraph& g = *w.p.g;
    bool failed = refused([&] {
        bool ok = true;
        switch (what) {
            case 0: g.print_structure(); break;
            case 1: g.print_variables(); break;
            case 2: g.print_jacobian_and_residual(false); break;
            case 3: g.print_jacobian_and_residual(true); break;
            case 4: g.detailed_factor_test(0.01); break;
            case 5: g.detailed_factor_test(0.01, true); break;
            case 6: g.get_variable_vector(); for (auto& v : g.get_all_variables()) { v->name(); v->clone()->set_value_from_vector(Eigen::VectorXd::Zero(v->size())); } break;
            case 7: g.compute_full_jacobian_matrix(); break;
            case 8: g.compute_sparse_jacobian_matrix(); break;
            case 9: { Eigen::VectorXd r = g.compute_full_residual_vector(); g.compute_full_residual_vector(r); r.setZero(); break; }
            case 10: g.compute_full_jacobian_and_residual(); g.jacobian(); g.residual(); break;
            case 11: for (auto& f : g.get_all_factors()) { f->name(); f->variables(); Blocks J; f->compute_jacobians(J); } g.set_variable_values_from_vector(g.get_variable_vector()); break;
            case 12: w.o.print_all_covariances(); break;
            case 13: for (auto& v : w.v) w.o.estimate_covariance(v.get(), ok); w.o.settings(); break;
        }
    });
    require_true("no exception from inspection " + std::to_string(what), !failed);
}
static void compare(World& a, World& b, const std::string& nm)
{
    for (size_t i = 0; i < a.v.size(); ++i) {
        std::string n = nm + " variable " + std::to_string(i);
        require_eq(n, b.v[i]->x, a.v[i]->x);
        require_true(n + " flag", a.v[i]->is_constant() == b.v[i]->is_constant());
        bool va = false, vb = false;
        VariablePlacement pa = a.p.g->variable_placement(a.v[i]->id(), va), pb = b.p.g->variable_placement(b.v[i]->id(), vb);
        require_true(n + " placement", va == vb && pa.index == pb.index && pa.dim == pb.dim);
    }
    require_true(nm + " sizes", a.p.g->num_values() == b.p.g->num_values() && a.p.g->num_residuals() == b.p.g->num_residuals());
    require_eq(nm + " residual", Eigen::VectorXd(b.p.g->compute_full_residual_vector()), Eigen::VectorXd(a.p.g->compute_full_residual_vector()));
    require_eq(nm + " Jacobian", Eigen::MatrixXd(b.p.g->compute_full_jacobian_matrix()), Eigen::MatrixXd(a.p.g->compute_full_jacobian_matrix()));
    require_eq(nm + " sparse Jacobian", Eigen::MatrixXd(b.p.g->compute_sparse_jacobian_matrix()), Eigen::MatrixXd(a.p.g->compute_sparse_jacobian_matrix()));
}
static void covariances(World& a, World& b, const std::string& nm)
{
    a.o.prepare_to_estimate_covariances();
    b.o.prepare_to_estimate_covariances();
    for (size_t i = 0; i < a.v.size(); ++i) {
        bool oa = false, ob = true;
        Eigen::MatrixXd P = a.o.estimate_covariance(a.v[i].get(), oa), Q = b.o.estimate_covariance(b.v[i].get(), ob);
        require_true(nm + " availability", oa == ob);
        require_eq(nm + " covariance " + std::to_string(i), Q, P);
    }
}
// the graph alone
CASE(graph)
{
    World a, b;
    int constant = choose("constant", 0, 4), size = choose("size", 1, 2);
    make(a, constant, size); make(b, constant, size);
    int first = choose("first", 0, 11), second = choose("second", 0, 11);
    if (first == second) {          // what was last evaluated stays available (the accessors evaluate nothing)
        for (World *w : {&a, &b}) { w->p.g->compute_full_jacobian_and_residual(); w->p.g->compute_sparse_jacobian_matrix(); }
    }
    inspect(b, first);
    inspect(b, second);
    if (first == second) {
        require_eq("residual accessor", Eigen::VectorXd(b.p.g->residual()), Eigen::VectorXd(a.p.g->residual()));
        require_eq("Jacobian accessor", Eigen::MatrixXd(b.p.g->jacobian()), Eigen::MatrixXd(a.p.g->jacobian()));
        require_eq("sparse Jacobian accessor", Eigen::MatrixXd(b.p.g->sparse_jacobian()), Eigen::MatrixXd(a.p.g->sparse_jacobian()));
    }
    compare(a, b, "after inspection");
}
static void course(OptimizerMethod m)
{
    narrow = true;
    World a, b;
    int constant = choose("constant", 2, 4), what = choose("inspection", 0, INSPECTIONS - 1), when = choose("when", 0, 2);
    make(a, constant, 1); make(b, constant, 1);
    if (when == 0 && what < 12) inspect(b, what);
    for (World *w : {&a, &b}) {
        w->s = given_settings(m, 1);
        w->o.setup(w->p.g, w->s);
    }
    if (when == 1) inspect(b, what);
    a.o.optimize(); b.o.optimize();
    if (when == 2) inspect(b, what);
    compare(a, b, "after the run");
    require_true("same status", a.o.current_stats_.status == b.o.current_stats_.status && a.o.current_stats_.valid == b.o.current_stats_.valid && a.o.current_stats_.current_iteration == b.o.current_stats_.current_iteration);
    require_eq("same chi2", b.o.current_stats_.chi2, a.o.current_stats_.chi2);
    covariances(a, b, "after the run");
    if (when == 2) {
        inspect(b, what);
        a.o.optimize(); b.o.optimize();
        compare(a, b, "after the second run");
    }
}
CASE(gauss_newton) { course(OptimizerMethod::GaussNewton); }
CASE(levenberg_marquardt) { course(OptimizerMethod::LevenbergMarquardt); }
// an optimizer that has no graph, or has not run
CASE(nothing_to_report)
{
    narrow = true;
    World w;
    make(w, choose("constant", 2, 4), 1);
    int graph = choose("graph", 0, 2);
    w.s = given_settings(OptimizerMethod::GaussNewton, 1);
    w.s.verbose = choose("verbose", 0, 1) == 1;
    if (graph) w.o.setup(w.p.g, w.s);
    if (graph == 2) { w.o.optimize(); w.o.setup(nullptr, w.s); }
    int what = choose("what", 0, 2);
    bool ok = true;
    if (what == 0) { bool f = refused([&] { w.o.print_all_covariances(); }); require_true("printing covariances is refused exactly if there is no graph", f == (graph != 1)); }
    if (what == 1) { bool f = refused([&] { w.o.prepare_to_estimate_covariances(); }); require_true("nothing to prepare", !f || graph != 1); }
    if (what == 2) require_true("no covariance", w.o.estimate_covariance(w.v[0].get(), ok).size() == 0 && !ok);
    bool f = refused([&] { w.o.optimize(); });
    require_true("optimising is refused exactly if there is no graph", f == (graph != 1));
}
