// encodes: SparseOptimizer (setup, optimize, covariances), FactorGraph (all of the assembly), GenericVariable, LandmarkVariable, PoseVariable (at zero rotation), GenericPriorFactor, GenericBetweenFactor, LinearVelocityFactor, PosePositionPriorFactor, PoseOrientationPriorFactor, PosePositionBetweenFactor, Eigen SimplicialLDLT
// bounds: chains of three states of size 1 or 2 (generic variables), size 3 (landmarks) or positions of two poses, joined by a difference and a velocity variable, with priors; every choice of constant variables (generic) or one of them, two orders of adding; one or two full Gauss-Newton iterations; start values, measurements and the time step unbounded, sigmas one of two given sets (one case: 0.5..2)
// bounds: also loops of 9 (thorough: 12) states sharing a difference and a velocity variable, in scattered order, with start values and measurements within 1/1024 of given ones
#include "optstubs.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/pose_variable.hpp"

// the same problem written down as weighted equations sum c x = z
struct Term { int var, comp; double c; };
struct Row { std::vector<Term> t; double z, sigma; };
struct Model {
    std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
    std::vector<std::shared_ptr<Variable>> v;
    std::vector<std::shared_ptr<Factor>> f;
    std::vector<Row> rows;
    SparseOptimizer o;
    void row(std::vector<Term> t, double z, double sigma) { rows.push_back({t, z, sigma}); }
    void ready(bool backwards)
    {
        int n = (int)v.size(), m = (int)f.size();
        for (int i = 0; i < n; ++i) g->add_variable(v[backwards ? n - 1 - i : i]);
        for (int i = 0; i < m; ++i) g->add_factor(f[backwards ? (i + 1) % m : i]);
        g->finalize_structure();
    }
    double error(const Row& r) const
    {
        double e = -r.z;
        for (auto& t : r.t) e += t.c * v[t.var]->value()[t.comp];
        return e / r.sigma;
    }
    // of the cost, with respect to component c of variable i
    double gradient(int i, int c) const
    {
        double s = 0.0;
        for (auto& r : rows) for (auto& t : r.t) if (t.var == i && t.comp == c) s += t.c / r.sigma * error(r);
        return s;
    }
    double information(int i, int c, int j, int d) const
    {
        double s = 0.0;
        for (auto& r : rows) for (auto& t : r.t) for (auto& u : r.t)
            if (t.var == i && t.comp == c && u.var == j && u.comp == d) s += t.c * u.c / (r.sigma * r.sigma);
        return s;
    }
};
typedef std::function<bool(int, int)> Which;
// linear(i, c): the components the model describes; the others are left alone
static void solve(Model& m, Which linear, bool verbose = false)
{
    std::vector<Eigen::VectorXd> x0;
    for (auto& v : m.v) x0.push_back(v->value());
    OptimizerSettings s = given_settings(OptimizerMethod::GaussNewton, 1);
    s.verbose = verbose;
    s.step_tolerance = 1e-6;
    m.o.setup(m.g, s);
    m.o.optimize();
    require_true("the run succeeds", !error_status(m.o.current_stats_.status));
    double cost = 0.0;
    for (auto& r : m.rows) cost += m.error(r) * m.error(r);
    require_eq("reported chi2", m.o.current_stats_.chi2, cost);
    for (size_t i = 0; i < m.v.size(); ++i) for (int c = 0; c < m.v[i]->size(); ++c) {
        std::string n = m.v[i]->name() + "[" + std::to_string(c) + "]";
        if (m.v[i]->is_constant() || !linear((int)i, c)) require_eq(n + " keeps its value", m.v[i]->value()[c], x0[i][c]);
        else require_eq(n + " is at the least-squares solution", m.gradient((int)i, c), 0.0);
    }
    // covariances: the information matrix times each block column gives the identity
    m.o.prepare_to_estimate_covariances();
    std::vector<std::pair<int, int>> cols;
    for (size_t i = 0; i < m.v.size(); ++i) if (!m.v[i]->is_constant()) for (int c = 0; c < m.v[i]->size(); ++c) if (linear((int)i, c)) cols.push_back({(int)i, c});
    int n = (int)cols.size();
    Eigen::MatrixXd H(n, n);
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) H(a, b) = m.information(cols[a].first, cols[a].second, cols[b].first, cols[b].second);
    Eigen::MatrixXd C = H.ldlt().solve(Eigen::MatrixXd::Identity(n, n));
    require_eq("reference inverse", Eigen::MatrixXd(H * C), Eigen::MatrixXd(Eigen::MatrixXd::Identity(n, n)));
    for (size_t i = 0; i < m.v.size(); ++i) {
        bool ok = false;
        Eigen::MatrixXd P = m.o.estimate_covariance(m.v[i].get(), ok);
        require_true(m.v[i]->name() + " has a covariance exactly if it is not constant", ok == !m.v[i]->is_constant());
        if (!ok) continue;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (cols[a].first == (int)i && cols[b].first == (int)i)
            require_eq(m.v[i]->name() + " covariance", P(cols[a].second, cols[b].second), C(a, b));
    }
    // and the solution is a fixed point
    std::vector<Eigen::VectorXd> x1;
    for (auto& v : m.v) x1.push_back(v->value());
    m.o.optimize();
    require_true("the second run succeeds", m.o.current_stats_.status == OptimizerStatus::SUCCESS);
    for (size_t i = 0; i < m.v.size(); ++i) require_eq(m.v[i]->name() + " stays at the solution", m.v[i]->value(), x1[i]);
}
// start values and measurements: unbounded, or (for more unknowns than two) within 1/16 of given ones, so that few comparisons stay open
static bool narrow = false;
static double width = 0.0625;
static Eigen::VectorXd open_vec(const std::string& n, int size, double near)
{
    if (!narrow) return vecn(n, size);
    Eigen::VectorXd x(size);
    for (int i = 0; i < size; ++i) { double c = near + 1.75 * i; x[i] = input(n + std::to_string(i), c, c + width); }
    return x;
}
static double given_sigma(int k, int set) { static const double S[2][6] = {{1.0, 0.5, 2.0, 0.25, 1.0, 4.0}, {0.5, 2.0, 0.25, 1.0, 4.0, 0.5}}; return S[set][k % 6]; }
// states 0, 1, 2, difference 3 (between 0 and 1), velocity 4 (from 1 to 2 over dt)
template <class Make> static void chain(Make make, int size, int free_mask, bool backwards, std::function<double(int)> sigma, int vsize, int at, bool verbose = false)
{
    Model m;
    for (int i = 0; i < 5; ++i) {
        m.v.push_back(make(i, i == 4 ? vsize : size));
        m.v[i]->set_constant((free_mask >> i & 1) == 0);
    }
    auto prior = [&](int i, int k) {
        Eigen::VectorXd z = open_vec("z" + std::to_string(i), m.v[i]->size(), 6.0 - 1.5 * i);
        m.f.push_back(std::make_shared<GenericPriorFactor>(10 - 2 * k, m.v[i].get(), z, sigma(k)));
        for (int c = 0; c < m.v[i]->size(); ++c) m.row({{i, c, 1.0}}, z[c], sigma(k));
    };
    prior(0, 0); prior(3, 1); prior(4, 2); prior(2, 5);
    m.f.push_back(std::make_shared<GenericBetweenFactor>(3, m.v[0].get(), m.v[1].get(), m.v[3].get(), sigma(3)));
    for (int c = 0; c < size; ++c) m.row({{1, c, 1.0}, {0, c, -1.0}, {3, c, -1.0}}, 0.0, sigma(3));
    double dt = 0.5;
    m.f.push_back(std::make_shared<LinearVelocityFactor>(5, m.v[1].get(), m.v[2].get(), m.v[4].get(), dt, sigma(4), at));
    for (int c = 0; c < vsize; ++c) m.row({{2, at + c, 1.0}, {1, at + c, -1.0}, {4, c, -dt}}, 0.0, sigma(4));
    m.ready(backwards);
    solve(m, [](int, int) { return true; }, verbose);
}
static std::shared_ptr<Variable> generic(int i, int size) { return std::make_shared<GenericVariable>(9 - 2 * i, open_vec("x" + std::to_string(i), size, -3.0 + 2.25 * i * i)); }
CASE(chain)
{
    int free_mask = choose("free", 1, 31);
    narrow = __builtin_popcount((unsigned)free_mask) > 2;
    int set = narrow ? choose("sigmas", 0, 1) : free_mask & 1;
    chain(generic, 1, free_mask, set == 1, [=](int k) { return given_sigma(k, set); }, 1, 0, set == 1);
}
CASE(chain_2d)
{
    int constant = choose("constant", 0, 5), at = choose("at", 0, 1);
    narrow = true;
    chain(generic, 2, 31 & ~(1 << constant), at == 1, [=](int k) { return given_sigma(k, at); }, 1, at);
}
CASE(open_sigma)
{
    int which = choose("which", 0, 5), free_mask = choose("free", 0, 3);
    static const int F[4] = {1 + 2, 2 + 4, 2 + 8, 4 + 16};
    double s = input("sigma", 0.5, 2.0);
    chain(generic, 1, F[free_mask], false, [=](int k) { return k == which ? s : given_sigma(k, 0); }, 1, 0);
}

// landmarks, the velocity of two of the three coordinates
CASE(landmarks)
{
    int constant = choose("constant", 0, 3), at = choose("at", 0, 1);
    narrow = true;
    chain([](int i, int size) -> std::shared_ptr<Variable> {
        if (i == 3 || i == 4) return generic(i, size);
        return std::make_shared<LandmarkVariable>(9 - 2 * i, Eigen::Vector3d(open_vec("x" + std::to_string(i), 3, -3.0 + 2.25 * i * i)));
    }, 3, 31 & ~(1 << constant), at == 1, [=](int k) { return given_sigma(k, at); }, 2, at, at == 1);
}
// positions of poses; their rotations are zero and agree with their priors
CASE(poses)
{
    narrow = true;
    Model m;
    int constant = choose("constant", -1, 3), set = choose("sigmas", 0, 1);
    auto sigma = [&](int k) { return given_sigma(k, set); };
    std::vector<std::shared_ptr<PoseVariable>> p;
    for (int i = 0; i < 3; ++i) {
        p.push_back(std::make_shared<PoseVariable>(9 - 2 * i, posevec(open_vec("x" + std::to_string(i), 3, -3.0 + 2.25 * i * i), Eigen::Vector3d::Zero())));
        m.v.push_back(p[i]);
    }
    m.v.push_back(std::make_shared<GenericVariable>(1, open_vec("d", 3, 2.0)));
    m.v.push_back(std::make_shared<GenericVariable>(3, open_vec("v", 3, -2.0)));
    m.v[4]->set_constant(true);
    if (constant >= 0) m.v[constant]->set_constant(true);
    for (int i = 0; i < 3; ++i) {
        m.f.push_back(std::make_shared<PoseOrientationPriorFactor>(20 + i, p[i].get(), Eigen::Matrix3d(Eigen::Matrix3d::Identity()), 0.5));
        if (i == 1) continue;
        Eigen::Vector3d z = open_vec("z" + std::to_string(i), 3, 5.0 - 1.5 * i);
        m.f.push_back(std::make_shared<PosePositionPriorFactor>(10 - i, p[i].get(), z, sigma(i)));
        for (int c = 0; c < 3; ++c) m.row({{i, c, 1.0}}, z[c], sigma(i));
    }
    Eigen::VectorXd z = open_vec("zd", 3, 1.0);
    m.f.push_back(std::make_shared<GenericPriorFactor>(2, m.v[3].get(), z, sigma(3)));
    m.f.push_back(std::make_shared<PosePositionBetweenFactor>(3, p[0].get(), p[1].get(), m.v[3].get(), sigma(4)));
    m.f.push_back(std::make_shared<LinearVelocityFactor>(5, p[1].get(), p[2].get(), m.v[4].get(), 0.5, sigma(5)));
    for (int c = 0; c < 3; ++c) {
        m.row({{3, c, 1.0}}, z[c], sigma(3));
        m.row({{1, c, 1.0}, {0, c, -1.0}, {3, c, -1.0}}, 0.0, sigma(4));
        m.row({{2, c, 1.0}, {1, c, -1.0}, {4, c, -0.5}}, 0.0, sigma(5));
    }
    m.ready(set == 1);
    solve(m, [](int i, int c) { return i > 2 || c < 3; }, set == 1);
}
#ifdef VERIF_THOROUGH
static const int LONG = 12;
#else
static const int LONG = 9;
#endif
// a long chain of states that share a difference and a velocity variable, closed by a loop, in scattered order
CASE(long_chain)
{
    narrow = true; width = 1.0 / 1024;
    Model m;
    int n = LONG, constant = choose("constant", 0, 2), set = (constant + n) % 2;
    for (int i = 0; i < n; ++i) {
        double c = 1.5 * i - 4.0 + (i % 3);
        m.v.push_back(std::make_shared<GenericVariable>(i % 2 ? 100 - 3 * i : -7 * i - 1, Eigen::VectorXd(Eigen::VectorXd::Constant(1, input("x" + std::to_string(i), c, c + width)))));
    }
    int d = n, w = n + 1;
    m.v.push_back(std::make_shared<GenericVariable>(7001, open_vec("d", 1, 1.25)));
    m.v.push_back(std::make_shared<GenericVariable>(7000, open_vec("w", 1, -2.0)));
    if (constant == 1) { m.v[0]->set_constant(true); m.v[n / 2]->set_constant(true); }
    if (constant == 2) for (int i = 0; i < n + 2; ++i) if (i % 3 == 1) m.v[i]->set_constant(true);
    int id = 0;
    auto sigma = [&] { return given_sigma(id, set); };
    auto prior = [&](int i, double near) {
        Eigen::VectorXd z = open_vec("z" + std::to_string(i), 1, near);
        m.row({{i, 0, 1.0}}, z[0], sigma());
        m.f.push_back(std::make_shared<GenericPriorFactor>(50 - id, m.v[i].get(), z, sigma())); ++id;
    };
    for (int i = 0; i < n; i += 2) prior(i, 9.0 - 2.0 * i);
    prior(d, -3.0); prior(w, 4.5);
    for (int i = 0; i < n; ++i) {
        int a = i, b = (i + 1) % n;
        if (i % 2 == 0) {
            m.row({{b, 0, 1.0}, {a, 0, -1.0}, {d, 0, -1.0}}, 0.0, sigma());
            m.f.push_back(std::make_shared<GenericBetweenFactor>(50 - id, m.v[a].get(), m.v[b].get(), m.v[d].get(), sigma()));
        } else {
            m.row({{b, 0, 1.0}, {a, 0, -1.0}, {w, 0, -0.25}}, 0.0, sigma());
            m.f.push_back(std::make_shared<LinearVelocityFactor>(50 - id, m.v[a].get(), m.v[b].get(), m.v[w].get(), 0.25, sigma(), 0));
        }
        ++id;
    }
    m.ready(set == 1);
    solve(m, [](int, int) { return true; });
}
