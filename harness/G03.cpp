// encodes: FactorGraph (get_variable_vector, set_variable_values_from_vector, apply_increment, get_variables_of_type)
// bounds: 3 variables of size 1 to 3, each constant or not, any two of them on one factor; vectors from 2 too short to 2 too long; all values and increments unbounded
// bounds: real variables: 3D pose, rotation, landmark, planar pose, plane, inverse-range landmark and generic variables, each constant or not
// bounds: also 17 and 40 variables of size 1 to 3, three sets of constants
// assumes: factors are arbitrary functions of their variables' values
#include "stubs.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/plane_variable.hpp"

struct World {
    Reference R; FactorGraph g;
    World()
    {
        static const int ids[3] = {9, -4, 2};
        for (int i = 0; i < 3; ++i) {
            std::string n = std::to_string(i);
            R.vars.push_back(std::make_shared<StubVariable>(ids[i], "v" + n, choose("size" + n, 1, 3), choose("constant" + n, 0, 1) == 1));
            g.add_variable(R.vars[i]);
        }
        R.facs = {std::make_shared<StubFactor>(3, "f", 9, std::vector<VarP>{R.vars[2], R.vars[0]})};
        g.add_factor(R.facs[0]);
        g.finalize_structure();
    }
};
CASE(round_trip)
{
    World w;
    Eigen::VectorXd x = w.g.get_variable_vector();
    require_eq("read", x, w.R.value());
    std::vector<Eigen::VectorXd> before;
    for (auto& v : w.R.vars) before.push_back(v->x);
    w.g.set_variable_values_from_vector(x);
    for (int i = 0; i < 3; ++i) require_eq("unchanged " + std::to_string(i), w.R.vars[i]->x, before[i]);
    Eigen::VectorXd y = vecn("new", w.R.values());
    w.g.set_variable_values_from_vector(y);
    require_eq("read back", w.g.get_variable_vector(), y);
    int c = 0;
    for (int i = 0; i < 3; ++i) {
        auto& v = w.R.vars[i];
        std::string n = std::to_string(i);
        if (v->is_constant()) { require_eq("constant " + n, v->x, before[i]); require_true("constant never written " + n, v->written.empty() && v->increments.empty()); continue; }
        require_eq("written " + n, v->x, Eigen::VectorXd(y.segment(c, v->size())));
        c += v->size();
    }
}
CASE(increment)
{
    World w;
    std::vector<Eigen::VectorXd> before;
    for (auto& v : w.R.vars) before.push_back(v->x);
    Eigen::VectorXd d = vecn("d", w.R.values());
    w.g.apply_increment(d);
    int c = 0;
    for (int i = 0; i < 3; ++i) {
        auto& v = w.R.vars[i];
        std::string n = std::to_string(i);
        if (v->is_constant()) { require_eq("constant " + n, v->x, before[i]); require_true("constant gets no increment " + n, v->written.empty() && v->increments.empty()); continue; }
        require_true("one increment " + n, v->increments.size() == 1 && v->written.empty());
        if (v->increments.size() == 1) require_eq("its increment " + n, v->increments[0], Eigen::VectorXd(d.segment(c, v->size())));
        require_eq("moved " + n, v->x, Eigen::VectorXd(before[i] + 2.0 * d.segment(c, v->size())));
        c += v->size();
    }
}
CASE(wrong_length)
{
    World w;
    std::vector<Eigen::VectorXd> before;
    for (auto& v : w.R.vars) before.push_back(v->x);
    int n = w.R.values(), k = choose("difference", -2, 2), how = choose("how", 0, 1);
    if (k == 0 || n + k < 0) skip();
    Eigen::VectorXd y = vecn("y", n + k);
    bool r = how == 0 ? refused([&] { w.g.set_variable_values_from_vector(y); }) : refused([&] { w.g.apply_increment(y); });
    require_true("refused", r);
    for (int i = 0; i < 3; ++i) require_eq("untouched " + std::to_string(i), w.R.vars[i]->x, before[i]);
}
// the library's own variables: writing the vector back restores them, and increments reach each of them
CASE(library_variables)
{
    auto pose = std::make_shared<PoseVariable>(4, posevec(vec3("p"), rotvec("rot")));
    auto land = std::make_shared<LandmarkVariable>(1, vec3("l"));
    auto flat = std::make_shared<Pose2DVariable>(8, Eigen::Vector3d(input("fx"), input("fy"), input("ft", -3.0, 3.0)));
    auto gen = std::make_shared<GenericVariable>(-3, vecn("g", 2));
    std::vector<std::shared_ptr<Variable>> all{pose, land, flat, gen};
    FactorGraph g;
    int n = 0;
    for (size_t i = 0; i < all.size(); ++i) {
        all[i]->set_constant(choose("constant" + std::to_string(i), 0, 1) == 1);
        if (!all[i]->is_constant()) n += all[i]->size();
        g.add_variable(all[i]);
    }
    VarP s = std::make_shared<StubVariable>(99, "s", 1, true);
    g.add_variable(s);
    g.add_factor(std::make_shared<StubFactor>(0, "f", 14, std::vector<VarP>{s}));
    g.finalize_structure();
    Eigen::VectorXd x = g.get_variable_vector(), d = Eigen::VectorXd::Zero(n);
    std::vector<Eigen::VectorXd> before;
    int c = 0;
    for (auto& v : all) {
        before.push_back(v->value());
        if (v->is_constant()) continue;
        require_eq("segment of " + v->name(), Eigen::VectorXd(x.segment(c, v->size())), v->value());
        if (v != flat && v != pose) d.segment(c, v->size()) = vecn("d" + std::to_string(v->id()), v->size());
        if (v == pose) d.segment(c, 3) = vec3("dp");
        if (v == flat) d.segment(c, 2) = vec2("df");
        c += v->size();
    }
    g.apply_increment(d);
    c = 0;
    for (size_t i = 0; i < all.size(); ++i) {
        auto& v = all[i];
        if (v->is_constant()) { require_eq("constant " + v->name(), v->value(), before[i]); continue; }
        require_eq("moved " + v->name(), v->value(), Eigen::VectorXd(before[i] + d.segment(c, v->size())));
        c += v->size();
    }
    g.set_variable_values_from_vector(x);
    for (size_t i = 0; i < all.size(); ++i) require_eq("restored " + all[i]->name(), all[i]->value(), before[i]);
    require_true("by type", g.get_variables_of_type<PoseVariable>().size() == 1 && g.get_variables_of_type<PoseVariable>()[0] == pose
                 && g.get_variables_of_type<LandmarkVariable>().size() == 1 && g.get_variables_of_type<Variable>().size() == 5 && g.get_variables_of_type<PlaneVariable>().empty());
}
// many variables
CASE(many)
{
    int nv = choose("size", 0, 1) ? 40 : 17;
    Reference R = large(nv, nv + 5, choose("constants", 0, 2));
    FactorGraph g;
    for (auto& v : R.vars) g.add_variable(v);
    for (auto& f : R.facs) g.add_factor(f);
    g.finalize_structure();
    require_eq("read", g.get_variable_vector(), R.value());
    Eigen::VectorXd y = vecn("new", R.values()), d = vecn("d", R.values());
    std::vector<Eigen::VectorXd> before;
    for (auto& v : R.vars) before.push_back(v->x);
    g.set_variable_values_from_vector(y);
    require_eq("read back", g.get_variable_vector(), y);
    g.apply_increment(d);
    int c = 0;
    for (int i = 0; i < nv; ++i) {
        auto& v = R.vars[i];
        std::string n = std::to_string(i);
        if (v->is_constant()) { require_eq("constant " + n, v->x, before[i]); require_true("constant never written " + n, v->written.empty() && v->increments.empty()); continue; }
        require_true("one increment " + n, v->increments.size() == 1);
        require_eq("moved " + n, v->x, Eigen::VectorXd(y.segment(c, v->size()) + 2.0 * d.segment(c, v->size())));
        c += v->size();
    }
}
