// encodes: the whole of python_bindings/python/factorama/_factorama.cpp (every class, constructor, method, attribute, enumeration and function it exposes), compiled against a stand-in for pybind11, with the library code behind it
// bounds: every exposed constructor by keyword, by position and by defaults; variables and factors over numbers unbounded up to the ranges needed to evaluate them (rotation angles in [2e-3, pi - 2.2e-3], ranges and sigmas in [1e-3, 1e3], headings in [-3, 3]); graphs of two variables and three factors; optimizer runs of one iteration of either method on a linear problem of size 1
// assumes: arguments and results cross the border by value the way pybind11 converts them (engine/pyshim); printing, plotting and verbosity only return; lifetimes are B02's
#include "bindings.hpp"
#include <iostream>
using pyshim::create; using pyshim::call; using pyshim::get; using pyshim::set; using pyshim::unwrap;
using namespace pyshim;

static double num(const Val& v) { if (v.k == DBL) return v.d; require_true("a number is returned", v.k == INT || v.k == BOOL); return (double)v.i; }
static void eq(const std::string& n, const Val& v, double want) { require_true(n + " is a float", v.k == DBL); if (v.k == DBL) require_eq(n, v.d, want); }
static void eqi(const std::string& n, const Val& v, long want) { require_true(n, v.k == INT && v.i == want); }
static void eqb(const std::string& n, const Val& v, bool want) { require_true(n, v.k == BOOL && (v.i != 0) == want); }
static void eqs(const std::string& n, const Val& v, const std::string& want) { require_true(n, v.k == STR && v.s == want); }
template <class D> void eqm(const std::string& n, const Val& v, const Eigen::MatrixBase<D>& want)
{
    require_true(n + " is an array", v.k == ARR);
    if (v.k == ARR) require_eq(n, v.m, Eigen::MatrixXd(want));
}
static Args behind(Val a, const Args& b) { Args r{a}; r.insert(r.end(), b.begin(), b.end()); return r; }
template <class F> bool type_error(F f) { try { f(); } catch (const TypeError&) { return true; } catch (const std::exception&) {} return false; }
template <class F> bool library_error(F f) { try { f(); } catch (const TypeError&) {} catch (const std::exception&) { return true; } return false; }
// the Python name of an enumerator
static std::string py_name(const Val& v)
{
    auto it = v.k == ENUM ? registry().enum_names.find(std::type_index(*v.dyn)) : registry().enum_names.end();
    if (it == registry().enum_names.end()) return "";
    for (auto& p : registry().enums[it->second].values) if (p.second == v.i) return p.first;
    return "???";
}
static double sg(const std::string& n) { return input(n, 1e-3, 1e3); }
static PoseVariable pose(int id, const std::string& n) { return PoseVariable(id, posevec(vec3(n + ".p"), rotvec(n))); }
static Val py_pose(int id, const std::string& n) { return create("PoseVariable", {id, Val(posevec(vec3(n + ".p"), rotvec(n)))}); }
static Eigen::Vector3d planar(const std::string& n) { double x = input(n + ".x"), y = input(n + ".y"); return Eigen::Vector3d(x, y, input(n + ".t", -3.0, 3.0)); }

// everything the base class of a variable exposes agrees with the C++ object
static void same_variable(const std::string& n, const Val& p, Variable& c)
{
    eqi(n + " id", call(p, "id"), c.id());
    eqi(n + " size", call(p, "size"), c.size());
    eqm(n + " value", call(p, "value"), c.value());
    eqs(n + " name", call(p, "name"), c.name());
    eqb(n + " is_constant", call(p, "is_constant"), c.is_constant());
    require_true(n + " type", py_name(call(p, "type")) == VariableType::variable_names[int(c.type())]);
}
// move: 0 without an increment; 2 when the last three components of the increment are a rotation, which is then a fixed one
static void exercise(const Val& p, Variable& c, const Eigen::VectorXd& other, int move = 1)
{
    same_variable("fresh", p, c);
    call(p, "set_constant", {true}); c.set_constant(true);
    same_variable("constant", p, c);
    call(p, "set_constant", {false}); c.set_constant(false);
    Val q = call(p, "clone");
    std::shared_ptr<Variable> d = c.clone();
    Eigen::VectorXd dx(c.size());
    for (int i = 0; i < c.size(); ++i) dx[i] = move == 2 && i >= c.size() - 3 ? 0.125 * (c.size() - i) : input("dx." + std::to_string(i), -1e-3, 1e-3);
    if (move) {
        call(p, "apply_increment", {Val(dx)}); c.apply_increment(dx);
        same_variable("moved", p, c);
    }
    call(p, "set_value_from_vector", {Val(other)}); c.set_value_from_vector(other);
    same_variable("set", p, c);
    same_variable("clone", q, *d);
    require_true("a clone is another object", q.obj != p.obj);
}
CASE(pose)
{
    int move = choose("move", 0, 1) ? 2 : 0;
    Eigen::VectorXd a = posevec(vec3("a.p"), move ? Eigen::Vector3d(0.5, -0.25, 0.375) : Eigen::Vector3d(rotvec("a")));
    PoseVariable c(3, a);
    Val p = choose("keywords", 0, 1) ? create("PoseVariable", {}, {{"id", 3}, {"pose_CW_init", Val(a)}}) : create("PoseVariable", {3, Val(a)});
    require_true("class", py_name(call(p, "type")) == "pose");
    eqm("pos_W", call(p, "pos_W"), c.pos_W()); eqm("rot_CW", call(p, "rot_CW"), c.rot_CW()); eqm("dcm_CW", call(p, "dcm_CW"), c.dcm_CW());
    exercise(p, c, posevec(vec3("b.p"), rotvec("b")), move);
    eqm("pos_W", call(p, "pos_W"), c.pos_W()); eqm("rot_CW", call(p, "rot_CW"), c.rot_CW()); eqm("dcm_CW", call(p, "dcm_CW"), c.dcm_CW());
}
CASE(pose_from_matrix)
{
    if (signs(unit3("a.axis")) > 7) skip();
    Eigen::Matrix3d R = rotmat("a");
    PoseVariable c(4, vec3("p"), R);
    Val p = choose("keywords", 0, 1) ? create("PoseVariable", {}, {{"dcm_CW", Val(R)}, {"pos_W", Val(vec3("p"))}, {"id", 4}}) : create("PoseVariable", {4, Val(vec3("p")), Val(R)});
    same_variable("fresh", p, c);
    eqm("pos_W", call(p, "pos_W"), c.pos_W()); eqm("rot_CW", call(p, "rot_CW"), c.rot_CW()); eqm("dcm_CW", call(p, "dcm_CW"), c.dcm_CW());
}
CASE(landmark)
{
    LandmarkVariable c(5, vec3("p"));
    Val p = choose("keywords", 0, 1) ? create("LandmarkVariable", {}, {{"pos_W_init", Val(vec3("p"))}, {"id", 5}}) : create("LandmarkVariable", {5, Val(vec3("p"))});
    exercise(p, c, vec3("q"));
    eqm("pos_W", call(p, "pos_W"), c.pos_W());
}
CASE(generic)
{
    int n = choose("n", 1, 4);
    GenericVariable c(6, vecn("p", n));
    Val p = choose("keywords", 0, 1) ? create("GenericVariable", {}, {{"initial_value", Val(vecn("p", n))}, {"id", 6}}) : create("GenericVariable", {6, Val(vecn("p", n))});
    exercise(p, c, vecn("q", n));
    require_true("an increment of another size is an error", library_error([&] { call(p, "apply_increment", {Val(vecn("q", n + 1))}); }));
    require_true("a value of another size is an error", library_error([&] { call(p, "set_value_from_vector", {Val(vecn("q", n + 1))}); }));
    same_variable("after the errors", p, c);
}
CASE(rotation)
{
    int move = choose("move", 0, 1) ? 2 : 0;
    if (!move && signs(unit3("a.axis")) > 7) skip();
    Eigen::Matrix3d R = move ? Eigen::Matrix3d((Eigen::Matrix3d() << 0.36, 0.48, -0.8, -0.8, 0.6, 0.0, 0.48, 0.64, 0.6).finished()) : Eigen::Matrix3d(rotmat("a"));
    RotationVariable c(7, R);
    Val p = choose("keywords", 0, 1) ? create("RotationVariable", {}, {{"id", 7}, {"dcm_AB", Val(R)}}) : create("RotationVariable", {7, Val(R)});
    exercise(p, c, rotvec("b"), move);
    eqm("dcm_AB", call(p, "dcm_AB"), c.dcm_AB()); eqm("rotation", call(p, "rotation"), c.rotation());
}
CASE(inverse_range)
{
    Eigen::Vector3d o = vec3("o"), b = unit3("b");
    double r = input("range", 1e-2, 1e3);
    InverseRangeVariable c(8, o, b, r);
    Val p = choose("keywords", 0, 1) ? create("InverseRangeVariable", {}, {{"initial_range", r}, {"bearing_W", Val(b)}, {"origin_pos_W", Val(o)}, {"id", 8}}) : create("InverseRangeVariable", {8, Val(o), Val(b), r});
    eq("smallest", get(p, "minimum_inverse_range"), c.minimum_inverse_range_); eq("largest", get(p, "maximum_inverse_range"), c.maximum_inverse_range_);
    eqm("pos_W", call(p, "pos_W"), c.pos_W()); eqm("origin", call(p, "origin_pos_W"), c.origin_pos_W()); eqm("bearing", call(p, "bearing_W"), c.bearing_W()); eq("inverse range", call(p, "inverse_range"), c.inverse_range());
    double lo = input("lo", 1e-3, 1e-2), hi = input("hi", 1.0, 10.0);
    set(p, "minimum_inverse_range", lo); c.minimum_inverse_range_ = lo;
    set(p, "maximum_inverse_range", hi); c.maximum_inverse_range_ = hi;
    eq("smallest set", get(p, "minimum_inverse_range"), lo); eq("largest set", get(p, "maximum_inverse_range"), hi);
    exercise(p, c, Eigen::VectorXd::Constant(1, input("q", 1e-4, 1e2)));
    eq("inverse range set", call(p, "inverse_range"), c.inverse_range());
    eqm("pos_W set", call(p, "pos_W"), c.pos_W());
}
CASE(plane)
{
    Eigen::Vector3d n = input("nlen", 1e-2, 1e2) * unit3("n");
    double d = input("d");
    PlaneVariable c(9, n, d);
    Val p = choose("keywords", 0, 1) ? create("PlaneVariable", {}, {{"distance", d}, {"normal_vector", Val(n)}, {"id", 9}}) : create("PlaneVariable", {9, Val(n), d});
    eqm("unit_vector", call(p, "unit_vector"), c.unit_vector()); eq("offset", call(p, "distance_from_origin"), c.distance_from_origin());
    eq("distance", call(p, "distance_from_point", {Val(vec3("x"))}), c.distance_from_point(vec3("x")));
    Eigen::Vector4d q; q << unit3("m"), input("e");
    exercise(p, c, q);
    eqm("unit_vector set", call(p, "unit_vector"), c.unit_vector()); eq("offset set", call(p, "distance_from_origin"), c.distance_from_origin());
}
CASE(pose_2d)
{
    Eigen::Vector3d x = planar("a");
    Pose2DVariable c(10, x);
    Val p = choose("keywords", 0, 1) ? create("Pose2DVariable", {}, {{"pose_2d", Val(x)}, {"id", 10}}) : create("Pose2DVariable", {10, Val(x)});
    eqm("pos_2d", call(p, "pos_2d"), c.pos_2d()); eq("theta", call(p, "theta"), c.theta()); eqm("dcm_2d", call(p, "dcm_2d"), c.dcm_2d());
    exercise(p, c, planar("b"));
    call(p, "set_pos_2d", {Val(vec2("s"))}); c.set_pos_2d(vec2("s"));
    same_variable("position set", p, c);
    double t = input("t", -3.0, 3.0);
    call(p, "set_theta", {t}); c.set_theta(t);
    same_variable("heading set", p, c);
    eqm("pos_2d set", call(p, "pos_2d"), c.pos_2d()); eq("theta set", call(p, "theta"), c.theta()); eqm("dcm_2d set", call(p, "dcm_2d"), c.dcm_2d());
    require_true("a value of another size is an error", library_error([&] { call(p, "set_value_from_vector", {Val(vecn("q", 2))}); }));
}
// ---- factors ----
struct Made { Val f; bool ok = false; };
// by keyword in reverse order, by position, or with the last arguments left to their defaults
static Made made(const std::string& cls, const std::vector<std::pair<std::string, Val>>& a, int with_defaults, int how)
{
    Args pos; Kw kw;
    for (auto& p : a) { pos.push_back(p.second); kw[p.first] = p.second; }
    Made m;
    try {
        if (how == 0) m.f = create(cls, {}, kw);
        else if (how == 1) m.f = create(cls, pos);
        else { for (int k = 0; k < with_defaults; ++k) kw.erase(a[a.size() - 1 - k].first); m.f = create(cls, {}, kw); }
        m.ok = true;
    } catch (const TypeError& e) {}
    require_true(cls + " is made from the documented arguments", m.ok);
    return m;
}
static void same_factor(const Val& p, Factor& c, const std::vector<Val>& pv)
{
    eqi("id", call(p, "id"), c.id());
    eqi("residual_size", call(p, "residual_size"), c.residual_size());
    eqs("name", call(p, "name"), c.name());
    require_true("type", py_name(call(p, "type")) == FactorType::factor_names[int(c.type())]);
    eqm("residual", call(p, "compute_residual"), c.compute_residual());
    Val v = call(p, "variables");
    require_true("variables", v.k == LIST && v.items.size() == pv.size());
    if (v.k == LIST && v.items.size() == pv.size()) for (size_t i = 0; i < pv.size(); ++i) require_true("variable " + std::to_string(i), v.items[i].obj.get() == pv[i].obj.get());
    std::shared_ptr<Factor> f = unwrap<Factor>(p);
    require_true("a factor", f != nullptr);
    if (!f) return;
    Blocks a, b;
    f->compute_jacobians(a); c.compute_jacobians(b);
    require_true("blocks", a.size() == b.size());
    if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) require_eq("block " + std::to_string(i), a[i], b[i]);
}
CASE(bearing_observation)
{
    int how = choose("how", 0, 2);
    PoseVariable x = pose(1, "cam"); Val px = py_pose(1, "cam");
    Eigen::Vector3d l = x.pos_W() + input("range", 1e-3, 1e3) * unit3("dir"), z = unit3("z");
    LandmarkVariable m(2, l); Val pm = create("LandmarkVariable", {2, Val(l)});
    double s = sg("sigma");
    Made p = made("BearingObservationFactor", {{"id", 3}, {"pose_var", px}, {"landmark_var", pm}, {"bearing_C_observed", Val(z)}, {"angle_sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { BearingObservationFactor f(3, &x, &m, z); same_factor(p.f, f, {px, pm}); return; }
    BearingObservationFactor f(3, &x, &m, z, s);
    same_factor(p.f, f, {px, pm});
    eqm("bearing_C_obs", call(p.f, "bearing_C_obs"), f.bearing_C_obs());
}
CASE(bearing_projection)
{
    int how = choose("how", 0, 2);
    PoseVariable x = pose(1, "cam"); Val px = py_pose(1, "cam");
    Eigen::Vector3d l = x.pos_W() + input("range", 1e-3, 1e3) * unit3("dir"), z = unit3("z");
    LandmarkVariable m(2, l); Val pm = create("LandmarkVariable", {2, Val(l)});
    double s = sg("sigma"), t = input("tolerance", 1e-6, 1e-1);
    Made p = made("BearingProjectionFactor2D", {{"id", 3}, {"pose", px}, {"landmark", pm}, {"bearing_C_observed", Val(z)}, {"sigma", s}, {"along_tolerance_epsilon", t}}, 2, how);
    if (!p.ok) return;
    if (how == 2) { BearingProjectionFactor2D f(3, &x, &m, z); same_factor(p.f, f, {px, pm}); return; }
    BearingProjectionFactor2D f(3, &x, &m, z, s, t);
    same_factor(p.f, f, {px, pm});
}
CASE(inverse_range_bearing)
{
    int how = choose("how", 0, 2);
    PoseVariable x = pose(1, "cam"); Val px = py_pose(1, "cam");
    Eigen::Vector3d dir = unit3("dir"), b = unit3("b"), z = unit3("z");
    double range = input("range", 1e-3, 1e3), inv = input("inv", 1e-2, 10.0), s = sg("sigma");
    Eigen::Vector3d o = x.pos_W() + range * dir - (1.0 / inv) * b;
    InverseRangeVariable m(2, o, b, 1.0 / inv); Val pm = create("InverseRangeVariable", {2, Val(o), Val(b), 1.0 / inv});
    Made p = made("InverseRangeBearingFactor", {{"id", 3}, {"pose_var", px}, {"inverse_range_var", pm}, {"bearing_C_observed", Val(z)}, {"angle_sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { InverseRangeBearingFactor f(3, &x, &m, z); same_factor(p.f, f, {px, pm}); return; }
    InverseRangeBearingFactor f(3, &x, &m, z, s);
    same_factor(p.f, f, {px, pm});
    eqm("bearing_C_obs", call(p.f, "bearing_C_obs"), f.bearing_C_obs());
}
CASE(generic_prior)
{
    int how = choose("how", 0, 2), n = choose("n", 1, 3);
    GenericVariable x(1, vecn("x", n)); Val px = create("GenericVariable", {1, Val(vecn("x", n))});
    double s = sg("sigma");
    Made p = made("GenericPriorFactor", {{"id", 3}, {"variable", px}, {"prior_value", Val(vecn("z", n))}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { GenericPriorFactor f(3, &x, vecn("z", n)); same_factor(p.f, f, {px}); return; }
    GenericPriorFactor f(3, &x, vecn("z", n), s);
    same_factor(p.f, f, {px});
}
CASE(generic_between)
{
    int how = choose("how", 0, 2), n = choose("n", 1, 3);
    GenericVariable a(1, vecn("a", n)), b(2, vecn("b", n)), m(3, vecn("m", n));
    Val pa = create("GenericVariable", {1, Val(vecn("a", n))}), pb = create("GenericVariable", {2, Val(vecn("b", n))}), pm = create("GenericVariable", {3, Val(vecn("m", n))});
    double s = sg("sigma");
    Made p = made("GenericBetweenFactor", {{"id", 4}, {"var_a", pa}, {"var_b", pb}, {"measured_diff", pm}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { GenericBetweenFactor f(4, &a, &b, &m); same_factor(p.f, f, {pa, pb, pm}); return; }
    GenericBetweenFactor f(4, &a, &b, &m, s);
    same_factor(p.f, f, {pa, pb, pm});
}
CASE(linear_velocity)
{
    int how = choose("how", 0, 2), n = choose("n", 2, 3), k = choose("k", 1, 2);
    GenericVariable a(1, vecn("a", n)), b(2, vecn("b", n)), m(3, vecn("m", k));
    Val pa = create("GenericVariable", {1, Val(vecn("a", n))}), pb = create("GenericVariable", {2, Val(vecn("b", n))}), pm = create("GenericVariable", {3, Val(vecn("m", k))});
    double s = sg("sigma"), dt = input("dt");
    Made p = made("LinearVelocityFactor", {{"id", 4}, {"var_1", pa}, {"var_2", pb}, {"velocity_variable", pm}, {"dt", dt}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { LinearVelocityFactor f(4, &a, &b, &m, dt); same_factor(p.f, f, {pa, pb, pm}); return; }
    LinearVelocityFactor f(4, &a, &b, &m, dt, s);
    same_factor(p.f, f, {pa, pb, pm});
}
CASE(pose_position_prior)
{
    int how = choose("how", 0, 2);
    PoseVariable x = pose(1, "x"); Val px = py_pose(1, "x");
    double s = sg("sigma");
    Made p = made("PosePositionPriorFactor", {{"id", 4}, {"pose", px}, {"pos_prior", Val(vec3("z"))}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { PosePositionPriorFactor f(4, &x, vec3("z")); same_factor(p.f, f, {px}); return; }
    PosePositionPriorFactor f(4, &x, vec3("z"), s);
    same_factor(p.f, f, {px});
}
static void error_rotation(const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation("E", E);
}
CASE(pose_orientation_prior)
{
    int how = choose("how", 0, 2);
    Eigen::Matrix3d R = rotmat("x"), Z = rotmat("z"), E = R * Z.transpose();
    alias_all(R); alias_all(Z); alias_all(rotvec("x"));
    error_rotation(E);
    PoseVariable x(1, posevec(vec3("x.p"), rotvec("x"))); Val px = create("PoseVariable", {1, Val(posevec(vec3("x.p"), rotvec("x")))});
    double s = sg("sigma");
    Made p = made("PoseOrientationPriorFactor", {{"id", 4}, {"pose", px}, {"rotvec_prior", Val(Z)}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { PoseOrientationPriorFactor f(4, &x, Z); same_factor(p.f, f, {px}); return; }
    PoseOrientationPriorFactor f(4, &x, Z, s);
    same_factor(p.f, f, {px});
}
CASE(rotation_prior)
{
    int how = choose("how", 0, 2);
    Eigen::Matrix3d R = rotmat("x"), Z = rotmat("z"), E = R * Z.transpose();
    alias_all(R); alias_all(Z);
    error_rotation(E);
    RotationVariable x(1, R); Val px = create("RotationVariable", {1, Val(R)});
    double s = sg("sigma");
    Made p = made("RotationPriorFactor", {{"id", 4}, {"rotation", px}, {"dcm_AB_prior", Val(Z)}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { RotationPriorFactor f(4, &x, Z); same_factor(p.f, f, {px}); return; }
    RotationPriorFactor f(4, &x, Z, s);
    same_factor(p.f, f, {px});
}
CASE(pose_position_between)
{
    int how = choose("how", 0, 2);
    bool local = choose("local", 0, 1) != 0;
    PoseVariable a = pose(1, "a"), b = pose(2, "b"); Val pa = py_pose(1, "a"), pb = py_pose(2, "b");
    GenericVariable m(3, vec3("m")); Val pm = create("GenericVariable", {3, Val(vec3("m"))});
    double s = sg("sigma");
    Made p = made("PosePositionBetweenFactor", {{"id", 4}, {"pose_a", pa}, {"pose_b", pb}, {"measured_diff", pm}, {"sigma", s}, {"local_frame", local}}, 2, how);
    if (!p.ok) return;
    if (how == 2) { PosePositionBetweenFactor f(4, &a, &b, &m); same_factor(p.f, f, {pa, pb, pm}); return; }
    PosePositionBetweenFactor f(4, &a, &b, &m, s, local);
    same_factor(p.f, f, {pa, pb, pm});
}
CASE(pose_orientation_between)
{
    int how = choose("how", 0, 2);
    Eigen::Matrix3d R1 = rotmat("a"), R2 = rotmat("b"), C = rotmat("c"), E = R2 * R1.transpose() * C;
    alias_all(R1); alias_all(R2); alias_all(C); alias_all(rotvec("a")); alias_all(rotvec("b"));
    error_rotation(E);
    PoseVariable a = pose(1, "a"), b = pose(2, "b"); Val pa = py_pose(1, "a"), pb = py_pose(2, "b");
    RotationVariable c(3, C); Val pc = create("RotationVariable", {3, Val(C)});
    double s = sg("sigma");
    Made p = made("PoseOrientationBetweenFactor", {{"id", 4}, {"pose1", pa}, {"pose2", pb}, {"calibration_rotation_12", pc}, {"angle_sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { PoseOrientationBetweenFactor f(4, &a, &b, &c); same_factor(p.f, f, {pa, pb, pc}); return; }
    PoseOrientationBetweenFactor f(4, &a, &b, &c, s);
    same_factor(p.f, f, {pa, pb, pc});
}
CASE(plane_factor)
{
    int how = choose("how", 0, 2), scaled = choose("scaled", 0, 2);
    Eigen::Vector3d n = unit3("n"), p0 = vec3("p0"), x = p0 + input("range", 1e-3, 1e3) * unit3("dir");
    double d = input("d"), s = sg("sigma"), r0 = input("r0", 1e-3, 1e3);
    LandmarkVariable a(1, x); Val pa = create("LandmarkVariable", {1, Val(x)});
    PlaneVariable b(2, n, d); Val pb = create("PlaneVariable", {2, Val(n), d});
    if (scaled) {
        if (how == 2) skip();
        Made p = made("PlaneFactor", {{"id", 4}, {"point_var", pa}, {"plane_var", pb}, {"sigma", s}, {"do_distance_scaling", scaled == 2}, {"dist_scaling_r0", r0}, {"dist_scaling_p0", Val(p0)}}, 0, how);
        if (!p.ok) return;
        PlaneFactor f(4, &a, &b, s, scaled == 2, r0, p0);
        same_factor(p.f, f, {pa, pb});
        return;
    }
    Made p = made("PlaneFactor", {{"id", 4}, {"point_var", pa}, {"plane_var", pb}, {"sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { PlaneFactor f(4, &a, &b); same_factor(p.f, f, {pa, pb}); return; }
    PlaneFactor f(4, &a, &b, s);
    same_factor(p.f, f, {pa, pb});
}
CASE(plane_prior)
{
    int how = choose("how", 0, 2);
    Eigen::Vector3d n = unit3("n"), m = input("mlen", 1e-2, 1e2) * unit3("m");
    double d = input("d"), z = input("z"), sn = sg("sigma_n"), sd = sg("sigma_d");
    PlaneVariable b(2, n, d); Val pb = create("PlaneVariable", {2, Val(n), d});
    Made p = made("PlanePriorFactor", {{"id", 4}, {"plane", pb}, {"normal_prior", Val(m)}, {"distance_prior", z}, {"normal_sigma", sn}, {"distance_sigma", sd}}, 2, how);
    if (!p.ok) return;
    if (how == 2) { PlanePriorFactor f(4, &b, m, z); same_factor(p.f, f, {pb}); return; }
    PlanePriorFactor f(4, &b, m, z, sn, sd);
    same_factor(p.f, f, {pb});
}
static Eigen::Vector2d seen_from(const Eigen::Vector3d& x) { double a = input("dir", -3.0, 3.0), r = input("range", 1e-2, 1e3); return Eigen::Vector2d(x.x() + r * std::cos(a), x.y() + r * std::sin(a)); }
CASE(bearing_2d)
{
    int how = choose("how", 0, 2);
    Eigen::Vector3d x = planar("x"); Eigen::Vector2d l = seen_from(x);
    Pose2DVariable a(1, x); Val pa = create("Pose2DVariable", {1, Val(x)});
    GenericVariable b(2, l); Val pb = create("GenericVariable", {2, Val(l)});
    double z = input("z", -3.0, 3.0), s = sg("sigma");
    Made p = made("BearingObservationFactor2D", {{"id", 4}, {"pose_var", pa}, {"landmark_var", pb}, {"bearing_angle_obs", z}, {"angle_sigma", s}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { BearingObservationFactor2D f(4, &a, &b, z); same_factor(p.f, f, {pa, pb}); return; }
    BearingObservationFactor2D f(4, &a, &b, z, s);
    same_factor(p.f, f, {pa, pb});
    eq("bearing_angle_obs", call(p.f, "bearing_angle_obs"), f.bearing_angle_obs());
}
CASE(range_bearing_2d)
{
    int how = choose("how", 0, 2);
    Eigen::Vector3d x = planar("x"); Eigen::Vector2d l = seen_from(x);
    Pose2DVariable a(1, x); Val pa = create("Pose2DVariable", {1, Val(x)});
    GenericVariable b(2, l); Val pb = create("GenericVariable", {2, Val(l)});
    double r = input("r", 0.0, 1e3), z = input("z", -3.0, 3.0), sr = sg("sigma_r"), sb = sg("sigma_b");
    Made p = made("RangeBearingFactor2D", {{"id", 4}, {"pose_var", pa}, {"landmark_var", pb}, {"range_obs", r}, {"bearing_angle_obs", z}, {"range_sigma", sr}, {"bearing_sigma", sb}}, 2, how);
    if (!p.ok) return;
    if (how == 2) { RangeBearingFactor2D f(4, &a, &b, r, z); same_factor(p.f, f, {pa, pb}); return; }
    RangeBearingFactor2D f(4, &a, &b, r, z, sr, sb);
    same_factor(p.f, f, {pa, pb});
    eq("range_obs", call(p.f, "range_obs"), f.range_obs()); eq("bearing_angle_obs", call(p.f, "bearing_angle_obs"), f.bearing_angle_obs());
}
CASE(pose_2d_prior)
{
    int how = choose("how", 0, 1);
    Eigen::Vector3d x = planar("x"), z = planar("z");
    Pose2DVariable a(1, x); Val pa = create("Pose2DVariable", {1, Val(x)});
    double sp = sg("sigma_p"), sa = sg("sigma_a");
    Made p = made("Pose2DPriorFactor", {{"id", 4}, {"pose_var", pa}, {"pose_prior", Val(z)}, {"position_sigma", sp}, {"angle_sigma", sa}}, 0, how);
    if (!p.ok) return;
    Pose2DPriorFactor f(4, &a, z, sp, sa);
    same_factor(p.f, f, {pa});
}
CASE(pose_2d_between)
{
    int how = choose("how", 0, 2);
    bool local = choose("local", 0, 1) != 0;
    Eigen::Vector3d x = planar("x"), y = planar("y"), z = planar("z");
    Pose2DVariable a(1, x), b(2, y); Val pa = create("Pose2DVariable", {1, Val(x)}), pb = create("Pose2DVariable", {2, Val(y)});
    GenericVariable m(3, z); Val pm = create("GenericVariable", {3, Val(z)});
    double sp = sg("sigma_p"), sa = sg("sigma_a");
    Made p = made("Pose2DBetweenFactor", {{"id", 4}, {"pose_a", pa}, {"pose_b", pb}, {"measured_between_variable", pm}, {"position_sigma", sp}, {"angle_sigma", sa}, {"local_frame", local}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { Pose2DBetweenFactor f(4, &a, &b, &m, sp, sa); same_factor(p.f, f, {pa, pb, pm}); return; }
    Pose2DBetweenFactor f(4, &a, &b, &m, sp, sa, local);
    same_factor(p.f, f, {pa, pb, pm});
}
CASE(coordinate_transform)
{
    int how = choose("how", 0, 2);
    Eigen::Matrix3d R = rotmat("rot");
    RotationVariable r(1, R); Val pr = create("RotationVariable", {1, Val(R)});
    GenericVariable o(2, vec3("o")), s(3, vecn("s", 1)); Val po = create("GenericVariable", {2, Val(vec3("o"))}), ps = create("GenericVariable", {3, Val(vecn("s", 1))});
    LandmarkVariable a(4, vec3("a")), b(5, vec3("b")); Val pa = create("LandmarkVariable", {4, Val(vec3("a"))}), pb = create("LandmarkVariable", {5, Val(vec3("b"))});
    double g = sg("sigma");
    Made p = made("CoordinateTransformFactor", {{"id", 6}, {"rot_AB", pr}, {"B_origin_A", po}, {"scale_AB", ps}, {"lm_A", pa}, {"lm_B", pb}, {"sigma", g}}, 1, how);
    if (!p.ok) return;
    if (how == 2) { CoordinateTransformFactor f(6, &r, &o, &s, &a, &b); same_factor(p.f, f, {pr, po, ps, pa, pb}); return; }
    CoordinateTransformFactor f(6, &r, &o, &s, &a, &b, g);
    same_factor(p.f, f, {pr, po, ps, pa, pb});
    eq("weight", call(p.f, "weight"), f.weight());
}
// ---- graph ----
struct Both
{
    std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
    std::shared_ptr<Pose2DVariable> a; std::shared_ptr<GenericVariable> b;
    Val pg, pa, pb;
    std::vector<Val> pf;
    Both()
    {
        pg = create("FactorGraph", {});
        Eigen::Vector3d x = planar("a"), z = planar("z");
        a = std::make_shared<Pose2DVariable>(11, x); pa = create("Pose2DVariable", {11, Val(x)});
        b = std::make_shared<GenericVariable>(7, vec2("b")); pb = create("GenericVariable", {7, Val(vec2("b"))});
        g->add_variable(a); g->add_variable(b);
        call(pg, "add_variable", {pa}); call(pg, "add_variable", {pb});
        add(std::make_shared<GenericPriorFactor>(5, b.get(), vec2("zb"), 0.5), create("GenericPriorFactor", {5, pb, Val(vec2("zb")), 0.5}));
        add(std::make_shared<Pose2DPriorFactor>(3, a.get(), z, 0.25, 2.0), create("Pose2DPriorFactor", {3, pa, Val(z), 0.25, 2.0}));
    }
    void add(const std::shared_ptr<Factor>& c, const Val& p) { g->add_factor(c); call(pg, "add_factor", {p}); pf.push_back(p); }
};
static void same_graph(const std::string& n, Both& t)
{
    same_variable(n + " a", t.pa, *t.a); same_variable(n + " b", t.pb, *t.b);
    eqm(n + " values", call(t.pg, "get_variable_vector"), t.g->get_variable_vector());
    eqm(n + " residual", call(t.pg, "compute_full_residual_vector"), t.g->compute_full_residual_vector());
    eqm(n + " Jacobian", call(t.pg, "compute_full_jacobian_matrix"), t.g->compute_full_jacobian_matrix());
    eqm(n + " sparse Jacobian", call(t.pg, "compute_sparse_jacobian_matrix"), Eigen::MatrixXd(t.g->compute_sparse_jacobian_matrix()));
    eqi(n + " variables", call(t.pg, "num_variables"), t.g->num_variables());
    eqi(n + " values", call(t.pg, "num_values"), t.g->num_values());
    eqi(n + " residuals", call(t.pg, "num_residuals"), t.g->num_residuals());
}
CASE(graph)
{
    Both t;
    int constant = choose("constant", 0, 2);
    if (constant == 1) { t.a->set_constant(true); call(t.pa, "set_constant", {true}); }
    if (constant == 2) { t.b->set_constant(true); call(t.pb, "set_constant", {true}); }
    call(t.pg, "finalize_structure"); t.g->finalize_structure();
    same_graph("fresh", t);
    eqb("no Jacobian and residual yet", call(t.pg, "jacobian_valid"), t.g->jacobian_valid());
    call(t.pg, "compute_full_jacobian_and_residual"); t.g->compute_full_jacobian_and_residual();
    eqb("Jacobian valid", call(t.pg, "jacobian_valid"), t.g->jacobian_valid()); eqb("residual valid", call(t.pg, "residual_valid"), t.g->residual_valid());
    eqm("jacobian()", call(t.pg, "jacobian"), t.g->jacobian()); eqm("residual()", call(t.pg, "residual"), t.g->residual());
    eqm("sparse_jacobian()", call(t.pg, "sparse_jacobian"), Eigen::MatrixXd(t.g->sparse_jacobian()));
    int n = t.g->num_values();
    Eigen::VectorXd dx(n);
    for (int i = 0; i < n; ++i) dx[i] = input("dx." + std::to_string(i), -1e-3, 1e-3);
    call(t.pg, "apply_increment", {Val(dx)}); t.g->apply_increment(dx);
    same_graph("moved", t);
    Eigen::VectorXd x(n);
    for (int i = 0; i < n; ++i) x[i] = input("x." + std::to_string(i), -3.0, 3.0);
    call(t.pg, "set_variable_values_from_vector", {Val(x)}); t.g->set_variable_values_from_vector(x);
    same_graph("set", t);
    Val v = call(t.pg, "get_all_variables"), f = call(t.pg, "get_all_factors");
    require_true("all variables", v.k == LIST && v.items.size() == 2 && v.items[0].obj.get() == t.pa.obj.get() && v.items[1].obj.get() == t.pb.obj.get());
    require_true("all factors", f.k == LIST && f.items.size() == 2 && f.items[0].obj.get() == t.pf[0].obj.get() && f.items[1].obj.get() == t.pf[1].obj.get());
    require_true("a variable by identifier", call(t.pg, "get_variable", {7}).obj.get() == t.pb.obj.get() && call(t.pg, "get_variable", {11}).obj.get() == t.pa.obj.get());
    require_true("no variable for an unknown identifier", call(t.pg, "get_variable", {12}).k == NONE);
}
CASE(graph_errors)
{
    Both t;
    // premature calls, duplicates and wrong sizes raise, and leave the graph as it was
    for (const char *m : {"compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "compute_full_jacobian_and_residual", "jacobian", "residual", "sparse_jacobian", "print_structure"})
        require_true(std::string(m) + " before finalisation raises", library_error([&] { call(t.pg, m); }));
    require_true("an increment before finalisation raises", library_error([&] { call(t.pg, "apply_increment", {Val(vecn("q", 5))}); }));
    require_true("a used variable identifier raises", library_error([&] { call(t.pg, "add_variable", {create("GenericVariable", {11, Val(vecn("q", 2))})}); }));
    require_true("a used factor identifier raises", library_error([&] { call(t.pg, "add_factor", {create("GenericPriorFactor", {3, t.pb, Val(vec2("zb"))})}); }));
    require_true("a factor is no variable", type_error([&] { call(t.pg, "add_variable", {t.pf[0]}); }));
    require_true("a variable is no factor", type_error([&] { call(t.pg, "add_factor", {t.pa}); }));
    require_true("a number is no identifier", type_error([&] { create("GenericVariable", {1.5, Val(vec2("zb"))}); }));
    require_true("a landmark is no pose", type_error([&] { create("PosePositionPriorFactor", {8, create("LandmarkVariable", {9, Val(vec3("q"))}), Val(vec3("q")), 1.0}); }));
    require_true("an empty generic variable raises", library_error([&] { create("GenericVariable", {1, Val(Eigen::VectorXd(0))}); }));
    require_true("an unknown keyword is refused", type_error([&] { create("GenericVariable", {}, {{"id", 1}, {"value", Val(vec2("zb"))}}); }));
    call(t.pg, "finalize_structure"); t.g->finalize_structure();
    require_true("an increment of another size raises", library_error([&] { call(t.pg, "apply_increment", {Val(vecn("q", 4))}); }));
    require_true("values of another size raise", library_error([&] { call(t.pg, "set_variable_values_from_vector", {Val(vecn("q", 6))}); }));
    same_graph("after the errors", t);
}
CASE(underdetermined)
{
    Val g = create("FactorGraph", {}), x = create("GenericVariable", {1, Val(vec3("x"))}), y = create("GenericVariable", {2, Val(vec2("y"))});
    call(g, "add_variable", {x});
    call(g, "add_variable", {y});
    call(g, "add_factor", {create("GenericPriorFactor", {1, x, Val(vec3("z")), 1.0})});
    require_true("too few residuals raise", library_error([&] { call(g, "finalize_structure"); }));
}
CASE(self_test)
{
    Both t;
    call(t.pg, "finalize_structure"); t.g->finalize_structure();
    assume_lt(std::cos(3.14), std::cos(t.a->theta() - input("z.t", -3.0, 3.0)));
    int how = choose("how", 0, 2);
    double tol = 0.1;
    Val r = how == 0 ? call(t.pg, "detailed_factor_test", {tol}) : how == 1 ? call(t.pg, "detailed_factor_test", {}, {{"jacobian_tol", tol}, {"verbose", false}}) : call(t.pg, "detailed_factor_test", {tol, false});
    require_true("a verdict", r.k == BOOL);
}
// ---- optimizer ----
CASE(settings)
{
    Val s = create("OptimizerSettings", {});
    std::shared_ptr<OptimizerSettings> c = unwrap<OptimizerSettings>(s);
    OptimizerSettings d;
    require_true("default method", py_name(get(s, "method")) == "GaussNewton" && d.method == OptimizerMethod::GaussNewton);
    eqi("default iterations", get(s, "max_num_iterations"), (long)d.max_num_iterations);
    eqb("default verbosity", get(s, "verbose"), d.verbose); eqb("default rank check", get(s, "check_rank_deficiency"), d.check_rank_deficiency);
    double v[7];
    for (int k = 0; k < 7; ++k) v[k] = input("v" + std::to_string(k));
    const char *nm[7] = {"step_tolerance", "residual_tolerance", "initial_lambda", "max_lambda", "lambda_up_factor", "lambda_down_factor", "learning_rate"};
    double dv[7] = {d.step_tolerance, d.residual_tolerance, d.initial_lambda, d.max_lambda, d.lambda_up_factor, d.lambda_down_factor, d.learning_rate};
    for (int k = 0; k < 7; ++k) eq(std::string("default ") + nm[k], get(s, nm[k]), dv[k]);
    for (int k = 0; k < 7; ++k) set(s, nm[k], v[k]);
    set(s, "method", enumerator("OptimizerMethod", "LevenbergMarquardt")); set(s, "max_num_iterations", 17); set(s, "verbose", true); set(s, "check_rank_deficiency", true);
    double w[7] = {c->step_tolerance, c->residual_tolerance, c->initial_lambda, c->max_lambda, c->lambda_up_factor, c->lambda_down_factor, c->learning_rate};
    for (int k = 0; k < 7; ++k) { require_eq(std::string("written ") + nm[k], w[k], v[k]); eq(std::string("read back ") + nm[k], get(s, nm[k]), v[k]); }
    require_true("written method and counts", c->method == OptimizerMethod::LevenbergMarquardt && c->max_num_iterations == 17 && c->verbose && c->check_rank_deficiency);
    require_true("a negative count is refused", type_error([&] { set(s, "max_num_iterations", -1); }));
}
CASE(statistics)
{
    Val s = create("OptimizerStats", {});
    std::shared_ptr<OptimizerStats> c = unwrap<OptimizerStats>(s);
    double v[4];
    for (int k = 0; k < 4; ++k) v[k] = input("v" + std::to_string(k));
    c->valid = true; c->status = OptimizerStatus::ILL_CONDITIONED; c->chi2 = v[0]; c->delta_norm = v[1]; c->residual_norm = v[2]; c->current_iteration = 5; c->rank = 7; c->damping_parameter = v[3];
    eqb("valid", get(s, "valid"), true); require_true("status", py_name(get(s, "status")) == "ILL_CONDITIONED");
    eq("chi2", get(s, "chi2"), v[0]); eq("delta_norm", get(s, "delta_norm"), v[1]); eq("residual_norm", get(s, "residual_norm"), v[2]);
    eqi("current_iteration", get(s, "current_iteration"), 5); eqi("rank", get(s, "rank"), 7); eq("damping_parameter", get(s, "damping_parameter"), v[3]);
}
static void same_stats(const std::string& n, const Val& p, const OptimizerStats& c)
{
    static const std::map<OptimizerStatus, std::string> names = {{OptimizerStatus::SUCCESS, "SUCCESS"}, {OptimizerStatus::RUNNING, "RUNNING"}, {OptimizerStatus::SINGULAR_HESSIAN, "SINGULAR_HESSIAN"}, {OptimizerStatus::ILL_CONDITIONED, "ILL_CONDITIONED"}, {OptimizerStatus::DIVERGED, "DIVERGED"}, {OptimizerStatus::FAILED, "FAILED"}};
    eqb(n + " valid", get(p, "valid"), c.valid);
    require_true(n + " status", py_name(get(p, "status")) == names.at(c.status));
    eq(n + " chi2", get(p, "chi2"), c.chi2); eq(n + " delta_norm", get(p, "delta_norm"), c.delta_norm); eq(n + " residual_norm", get(p, "residual_norm"), c.residual_norm);
    eqi(n + " iteration", get(p, "current_iteration"), c.current_iteration); eqi(n + " rank", get(p, "rank"), c.rank); eq(n + " damping", get(p, "damping_parameter"), c.damping_parameter);
}
CASE(optimizer)
{
    bool lm = choose("method", 0, 1) != 0;
    double x0 = input("x", -5.0, 5.0), z = input("z", 6.0, 10.0);
    auto g = std::make_shared<FactorGraph>();
    auto x = std::make_shared<GenericVariable>(1, Eigen::VectorXd(Eigen::VectorXd::Constant(1, x0)));
    auto k = std::make_shared<GenericVariable>(2, Eigen::VectorXd(Eigen::VectorXd::Constant(1, z)));
    k->set_constant(true);
    g->add_variable(x); g->add_variable(k);
    g->add_factor(std::make_shared<GenericPriorFactor>(1, x.get(), Eigen::VectorXd(Eigen::VectorXd::Constant(1, z)), 0.5));
    g->finalize_structure();
    OptimizerSettings s; s.max_num_iterations = 1; s.initial_lambda = 0.25; s.learning_rate = 0.5;
    if (lm) s.method = OptimizerMethod::LevenbergMarquardt;
    Val pg = create("FactorGraph", {}), px = create("GenericVariable", {1, Val(Eigen::VectorXd(Eigen::VectorXd::Constant(1, x0)))}), pk = create("GenericVariable", {2, Val(Eigen::VectorXd(Eigen::VectorXd::Constant(1, z)))});
    call(pk, "set_constant", {true});
    call(pg, "add_variable", {px}); call(pg, "add_variable", {pk});
    call(pg, "add_factor", {create("GenericPriorFactor", {1, px, Val(Eigen::VectorXd(Eigen::VectorXd::Constant(1, z))), 0.5})});
    call(pg, "finalize_structure");
    Val ps = create("OptimizerSettings", {}), po = create("SparseOptimizer", {});
    set(ps, "max_num_iterations", 1); set(ps, "initial_lambda", 0.25); set(ps, "learning_rate", 0.5);
    if (lm) set(ps, "method", enumerator("OptimizerMethod", "LevenbergMarquardt"));
    require_true("a run without a graph raises", library_error([&] { call(po, "optimize"); }));
    SparseOptimizer o;
    o.setup(g, s); call(po, "setup", {pg, ps});
    eqi("settings kept", get(call(po, "settings"), "max_num_iterations"), 1);
    Val none = call(po, "estimate_covariance", {px});
    require_true("no covariance before a run", none.k == LIST && none.items.size() == 2 && none.items[1].k == BOOL && none.items[1].i == 0);
    o.optimize(); call(po, "optimize");
    same_variable("after the run", px, *x);
    same_stats("final", get(po, "current_stats"), o.current_stats_);
    same_stats("initial", get(po, "initial_stats"), o.initial_stats_);
    o.prepare_to_estimate_covariances(); call(po, "prepare_to_estimate_covariances");
    bool ok = false;
    Eigen::MatrixXd P = o.estimate_covariance(x.get(), ok);
    Val c = choose("keyword", 0, 1) ? call(po, "estimate_covariance", {}, {{"variable", px}}) : call(po, "estimate_covariance", {px});
    require_true("covariance and validity", c.k == LIST && c.items.size() == 2);
    if (c.k == LIST && c.items.size() == 2) { eqb("validity", c.items[1], ok); eqm("covariance", c.items[0], P); }
    Val d = call(po, "estimate_covariance", {pk});
    require_true("none for a constant", d.k == LIST && d.items.size() == 2 && d.items[1].k == BOOL && d.items[1].i == 0);
}
CASE(enumerations)
{
    load_modules();
    for (const char *e : {"VariableType", "FactorType", "OptimizerMethod", "OptimizerStatus"}) {
        std::set<std::string> names; std::set<long> values;
        for (auto& p : registry().enums[e].values) { names.insert(p.first); values.insert(p.second); }
        require_true(std::string(e) + " has distinct names for distinct values", !names.empty() && names.size() == registry().enums[e].values.size() && values.size() == names.size());
    }
    for (auto& p : registry().enums["VariableType"].values) require_true("VariableType." + p.first, p.second >= 0 && p.second < VariableType::num_variable_types && p.first == VariableType::variable_names[p.second]);
    for (auto& p : registry().enums["FactorType"].values) require_true("FactorType." + p.first, p.second >= 0 && p.second < FactorType::num_factor_types && p.first == FactorType::factor_names[p.second]);
    require_true("methods", enumerator("OptimizerMethod", "GaussNewton").i == (long)OptimizerMethod::GaussNewton && enumerator("OptimizerMethod", "LevenbergMarquardt").i == (long)OptimizerMethod::LevenbergMarquardt);
    require_true("SUCCESS", enumerator("OptimizerStatus", "SUCCESS").i == (long)OptimizerStatus::SUCCESS); require_true("RUNNING", enumerator("OptimizerStatus", "RUNNING").i == (long)OptimizerStatus::RUNNING);
    require_true("SINGULAR_HESSIAN", enumerator("OptimizerStatus", "SINGULAR_HESSIAN").i == (long)OptimizerStatus::SINGULAR_HESSIAN); require_true("ILL_CONDITIONED", enumerator("OptimizerStatus", "ILL_CONDITIONED").i == (long)OptimizerStatus::ILL_CONDITIONED);
    require_true("DIVERGED", enumerator("OptimizerStatus", "DIVERGED").i == (long)OptimizerStatus::DIVERGED); require_true("FAILED", enumerator("OptimizerStatus", "FAILED").i == (long)OptimizerStatus::FAILED);
}
CASE(rotations)
{
    Eigen::Vector3d w = rotvec("w");
    eqm("exponential", choose("keyword", 0, 1) ? function("ExpMapSO3", {}, {{"omega", Val(w)}}) : function("ExpMapSO3", {Val(w)}), ExpMapSO3(w));
    Eigen::Matrix3d R = rotmat("w");
    eqm("logarithm", choose("keyword2", 0, 1) ? function("LogMapSO3", {}, {{"R", Val(R)}}) : function("LogMapSO3", {Val(R)}), LogMapSO3(R));
}
