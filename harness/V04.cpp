// encodes: PoseVariable, RotationVariable, Pose2DVariable, PlaneVariable, LandmarkVariable, GenericVariable, InverseRangeVariable (constructors, copy, clone, value, set_value_from_vector, apply_increment, set_constant and every accessor)
// encodes: ExpMapSO3, LogMapSO3, PoseVariable::recompute_dcm_CW, InverseRangeVariable::clip_inverse_range, Pose2DVariable::wrap_angle
// bounds: one or two successive increments before the restore and between the reads; rotation angles in [1e-3, pi - 2e-3] (increments [2e-3, 6]); headings in [-pi, pi], heading increments in [-20, 20]; plane vectors longer than 1e-3; generic vectors of length 1 to 3; inverse range with default or user-set limits; both values of the constant flag
// assumes: an orientation reached by an increment, proved equal to exp(increment) times the old one (V01), is treated as an arbitrary rotation
#include "observe.hpp"

static const double PI_ = 3.14159265358979323846;
template <class V> V *down(const std::shared_ptr<Variable>& p) { return dynamic_cast<V *>(p.get()); }

// value read, `steps` increments, value written back
template <class V> void restored(V& v, const std::vector<Eigen::VectorXd>& steps)
{
    Variable& b = v;
    Obs before = observe(v);
    Meta m = meta(v);
    Eigen::VectorXd saved = b.value();
    require_unchanged("reading changes nothing", observe(v), before);
    for (size_t k = 0; k < steps.size(); ++k) b.apply_increment(steps[k]);
    b.set_value_from_vector(saved);
    require_same("restored", observe(v), before);
    require_true("restored identity", meta(v) == m);
}
// the source and its clone, each changed in turn
template <class V> void cloned(V& v, const Eigen::VectorXd& dx, const Eigen::VectorXd& other)
{
    bool flag = choose("constant", 0, 1) == 1;
    v.set_constant(flag);
    Obs before = observe(v);
    Meta m = meta(v);
    std::shared_ptr<Variable> p = v.clone();
    V *c = down<V>(p);
    if (!c || c == &v) { require_true("a new variable of the same kind", false); return; }
    require_true("clone has the same identity", meta(*c) == m);
    require_unchanged("clone equals its source", observe(*c), before);
    require_unchanged("cloning changes nothing", observe(v), before);
    require_true("cloning keeps the identity", meta(v) == m);
    p->apply_increment(dx);
    Obs moved = observe(*c);
    require_unchanged("source after an increment of the clone", observe(v), before);
    v.apply_increment(dx);
    require_same("source incremented alike", observe(v), moved);
    require_unchanged("clone after an increment of the source", observe(*c), moved);
    p->set_value_from_vector(other);
    p->set_constant(!flag);
    Obs reset = observe(*c);
    require_true("source keeps its flag", v.is_constant() == flag);
    require_same("source after the clone was set", observe(v), moved);
    v.set_value_from_vector(other);
    require_same("source set alike", observe(v), reset);
    require_unchanged("clone after the source was set", observe(*c), reset);
    require_true("clone keeps its flag", c->is_constant() == !flag);
}
static void arbitrary(const std::string& nm, const Eigen::Matrix3d& E)
{
    double tr = E(0, 0) + E(1, 1) + E(2, 2);          // 1 + 2 cos(angle)
    assume_lt(tr, 1.0 + 2.0 * std::cos(1e-3));
    assume_lt(1.0 + 2.0 * std::cos(3.14159265358979 - 2e-3), tr);
    cut_rotation(nm, E);
}
static Eigen::VectorXd dyn(const Eigen::VectorXd& v) { return v; }

CASE(pose_restored)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    PoseVariable x(7, posevec(vec3("p"), rotvec("rot")));
    restored(x, {dyn(posevec(vec3("dp"), rotvec("inc", 1e-3, 3.0)))});
}
// the value that is written back was itself reached by an increment
CASE(pose_restored_later)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    PoseVariable x(7, posevec(vec3("p"), rotvec("rot")));
    x.apply_increment(posevec(vec3("dp"), rotvec("inc", 1e-3, 3.0)));
    restored(x, {dyn(posevec(vec3("dq"), Eigen::Vector3d::Zero()))});
}
CASE(pose_matrix_restored)
{
    Eigen::Matrix3d R = rotmat("rot");
    if (signs(unit3("rot.axis")) > 7) skip();
    PoseVariable x(7, vec3("p"), R);
    restored(x, {dyn(posevec(vec3("dp"), Eigen::Vector3d::Zero()))});
}
CASE(pose_cloned)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    PoseVariable x(7, posevec(vec3("p"), rotvec("rot")));
    cloned(x, posevec(vec3("dp"), rotvec("inc", 1e-3, 3.0)), posevec(vec3("q"), rotvec("other")));
}
CASE(rotation_restored)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    RotationVariable x(7, R);
    restored(x, {dyn(rotvec("inc", 1e-3, 3.0))});
}
CASE(rotation_restored_later)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    RotationVariable x(7, R);
    x.apply_increment(rotvec("inc", 1e-3, 3.0));
    restored(x, {dyn(Eigen::Vector3d::Zero())});
}
CASE(rotation_cloned)
{
    Eigen::Matrix3d R = rotmat("rot"), D = rotmat("inc", 1e-3, 3.0), E = D * R;
    alias_all(R); alias_all(D);
    arbitrary("E", E);
    RotationVariable x(7, R);
    cloned(x, rotvec("inc", 1e-3, 3.0), rotvec("other"));
}
static Eigen::VectorXd heading(const std::string& n, double lim)
{
    Eigen::Vector2d p = vec2(n);
    return dyn(Eigen::Vector3d(p.x(), p.y(), input(n + ".theta", -lim, lim)));
}
CASE(pose2d)
{
    Pose2DVariable x(7, heading("x", PI_));
    std::vector<Eigen::VectorXd> steps(1, heading("d1", 20.0));
    if (choose("steps", 1, 2) == 2) steps.push_back(heading("d2", PI_));
    restored(x, steps);
}
CASE(pose2d_cloned)
{
    Pose2DVariable x(7, heading("x", PI_));
    cloned(x, heading("d", 20.0), heading("o", PI_));
}
static Eigen::VectorXd plane(const std::string& n)
{
    Eigen::VectorXd v = vecn(n, 4);
    return v;
}
static void longer(const Eigen::Vector3d& n) { assume_lt(1e-6, n.dot(n)); }
CASE(plane_restored)
{
    Eigen::Vector3d n = vec3("n");
    longer(n);
    PlaneVariable x(7, n, input("d"));
    Eigen::VectorXd dx = plane("dx");
    longer(n / std::sqrt(n.dot(n)) + dx.head<3>());
    restored(x, {dx});
}
CASE(plane_cloned)
{
    Eigen::Vector3d n = unit3("n");
    PlaneVariable x(7, n, input("d"));
    Eigen::VectorXd dx = plane("dx"), o = plane("o");
    longer(n + dx.head<3>());
    longer(o.head<3>());
    cloned(x, dx, o);
}
CASE(landmark)
{
    LandmarkVariable x(7, vec3("x"));
    if (choose("what", 0, 1) == 0) restored(x, {dyn(vec3("d1")), dyn(vec3("d2"))});
    else cloned(x, dyn(vec3("d1")), dyn(vec3("o")));
}
CASE(generic)
{
    int n = choose("n", 1, 3);
    GenericVariable x(7, vecn("x", n));
    if (choose("what", 0, 1) == 0) restored(x, {vecn("d1", n), vecn("d2", n)});
    else cloned(x, vecn("d1", n), vecn("o", n));
}
static Eigen::VectorXd one(const std::string& n) { return vecn(n, 1); }
CASE(inverse_range)
{
    InverseRangeVariable x(7, vec3("o"), unit3("b"), input("range", 1e-8, 1e8));
    if (choose("limits", 0, 1) == 1) {
        double lo = input("lo"), hi = input("hi");
        assume_le(1e-8, lo); assume_le(lo, hi);
        x.minimum_inverse_range_ = lo; x.maximum_inverse_range_ = hi;
        x.set_value_from_vector(one("x"));
    }
    int what = choose("what", 0, 2);
    if (what == 0) restored(x, {one("d1")});
    else if (what == 1) restored(x, {one("d1"), one("d2")});
    else cloned(x, one("d1"), one("o"));
}
