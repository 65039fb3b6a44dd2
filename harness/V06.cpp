// encodes: PoseVariable, RotationVariable, Pose2DVariable, PlaneVariable, LandmarkVariable, GenericVariable, InverseRangeVariable (set_value_from_vector, apply_increment, value, size, clone and every accessor)
// bounds: every vector length from 0 to twice the variable's size plus one, entries unbounded; histories of two refused calls (the second with an empty or the longest vector) followed by a well-formed one, on the variable or on a clone of it; both values of the constant flag; generic vectors of length 1 to 3; rotation angles in [1e-3, pi - 2e-3]
// assumes: the vectors passed are finite real vectors
#include "observe.hpp"

// a variable, its twin that is never offered a vector of a wrong length, and a well-formed value and increment
template <class V> void lengths(V& v, V& twin, const Eigen::VectorXd& x, const Eigen::VectorXd& dx)
{
    int n = v.size();
    require_true("value has the declared size", (int)v.value().size() == n);
    if (choose("constant", 0, 1) == 1) { v.set_constant(true); twin.set_constant(true); }
    std::shared_ptr<Variable> p;
    Variable *b = &v;
    if (choose("cloned", 0, 1) == 1) { p = v.clone(); b = p.get(); }
    V *d = dynamic_cast<V *>(b);
    if (!d) { require_true("a clone of the same kind", false); return; }
    Obs before = observe(*d);
    Meta m = meta(*d);
    for (int k = 0; k < 2; ++k) {
        std::string nm = "call " + std::to_string(k);
        std::string c = "c" + std::to_string(k);
        int len = k == 0 ? choose(c + ".length", 0, 2 * n + 1) : (2 * n + 1) * choose(c + ".length", 0, 1);
        if (len == n) skip();
        Eigen::VectorXd w = vecn(c, len);
        bool set = choose(c + ".set", 0, 1) == 1;
        bool ok = set ? refused([&] { b->set_value_from_vector(w); }) : refused([&] { b->apply_increment(w); });
        require_true(nm + (set ? " value refused" : " increment refused"), ok);
        if (!ok) return;
        require_true(nm + " size", b->size() == n && (int)b->value().size() == n);
        require_unchanged(nm + " leaves the variable as it was", observe(*d), before);
        require_true(nm + " leaves the identity", meta(*d) == m);
    }
    Variable& t = twin;
    if (choose("then", 0, 1) == 1) { b->set_value_from_vector(x); t.set_value_from_vector(x); }
    else { b->apply_increment(dx); t.apply_increment(dx); }
    require_same("works afterwards", observe(*d), observe(twin));
}
CASE(pose)
{
    Eigen::Matrix<double, 6, 1> p = posevec(vec3("p"), rotvec("rot"));
    PoseVariable x(7, p), y(7, p);
    lengths(x, y, posevec(vec3("q"), rotvec("other")), posevec(vec3("dp"), Eigen::Vector3d::Zero()));
}
CASE(rotation)
{
    Eigen::Matrix3d R = rotmat("rot");
    RotationVariable x(7, R), y(7, R);
    lengths(x, y, rotvec("other"), Eigen::Vector3d::Zero());
}
CASE(pose2d)
{
    Eigen::Vector3d p = vec3("p");
    Pose2DVariable x(7, p), y(7, p);
    lengths(x, y, vec3("q"), vec3("d"));
}
CASE(plane)
{
    Eigen::Vector3d n = unit3("n");
    double d = input("d");
    PlaneVariable x(7, n, d), y(7, n, d);
    Eigen::VectorXd o = vecn("o", 4), dx = vecn("dx", 4);
    double least = 1e-6;
    assume_lt(least, o.head<3>().squaredNorm());
    assume_lt(least, (n + dx.head<3>()).squaredNorm());
    lengths(x, y, o, dx);
}
CASE(landmark)
{
    Eigen::Vector3d p = vec3("p");
    LandmarkVariable x(7, p), y(7, p);
    lengths(x, y, vec3("q"), vec3("d"));
}
CASE(generic)
{
    int n = choose("n", 1, 3);
    Eigen::VectorXd p = vecn("p", n);
    GenericVariable x(7, p), y(7, p);
    lengths(x, y, vecn("q", n), vecn("d", n));
}
CASE(inverse_range)
{
    Eigen::Vector3d o = vec3("o"), u = unit3("b");
    double r = input("range", 1e-8, 1e8);
    InverseRangeVariable x(7, o, u, r), y(7, o, u, r);
    lengths(x, y, vecn("q", 1), vecn("d", 1));
}
