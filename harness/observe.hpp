// Everything a user can read from a variable
#pragma once
#include "common.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/rotation_variable.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_variable.hpp"

typedef std::vector<double> Obs;
inline void put(Obs& o, double x) { o.push_back(x); }
template <class A> void put_all(Obs& o, const Eigen::MatrixBase<A>& m)
{
    for (int j = 0; j < (int)m.cols(); ++j) for (int i = 0; i < (int)m.rows(); ++i) o.push_back(double(m.derived().coeff(i, j)));
}
// everything a user can read from the variable beyond its value vector
inline void extra(Obs& o, const PoseVariable& v) { put_all(o, v.pos_W()); put_all(o, v.rot_CW()); put_all(o, v.dcm_CW()); }
inline void extra(Obs& o, const RotationVariable& v) { put_all(o, v.rotation()); put_all(o, const_cast<RotationVariable&>(v).dcm_AB()); }
inline void extra(Obs& o, const Pose2DVariable& v) { put_all(o, v.pos_2d()); put(o, v.theta()); put_all(o, v.dcm_2d()); }
inline void extra(Obs& o, const PlaneVariable& v) { put_all(o, v.unit_vector()); put(o, v.distance_from_origin()); put(o, v.distance_from_point(Eigen::Vector3d(1.0, -2.0, 0.5))); }
inline void extra(Obs& o, const LandmarkVariable& v) { put_all(o, v.pos_W()); }
inline void extra(Obs&, const GenericVariable&) {}
inline void extra(Obs& o, const InverseRangeVariable& v)
{
    put(o, v.inverse_range()); put_all(o, v.pos_W()); put_all(o, v.origin_pos_W()); put_all(o, v.bearing_W());
    put(o, v.minimum_inverse_range_); put(o, v.maximum_inverse_range_);
}
template <class V> Obs observe(const V& v) { Obs o; put_all(o, v.value()); extra(o, v); return o; }
struct Meta { int id, size, type; bool constant; std::string name; };
inline Meta meta(const Variable& v) { Meta m; m.id = v.id(); m.size = v.size(); m.type = int(v.type()); m.constant = v.is_constant(); m.name = v.name(); return m; }
inline bool operator==(const Meta& a, const Meta& b) { return a.id == b.id && a.size == b.size && a.type == b.type && a.constant == b.constant && a.name == b.name; }

inline void require_same(const std::string& nm, const Obs& a, const Obs& b)
{
    if (a.size() != b.size()) { require_true(nm + " has as many observables", false); return; }
    for (size_t i = 0; i < a.size(); ++i) require_eq(nm + " " + std::to_string(i), a[i], b[i]);
}
inline void require_unchanged(const std::string& nm, const Obs& a, const Obs& b)
{
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); ++i) ok = same_bits(a[i], b[i]);
    require_true(nm, ok);
}
