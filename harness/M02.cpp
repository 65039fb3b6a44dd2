// encodes: BearingObservationFactor2D, RangeBearingFactor2D, Pose2DPriorFactor, Pose2DBetweenFactor (constructors, both compute_residual, wrap_angle)
// encodes: Pose2DVariable (constructor, dcm_2d, wrap_angle)
// bounds: range in [1e-3, 1e3], sigmas in [1e-3, 1e3], headings and directions in [-3.14, 3.14], observed angles in [-20, 20]; positions and offsets unbounded
#include "common.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/generic_variable.hpp"

static double sigma(const std::string& n) { return input(n, 1e-3, 1e3); }
static double heading(const std::string& n) { return input(n, -3.14, 3.14); }
static void require_wrapped(const std::string& nm, double e, double want)
{
    require_le(nm + " is at most pi", e, M_PI);
    require_le(nm + " is at least -pi", -M_PI, e);
    require_eq(nm + " sine", std::sin(e), std::sin(want));
    require_eq(nm + " cosine", std::cos(e), std::cos(want));
}
CASE(bearing)
{
    double x = input("x"), y = input("y"), th = heading("theta"), phi = heading("phi"), z = input("z", -20.0, 20.0), rho = input("range", 1e-3, 1e3), s = sigma("sigma");
    Pose2DVariable pose(0, Eigen::Vector3d(x, y, th));
    GenericVariable lm(1, Eigen::Vector2d(x + rho * std::cos(phi), y + rho * std::sin(phi)));
    BearingObservationFactor2D f(2, &pose, &lm, z, s);
    Eigen::VectorXd r = residual(f);
    require_wrapped("angle", s * r[0], phi - th - z);
    require_residual("residual", f, r);
}
CASE(range_bearing)
{
    double x = input("x"), y = input("y"), th = heading("theta"), phi = heading("phi"), z = input("z", -20.0, 20.0), rho = input("range", 1e-3, 1e3);
    double sr = sigma("sigma_r"), sb = sigma("sigma_b"), zr = input("zrange", 0.0, 1e3);
    Pose2DVariable pose(0, Eigen::Vector3d(x, y, th));
    GenericVariable lm(1, Eigen::Vector2d(x + rho * std::cos(phi), y + rho * std::sin(phi)));
    RangeBearingFactor2D f(2, &pose, &lm, zr, z, sr, sb);
    Eigen::VectorXd r = residual(f);
    require_eq("range", r[0], (rho - zr) / sr);
    require_wrapped("angle", sb * r[1], phi - th - z);
    require_residual("residual", f, r);
}
CASE(prior)
{
    double th = heading("theta"), sp = sigma("sigma_p"), sa = sigma("sigma_a");
    Eigen::Vector2d p = vec2("p"), zp = vec2("zp");
    double z = input("z", -20.0, 20.0);
    Pose2DVariable pose(0, Eigen::Vector3d(p[0], p[1], th));
    Pose2DPriorFactor f(1, &pose, Eigen::Vector3d(zp[0], zp[1], z), sp, sa);
    Eigen::VectorXd r = residual(f);
    require_eq("position", r.head<2>(), Eigen::Vector2d((p - zp) / sp));
    require_wrapped("angle", sa * r[2], th - z);
    require_residual("residual", f, r);
}
CASE(between)
{
    bool local = choose("local", 0, 1) != 0;
    double ta = heading("theta_a"), tb = heading("theta_b"), sp = sigma("sigma_p"), sa = sigma("sigma_a");
    Eigen::Vector2d a = vec2("a"), b = vec2("b"), m = vec2("m"), d = b - a;
    double z = input("z", -20.0, 20.0);
    Pose2DVariable A(0, Eigen::Vector3d(a[0], a[1], ta)), B(1, Eigen::Vector3d(b[0], b[1], tb));
    GenericVariable M(2, Eigen::Vector3d(m[0], m[1], z));
    Pose2DBetweenFactor f(3, &A, &B, &M, sp, sa, local);
    Eigen::VectorXd r = residual(f);
    if (local) {
        // documented: the measured offset is expressed in the frame of pose a, whose axes are the columns of R(theta_a)
        double c = std::cos(ta), s = std::sin(ta);
        known("pose2d-between-local-frame", "local offset x", r[0], (c * d[0] - s * d[1] - m[0]) / sp);
        known("pose2d-between-local-frame", "local offset y", r[1], (s * d[0] + c * d[1] - m[1]) / sp);
        require_eq("local offset x", r[0], (c * d[0] + s * d[1] - m[0]) / sp);
        require_eq("local offset y", r[1], (-s * d[0] + c * d[1] - m[1]) / sp);
    } else require_eq("world offset", r.head<2>(), Eigen::Vector2d((d - m) / sp));
    require_wrapped("angle", sa * r[2], tb - ta - z);
    require_residual("residual", f, r);
}
