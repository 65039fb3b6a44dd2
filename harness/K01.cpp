// encodes: HuberKernel (apply_to_residual, apply_to_jacobians, delta) through its base class ResidualKernel
// bounds: residuals of size 1, 2 and 3 (thorough: 4), threshold 1e-3..1e3, norm of the residual at least 1e-6, 1 to 3 Jacobian blocks of 1 or 2 columns of which one may be empty; residual and Jacobian entries unbounded
#include "common.hpp"
#include "factorama/kernels.hpp"

static double sq(const Eigen::VectorXd& r) { double a = 0.0; for (int i = 0; i < (int)r.size(); ++i) a += r[i] * r[i]; return a; }
static void residual_of(int n)
{
    double delta = input("delta", 1e-3, 1e3);
    HuberKernel h(delta);
    ResidualKernel& k = h;
    Eigen::VectorXd r = vecn("r", n);
    assume_le(1e-12, sq(r));
    require_eq("threshold", h.delta(), delta);
    Eigen::VectorXd o = k.apply_to_residual(r);
    require_true("size", o.size() == n);
    if (sq(r) <= delta * delta) { require_eq("unchanged inside the threshold", o, r); return; }
    // same direction, squared norm delta |r|
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) require_eq("direction " + std::to_string(i) + std::to_string(j), o[i] * r[j], o[j] * r[i]);
    double dot = 0.0, s = sq(o);
    for (int i = 0; i < n; ++i) dot += o[i] * r[i];
    require_lt("same sense", 0.0, dot);
    require_eq("squared norm is threshold times norm", s, delta * std::sqrt(sq(r)));
    require_lt("down-weighted", s, sq(r));
    require_lt("not below the threshold", delta * delta, s);
}
CASE(residual_1) { residual_of(1); }
CASE(residual_2) { residual_of(2); }
CASE(residual_3) { residual_of(3); }
static Eigen::MatrixXd matn(const std::string& n, int r, int c)
{
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = input(n + std::to_string(i) + std::to_string(j));
    return m;
}
static void jacobians_of(int n)
{
    HuberKernel h(input("delta", 1e-3, 1e3));
    ResidualKernel& k = h;
    Eigen::VectorXd r = vecn("r", n);
    double delta = h.delta();
    assume_le(1e-12, sq(r));
    // the kernel's residual has no derivative exactly at the threshold
    if (sq(r) < delta * delta) { } else if (!(delta * delta < sq(r))) skip();
    int blocks = choose("blocks", 1, n == 2 ? 3 : 2), empty = choose("empty", -1, blocks - 1);
    Blocks J, K;
    for (int b = 0; b < blocks; ++b) J.push_back(b == empty ? Eigen::MatrixXd() : matn("J" + std::to_string(b) + "_", n, b == 1 ? 2 : 1));
    K = J;
    k.apply_to_jacobians(r, K);
    require_true("number of blocks", K.size() == J.size());
    for (int b = 0; b < blocks; ++b) {
        std::string nm = "block " + std::to_string(b);
        if (b == empty) { require_true("empty " + nm, K[b].size() == 0); continue; }
        require_true("shape of " + nm, K[b].rows() == J[b].rows() && K[b].cols() == J[b].cols());
        for (int c = 0; c < (int)J[b].cols(); ++c) {
            Eigen::VectorXd col = J[b].col(c);
            Eigen::VectorXd d = derivative([&](double t) { return k.apply_to_residual(Eigen::VectorXd(r + t * col)); });
            require_eq("d " + nm + " col " + std::to_string(c), K[b].col(c), d);
        }
    }
}
CASE(jacobians_1) { jacobians_of(1); }
CASE(jacobians_2) { jacobians_of(2); }
CASE(jacobians_3) { jacobians_of(3); }
#ifdef VERIF_THOROUGH
CASE(residual_4) { residual_of(4); }
CASE(jacobians_4) { jacobians_of(4); }
#endif
CASE(zero)
{
    int n = choose("size", 1, 3);
    HuberKernel h(input("delta", 1e-3, 1e3));
    Eigen::VectorXd r = Eigen::VectorXd::Zero(n);
    require_eq("a zero residual stays zero", h.apply_to_residual(r), r);
    Blocks J{matn("J", n, 2)}, K = J;
    h.apply_to_jacobians(r, K);
    require_eq("and its Jacobian is unchanged", K[0], J[0]);
}
