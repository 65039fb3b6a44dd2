#!/usr/bin/env python3-vt
"""refactors.py [REGEX]: behaviour-preserving edits of the library, each run against the checks of the code it touches;
every check must stay quiet (development aid). Edits are made in a scratch copy of /repo/src that is removed afterwards."""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RND = 'random_utils.cpp'; OPT = 'sparse_optimizer.cpp'; PB = '/python_bindings/python/factorama/_factorama.cpp'; FG = 'factor_graph.cpp'
# name, checks, edits (file, old, new); old '@all:' replaces every occurrence
R = [
 ('exp-rodrigues-elementwise', 'V05,V01,J04,J05,R01,S01', [(RND, 'return Eigen::Matrix3d::Identity() + std::sin(theta) * K + (1.0 - std::cos(theta)) * K * K;',
   'const double s = std::sin(theta);\n        const double c = std::cos(theta);\n        Eigen::Matrix3d out = c * Eigen::Matrix3d::Identity();\n        for (int i = 0; i < 3; ++i) {\n            for (int j = 0; j < 3; ++j) {\n                out(i, j) += s * K(i, j) + (1.0 - c) * axis(i) * axis(j);\n            }\n        }\n        return out;')]),
 ('log-vee', 'V05,V01,M04,J05,R01,S01', [(RND, 'double scale = theta / (2.0 * std::sin(theta));\n        return unskew(scale * (R - R.transpose()));',
   'const Eigen::Vector3d vee(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));\n        return (0.5 * theta / std::sin(theta)) * vee;')]),
 ('log-atan2', 'V05,V01,M04,R01,S01', [(RND, 'cos_theta = std::min(std::max(cos_theta, -1.0), 1.0); // Clamp for safety\n        double theta = std::acos(cos_theta);',
   'const Eigen::Vector3d vee = unskew(R);\n        double theta = std::atan2(vee.norm(), cos_theta);')]),
 ('clamp', 'V05,V01,M04,R01,S01', [(RND, 'cos_theta = std::min(std::max(cos_theta, -1.0), 1.0); // Clamp for safety', 'cos_theta = std::clamp(cos_theta, -1.0, 1.0);')]),
 ('invjac-sincos', 'V05,J05,R01,S01', [(RND, 'double tan_half_theta = std::tan(half_theta);', 'double tan_half_theta = std::sin(half_theta) / std::cos(half_theta);')]),
 ('invjac-helper', 'V05,J05,R01,S01', [(RND, 'Eigen::Matrix3d compute_inverse_right_jacobian_so3(', 'namespace {\n    double half_cot(double theta) { const double h = 0.5 * theta; return h / std::tan(h); }\n    }\n\n    Eigen::Matrix3d compute_inverse_right_jacobian_so3('),
   (RND, 'return (half_theta * cot_half_theta) * Eigen::Matrix3d::Identity() +\n               (1.0 - half_theta * cot_half_theta) * (axis * axis.transpose()) - half_theta * K;',
    'const double g = half_cot(theta);\n        (void)cot_half_theta;\n        return Eigen::Matrix3d::Identity() - half_theta * K + (1.0 - g) * K * K;')]),
 ('pose-recompute-exp', 'V01,V04,J01,J04,M01,R01,S01', [('pose_variable.cpp', 'Eigen::Vector3d axis = rot_CW_tmp / angle;\n        dcm_CW_ = Eigen::AngleAxisd(angle, axis).toRotationMatrix();', 'dcm_CW_ = ExpMapSO3(rot_CW_tmp);')]),
 ('pose-recompute-quat', 'V01,V04,J01,M01,R01,S01', [('pose_variable.cpp', 'dcm_CW_ = Eigen::AngleAxisd(angle, axis).toRotationMatrix();', 'dcm_CW_ = Eigen::Quaterniond(Eigen::AngleAxisd(angle, axis)).toRotationMatrix();')]),
 ('bearing-helper', 'J01,M01,R01,S01', [('bearing_observation_factor.cpp', 'd_bearing_d_pos.noalias() = (-bearing_C * bearing_C.transpose());\n        d_bearing_d_pos.diagonal().array() += 1.0;\n\n        // Scale d_bearing_d_pos by weight\n        d_bearing_d_pos *= (weight_ / pos_C_norm);',
   'for (int r = 0; r < 3; ++r) {\n            for (int c = 0; c < 3; ++c) {\n                const double delta = (r == c) ? 1.0 : 0.0;\n                d_bearing_d_pos(r, c) = weight_ * (delta * pos_C_norm * pos_C_norm - pos_C(r) * pos_C(c)) / (pos_C_norm * pos_C_norm * pos_C_norm);\n            }\n        }')]),
 ('bearing-squared-guard', 'J01,M01,G02,R01,S01,X01', [('bearing_observation_factor.cpp', 'if (pos_C_norm < MIN_DISTANCE_FROM_CAMERA)', 'if (pos_C.squaredNorm() < MIN_DISTANCE_FROM_CAMERA * MIN_DISTANCE_FROM_CAMERA)')]),
 ('wrap-loop', 'M02,J02,J03,R01,S01', [('pose_2d_between_factor.cpp', 'return std::atan2(std::sin(angle), std::cos(angle));', 'return std::remainder(angle, 2.0 * PI);'),
   ('pose_2d_prior_factor.cpp', 'return std::atan2(std::sin(angle), std::cos(angle));', 'while (angle > PI) {\n            angle -= 2.0 * PI;\n        }\n        while (angle < -PI) {\n            angle += 2.0 * PI;\n        }\n        return angle;')]),
 ('wrap-floor', 'M02,J02,V02,R01,S01', [('range_bearing_factor_2d.cpp', 'return std::atan2(std::sin(angle), std::cos(angle));', 'return angle - 2.0 * PI * std::floor((angle + PI) / (2.0 * PI));'),
   ('pose_2d_variable.cpp', 'return std::atan2(std::sin(angle), std::cos(angle));', 'return angle - 2.0 * PI * std::floor((angle + PI) / (2.0 * PI));')]),
 ('range-hypot', 'M02,J02,R01,S01', [('range_bearing_factor_2d.cpp', '@all:.norm()', '.stableNorm()')]),
 ('between-share-residual', 'M02,J03,R01,S01', [('pose_2d_between_factor.cpp', 'Eigen::VectorXd res(3);\n', 'Eigen::VectorXd out(3);\n        compute_residual(Eigen::Ref<Eigen::VectorXd>(out));\n        if (out.size() == 3) {\n            return out;\n        }\n        Eigen::VectorXd res(3);\n')]),
 ('plane-branch', 'J06,M03,R01,S01', [('plane_factor.cpp', '@all:weight_ * (dist / scale)', '(weight_ * dist * dist_scaling_r0_) / (dist_scaling_r0_ + r)')]),
 ('plane-jac', 'J06,F01,R01,S01', [('plane_factor.cpp', 'Eigen::Vector3d dr_dp = (n * scale - dist * dscale_dp) / (scale * scale);', 'const double inv = 1.0 / scale;\n            Eigen::Vector3d dr_dp = inv * n - (inv * inv * dist) * dscale_dp;')]),
 ('invrange-ifs', 'V03,V04,M01,J01,R01,S01', [('inverse_range_variable.cpp', 'inverse_range_value_[0] = std::max(inverse_range_value_[0], minimum_inverse_range_);\n        inverse_range_value_[0] = std::min(inverse_range_value_[0], maximum_inverse_range_);',
   'double& v = inverse_range_value_[0];\n        if (v < minimum_inverse_range_) {\n            v = minimum_inverse_range_;\n        } else if (v > maximum_inverse_range_) {\n            v = maximum_inverse_range_;\n        }')]),
 ('planevar-norm', 'V02,V04,J06,R01,S01', [('plane_variable.hpp', 'unit_vector_.normalize();', 'unit_vector_ /= std::sqrt(unit_vector_.squaredNorm());')]),
 ('lm-helper', 'O01,O02,O03,O04,O05,O06,X01', [(OPT, '                // Reject step: restore original values and increase damping\n                for (size_t i = 0; i < variables.size(); ++i) {\n                    variables[i]->set_value_from_vector(original_values[i]);\n                }\n\n                current_stats_.damping_parameter *= settings_.lambda_up_factor;\n                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);',
   '                size_t idx = variables.size();\n                while (idx-- > 0) {\n                    variables[idx]->set_value_from_vector(original_values[idx]);\n                }\n                const double raised = current_stats_.damping_parameter * settings_.lambda_up_factor;\n                current_stats_.damping_parameter = raised < settings_.max_lambda ? raised : settings_.max_lambda;')]),
 ('lm-graph-increment', 'O01,O02,O03,O05,X01', [(OPT, "                bool valid = false;\n                VariablePlacement placement = graph_->variable_placement(var->id(), valid);\n                if (!valid) {\n                    std::cerr << \"[LM] Skipping variable id=\" << var->id() << \" (no placement found)\\n\";\n                    continue;\n                }\n\n                const Eigen::VectorXd local_dx = dx.segment(placement.index, placement.dim);\n                var->apply_increment(local_dx);\n            }", "            }\n            graph_->apply_increment(dx);")]),
 ('lm-clone-h', 'O02,O04,O01,X01', [(OPT, 'for (int i = 0; i < H.outerSize(); ++i) {\n                H.coeffRef(i, i) += current_stats_.damping_parameter;\n            }', 'Eigen::SparseMatrix<double> damp(H.rows(), H.cols());\n            damp.setIdentity();\n            H += current_stats_.damping_parameter * damp;')]),
 ('gn-reorder', 'O02,O03,O05,O06,C01,X01', [(OPT, 'H_ = J.transpose() * J;\n        b_.noalias() = J.transpose() * residual1_;\n        b_ *= -1.0;', 'b_ = -(J.transpose() * residual1_);\n        H_ = J.transpose() * J;')]),
 ('gn-cond', 'O02,O03,O06,X01', [(OPT, 'double cond_estimate = max_diag / min_diag;\n        if (cond_estimate > 1e12) {', 'double cond_estimate = max_diag / min_diag;\n        const bool ill = !(cond_estimate <= 1e12) && !std::isnan(cond_estimate);\n        if (ill) {')]),
 ('opt-stats', 'O01,O03,O04,O06', [(OPT, 'if (current_stats_.status == OptimizerStatus::SINGULAR_HESSIAN ||\n                current_stats_.status == OptimizerStatus::ILL_CONDITIONED ||\n                current_stats_.status == OptimizerStatus::FAILED) {', 'const auto st = current_stats_.status;\n            const bool error = st != OptimizerStatus::RUNNING && st != OptimizerStatus::SUCCESS && st != OptimizerStatus::DIVERGED;\n            if (error) {')]),
 ('cov-columnwise', 'C01,X01', [(OPT, 'Eigen::MatrixXd X = sparse_solver_.solve(B);', 'Eigen::MatrixXd X(total_hessian_size, variable_size);\n        for (int c = 0; c < variable_size; ++c) {\n            Eigen::VectorXd e = B.col(c);\n            X.col(c) = sparse_solver_.solve(e);\n        }'), (OPT, 'P = 0.5 * (P + P.transpose());', 'Eigen::MatrixXd Pt = P.transpose();\n        P = (P + Pt) / 2.0;')]),
 ('fg-dense-elementwise', 'G01,G02,G04,X01', [(FG, 'cached_jacobian_.block(row_offset, col_offset, Ji.rows(), Ji.cols()) = Ji;', 'for (int c = 0; c < Ji.cols(); ++c) {\n                    for (int r = 0; r < Ji.rows(); ++r) {\n                        cached_jacobian_(row_offset + r, col_offset + c) = Ji(r, c);\n                    }\n                }')]),
 ('fg-offsets', 'G01,G02,G03,G04,X01', [(FG, 'placement.index = col_offset;\n            if (var->is_constant()) {\n                placement.dim = 0;\n            } else {\n                placement.dim = var->size();\n            }', 'placement.dim = var->is_constant() ? 0 : var->size();\n            placement.index = col_offset;')]),
 ('fg-values', 'G03,X01', [(FG, 'int offset = 0;\n        for (const auto& var : variables_vector_) {\n            if (!var->is_constant()) {\n                var->set_value_from_vector(x.segment(offset, var->size()));\n                offset += var->size();\n            }\n        }', 'int offset = 0;\n        for (size_t k = 0; k != variables_vector_.size(); ++k) {\n            const auto& var = variables_vector_[k];\n            if (var->is_constant()) {\n                continue;\n            }\n            const Eigen::VectorXd part = x.segment(offset, var->size());\n            var->set_value_from_vector(part);\n            offset += part.size();\n        }')]),
 ('sparse-triplets', 'G02,O02,C01,X01', [(FG, '''                for (size_t i = 0; i < this_col_indices.size(); ++i) {
                    double value''', '''                size_t i = 0;
                for (const int unused : this_col_indices) {
                    (void)unused;
                    double value'''), (FG, 'sparse_jacobian_.coeffRef(row_index, col) = value;\n', 'sparse_jacobian_.coeffRef(row_index, col) = value;\n                    ++i;\n'), (FG, 'if (initialize_every_time && fabs(value) < 1e-12) {\n                        continue;\n                    }', '')]),
 ('numjac-inline', 'N01', [('numerical_jacobian.hpp', '@all:2.0 *', '(1.0 + 1.0) *')]),
 ('huber', 'K01', [('kernels.hpp', '@all:std::sqrt(', 'std::pow(0.5, 0.0) * std::sqrt(')]),
 ('ctf', 'J07,M03,F01,R01,S01', [('coordinate_transform_factor.hpp', 'jacobians_out[0] = weight_ * scale * skew_symmetric(rotated_lm_B);', 'const Eigen::Vector3d sv = (weight_ * scale) * rotated_lm_B;\n                jacobians_out[0] = Eigen::MatrixXd::Zero(3, 3);\n                for (int c = 0; c < 3; ++c) {\n                    jacobians_out[0].col(c) = sv.cross(Eigen::Vector3d::Unit(c));\n                }')]),
 ('poseb', 'J05,M04,R01,S01', [('pose_between_factors.cpp', 'Eigen::Matrix3d J_pose2 = Jr_inv.transpose() * error.transpose();', 'Eigen::Matrix3d J_pose2 = (error * Jr_inv).transpose();')]),
 ('poseb2', 'J05,M04,R01,S01', [('pose_between_factors.cpp', 'Eigen::Matrix3d J_pose2 = Jr_inv.transpose() * error.transpose();', 'Eigen::Matrix3d J_pose2 = Jr_inv;')]),
 # not for S01: NaN for a landmark exactly at the camera
 ('projection', 'J01,M01,R01', [('bearing_projection_factor_2d.cpp', '@all:(dcm_CW * (pos_W - pos_W_cam)).normalized()', '(dcm_CW * pos_W - dcm_CW * pos_W_cam) / (pos_W - pos_W_cam).norm()')]),
 ('pb-lambdas', 'B01,B02', [(PB, '.def("pos_W", &factorama::PoseVariable::pos_W)', '.def("pos_W", [](const factorama::PoseVariable& self) -> Eigen::Vector3d { return self.pos_W(); })'),
   (PB, 'return std::make_tuple(result, valid);', 'return py::make_tuple(py::cast(result), py::cast(valid));'),
   (PB, '.def("set_theta", &factorama::Pose2DVariable::set_theta)', '.def("set_theta", [](factorama::Pose2DVariable& self, double theta) { self.set_theta(theta); }, py::arg("theta"))'),
   (PB, '.def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_)', '.def_property("current_stats", [](factorama::SparseOptimizer& self) -> factorama::OptimizerStats& { return self.current_stats_; },\n                      [](factorama::SparseOptimizer& self, const factorama::OptimizerStats& v) { self.current_stats_ = v; })')]),
 ('pb-factory', 'B01,B02', [(PB, '.def(py::init<int, const Eigen::Vector3d&>(),\n             "Create a LandmarkVariable with 3D position",', '.def(py::init([](int id, const Eigen::Vector3d& p) { return std::make_shared<factorama::LandmarkVariable>(id, p); }),\n             "Create a LandmarkVariable with 3D position",'),
   (PB, '.def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),', '.def(py::init([](int id, factorama::Variable* v, const Eigen::VectorXd& x, double sigma) { return new factorama::GenericPriorFactor(id, v, x, sigma); }),')]),
 ('pb-helpers', 'B01,B02', [(PB, 'PYBIND11_MODULE(_factorama, m) {', 'namespace {\ntemplate <class V> py::class_<V, std::shared_ptr<V>, factorama::Variable> variable_class(py::module_& m, const char* name)\n{\n    return py::class_<V, std::shared_ptr<V>, factorama::Variable>(m, name);\n}\nvoid bind_so3(py::module_& m)\n{\n    m.def("LogMapSO3", [](const Eigen::Matrix3d& R) { return factorama::LogMapSO3(R); }, py::arg("R"));\n}\n}\n\nPYBIND11_MODULE(_factorama, m) {'),
   (PB, 'py::class_<factorama::PlaneVariable, std::shared_ptr<factorama::PlaneVariable>, factorama::Variable>(m, "PlaneVariable")', 'auto plane_class = variable_class<factorama::PlaneVariable>(m, "PlaneVariable");\n    plane_class'),
   (PB, 'm.def("LogMapSO3", &factorama::LogMapSO3,\n          "Logarithm map from SO(3) to so(3). Converts a rotation matrix to a rotation vector.",\n          py::arg("R"));', 'bind_so3(m);')]),
]
def main():
    rx = sys.argv[1] if len(sys.argv) > 1 else '.'
    for name, ids, edits in R:
        if not re.search(rx, name): continue
        d = tempfile.mkdtemp(prefix='vref_')
        try:
            shutil.copytree('/repo/src', d + '/src'); shutil.copytree('/repo/python_bindings', d + '/python_bindings')
            ok = True
            for f, old, new in edits:
                p = d + f if f[0] == '/' else d + '/src/factorama/' + f
                s = open(p).read()
                every = old.startswith('@all:'); old = old[5:] if every else old
                if old not in s: print('NOT FOUND', name, f, old[:60]); ok = False; break
                s = s.replace(old, new) if every else s.replace(old, new, 1)
                if 'PI' in new and 'random_utils.hpp' not in s: s = '#include "factorama/random_utils.hpp"\n' + s
                if 'ExpMapSO3' in new and 'random_utils.hpp' not in s: s = '#include "factorama/random_utils.hpp"\n' + s
                open(p, 'w').write(s)
            if not ok: continue
            for pid in ids.split(','):
                t = time.time()
                r = subprocess.run([sys.executable, V + '/check.py', pid], env=dict(os.environ, VERIF_REPO=d, VERIF_REPLAY_DIR=d, VERIF_NO_EVIDENCE='1'), capture_output=True, text=True)
                und = [l for l in r.stdout.splitlines() if l.startswith('UNDECIDED')]
                st = {0: 'quiet', 1: 'ALARM', 2: 'NOANSWER'}.get(r.returncode, '?')
                print('%-8s %-24s %s %5.0fs undecided=%d %s' % (st, name, pid, time.time() - t, len(und), (und[0] if und and st == 'quiet' else '' if st == 'quiet' else (r.stdout + r.stderr)[-1500:])[:1500]), flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
main()
