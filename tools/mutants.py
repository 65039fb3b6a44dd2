#!/usr/bin/env python3-vt
"""mutants.py [REGEX]: small changes of the library, each run against the checks it should trip (development aid).
Every change is made in a scratch copy of /repo/src that is removed afterwards."""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks, file, old text (first occurrence; '@n' picks the n-th), new text
M = [
 ('V04', 'pose_variable.cpp', 'pose_CW_ = x;\n        recompute_dcm_CW();', 'pose_CW_ = x;'),
 ('V04', 'rotation_variable.hpp', 'dcm_AB_ = ExpMapSO3(x);', ''),
 ('V04', 'plane_variable.hpp', 'distance_from_origin_ = x(3);', ''),
 ('V04', 'inverse_range_variable.cpp', 'clip_inverse_range();', '', ),
 ('V04', 'generic_variable.hpp', 'return std::make_shared<GenericVariable>(*this);', 'return std::make_shared<GenericVariable>(id_, value_);'),
 ('V04', 'pose_variable.cpp', 'return std::make_shared<PoseVariable>(*this);', 'Eigen::Matrix<double, 6, 1> p = pose_CW_; return std::make_shared<PoseVariable>(id_, p);'),
 ('V05', 'random_utils.cpp', 'theta < 1e-5', 'theta < 1e-2'),
 ('V05', 'random_utils.cpp', '(1.0 - half_theta * cot_half_theta) * (axis', '(1.0 - cot_half_theta) * (axis'),
 ('V05', 'random_utils.cpp', 'theta < 1e-10', 'theta < 1e-3'),
 ('V05', 'random_utils.cpp', '- half_theta * K', '+ half_theta * K'),
 ('V05', 'random_utils.cpp', 'theta < 1e-8', 'theta < 0.05'),
 ('V05', 'random_utils.cpp', 'std::abs(theta - PI) < 1e-3', 'theta > PI - 1e-3 && false'),
 ('V05', 'random_utils.cpp', 'return aa.angle() * aa.axis();', 'return PI * aa.axis();'),
 ('F01', 'generic_between_factor.cpp', 'jacobians[1].setZero();', ''),
 ('F01', 'generic_between_factor.cpp', 'if (measured_diff_->is_constant())', 'if (var_a_->is_constant() && measured_diff_->is_constant())'),
 ('F01', 'coordinate_transform_factor.hpp', 'jacobians_out.size() != 5', 'jacobians_out.size() < 5'),
 ('F01', 'linear_velocity_factor.cpp', 'setZero();', 'size();'),
 ('G01', 'factor_graph.cpp', 'placement.dim = 0;', 'placement.dim = 0; col_offset += (i > 1);'),
 ('G01', 'factor_graph.cpp', 'row_offset += placement.residual_dim;', 'row_offset += factor->residual_size() > 2 ? 2 : placement.residual_dim;'),
 ('G02', 'factor_graph.cpp', 'sparse_jacobian_valid_ = false;\n        jacobian_valid_', 'jacobian_valid_'),
 ('G02', 'factor_graph.cpp', 'jacobian_valid_ = false;\n        residual_valid_', 'residual_valid_'),
 ('G02', 'factor_graph.cpp', 'sparse_jacobian_.makeCompressed();', ''),
 ('G02', 'factor_graph.cpp', 'int col_offset = var_placement.index;\n\n                // Iterate', 'int col_offset = var_placement.index - (var_placement.dim == 0);\n\n                // Iterate'),
 ('G02', 'factor_graph.cpp', '= Ji;', '+= Ji;'),
 ('G03', 'factor_graph.cpp', 'x.segment(offset, var->size()) = var->value();\n            offset += var->size();', 'x.segment(offset, var->size()) = var->value();\n            offset += var_placement.dim > 3 ? 3 : var_placement.dim;'),
 ('G03', 'factor_graph.cpp', 'dx.segment(placement.index, placement.dim)', 'dx.segment(placement.index > 0 ? placement.index - (placement.dim > 2) : 0, placement.dim)'),
 ('G03', 'factor_graph.cpp', 'if (dx.size() != num_values_)', 'if (dx.size() < num_values_)'),
 ('G04', 'factor_graph.cpp', 'num_residuals_ < num_values_', 'num_residuals_ + 1 < num_values_'),
 ('G04', 'factor_graph.cpp', 'structure_finalized_ = false;\n', ''),
 ('G03', 'factor_graph.cpp', 'if (x.size() != expected_size)', 'if (x.size() > expected_size)'),
 ('O01', 'sparse_optimizer.cpp', 'new_cost < current_cost', 'new_cost <= current_cost * 1.0001'),
 ('O01', 'sparse_optimizer.cpp', 'i < variables.size(); ++i', 'i + 1 < variables.size(); ++i'),
 ('O01', 'sparse_optimizer.cpp', 'double current_cost = 0.5 * residual1_.squaredNorm();', 'double current_cost = 0.5 * initial_stats_.chi2;'),
 ('O02', 'sparse_optimizer.cpp', 'dx *= settings_.learning_rate;', 'dx *= std::min(settings_.learning_rate, 1.0);'),
 ('O02', 'sparse_optimizer.cpp', 'H.coeffRef(i, i) += current_stats_.damping_parameter;', 'H.coeffRef(i, i) += current_stats_.damping_parameter * H.coeff(i, i);'),
 ('O02', 'sparse_optimizer.cpp', 'b_ *= -1.0;', ''),
 ('O02', 'sparse_optimizer.cpp', 'graph_->compute_full_residual_vector(residual1_);', 'if (current_stats_.current_iteration == 0) graph_->compute_full_residual_vector(residual1_); else residual1_ = residual2_ * 0.5 + residual1_ * 0.5;'),
]
def main():
    rx = sys.argv[1] if len(sys.argv) > 1 else '.'
    for m in M:
        ids, f, old, new = m[:4]
        if not re.search(rx, ids + ' ' + f + ' ' + old): continue
        d = tempfile.mkdtemp(prefix='vmut_')
        try:
            shutil.copytree('/repo/src', d + '/src')
            p = d + '/src/factorama/' + f
            s = open(p).read()
            k = 1
            if re.match(r'@\d', old): k = int(old[1]); old = old[2:]
            i = -1
            for _ in range(k): i = s.find(old, i + 1)
            if i < 0: print('NOT FOUND', m); continue
            open(p, 'w').write(s[:i] + new + s[i + len(old):])
            for pid in ids.split(','):
                t = time.time()
                r = subprocess.run([sys.executable, V + '/check.py', pid], env=dict(os.environ, VERIF_REPO=d, VERIF_REPLAY_DIR=d), capture_output=True, text=True)
                o = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'violat' in l.lower()]
                print('%-8s %s exit %d %5.0fs %s: %s -> %s | %s' % ('caught' if r.returncode == 1 else 'MISSED', pid, r.returncode, time.time() - t, f, old[:50].replace('\n', ' '), new[:50].replace('\n', ' '), (o[0] if o else r.stdout[-300:])[:160]), flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
main()
