from . import dd, c12
from ..check import parallel
ASSUMPTIONS = dd.ASSUMPTIONS[:2] + ['the contract used for g_eta, dFdmu and dmu_deta (functions of their arguments) is discharged by C12, whose obligations this check repeats'] + c12.ASSUMPTIONS
BOUNDS = dd.BOUNDS
N_ = ['slope = sum of 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta)', 'the Fletcher-Reeves numerator is the slope of the steepest-descent direction',
      "slope = sum of 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta) for Z = Delta + gamma Z'", 'orbital part of the slope = -2 sum of w f_i (R^H K R)_ii, not positive for f >= 0 and positive K']
SF = ['compute_slope: sum of Re tr(g_eta^H Z_eta)', 'compute_slope_single: sum of both', 'slope_x: sum of 2 Re tr(g_X^H Z_X)', 'local slope: 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta)']
def deduct(ctx):
    jobs = dd.jobs_of(ctx, [('slopes', (q, w), [N_[w]]) for q in (2, 1) for w in (2, 1, 0, 3)] + [('slope_fns', (2, w), [x]) for w, x in enumerate(SF)] + [('after', (2, w), [N_[w]]) for w in (2, 0)] + [('conj_dir', (2,), ["Z_X = Delta_X + gamma Z'_X"]), ('steepest', (2,), None)])
    parallel(ctx, jobs)
    c12.deduct(ctx)
def native(ctx, failed): return dd.standin(ctx, 'C10') + c12.native(ctx, failed)
