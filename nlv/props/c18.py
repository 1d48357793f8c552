from . import dd
from ..check import parallel
ASSUMPTIONS = dd.ASSUMPTIONS; BOUNDS = dd.BOUNDS
C = ["Z_X = Delta_X + gamma Z'_X", 'Z_eta = Delta_eta + gamma U^H Z_eta U', 'the previous direction is not modified']
S = ['the orbital direction is minus the preconditioner applied to the projected residual', 'the pseudo-Hamiltonian direction is delta_eta of w X^H H X']
F = ['the Fletcher-Reeves numerator is the slope of the steepest-descent direction']
def deduct(ctx): parallel(ctx, dd.jobs_of(ctx, [('rotations', (2,), ['rotateX = Z U', 'rotateEta = U^H Z U', "conjugateeta = Delta + gamma Z'", 'conjugatex = Z - X X^H Z']), ('parts', (2, 2), ['the projection removes only the S X part']), ('conj_dir', (2,), C), ('conj_dir', (1,), C), ('after', (3, 0), C), ('after', (1, 0), S), ('steepest', (2,), S), ('steepest', (1,), S), ('slopes', (2, 1), F), ('slopes', (1, 1), F)]))
def native(ctx, failed): return dd.standin(ctx, 'C18')
