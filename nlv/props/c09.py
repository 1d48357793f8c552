from . import dd
from ..check import parallel
ASSUMPTIONS = dd.ASSUMPTIONS; BOUNDS = dd.BOUNDS
G = ['gradX = w (H X f - S X L)', 'preconditioned gradient = -K R', 'the preconditioned gradient is tangent']
T = ['(S X)^H Z = 0']
def deduct(ctx):
    parallel(ctx, dd.jobs_of(ctx, [('parts', (2, 0), G), ('parts', (2, 1), G[1:]), ('parts', (2, 2), ['the projected direction is tangent']), ('tangent', (2, 1), T), ('tangent', (2, 0), T), ('tangent', (1, 1), T), ('tangent', (1, 0), T), ('after', (0, 1), T), ('after', (0, 0), T),
        ('steepest', (1,), ['the orbital direction is minus the preconditioner applied to the projected residual']), ('steepest', (2,), ['the orbital direction is minus the preconditioner applied to the projected residual'])]))
def native(ctx, failed): return dd.standin(ctx, 'C09')
