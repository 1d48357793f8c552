from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['two k-points, any kinetic energies, extents and strides; doubles treated as reals']
BOUNDS = ['2 k-points']
def deduct(ctx):
    m = front.build('energy.cpp')
    cfg = {'comm_size': 1, 'comm_rank': 0}
    driver.run(ctx, m, 'teter', [], label='Teter', cfg=cfg)
    driver.run(ctx, m, 'teter', [], label='Teter', cfg=cfg, again=True)
    driver.run(ctx, m, 'teter_law', [], label='law', cfg=cfg)
def native(ctx, failed): return N.standin(ctx, 'host.cpp', ['C17'], 'Teter entries, bounds, monotonicity and both application forms')
