from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['the host code (EnergyBase) is a contract mock: any extents, leading dimensions, occupations, energies before and after the recomputation, and a chemical potential of its own; two k-points; the evaluation is the first one or follows an arbitrary one',
               'std::map modelled by an unbalanced search tree with the same in-order sequence; doubles treated as reals']
BOUNDS = ['2 k-points']
NM = ['Fermi-Dirac', 'Gaussian-spline', 'Gauss', 'Methfessel-Paxton', 'cold']
def deduct(ctx):
    m = front.build('energy.cpp')
    cfg = {'comm_size': 1, 'comm_rank': 0}
    jobs = []
    for t in range(5):
        for again in (0, 1):
            def job(ctx, t=t, again=again): driver.run(ctx, m, 'free_energy', [t, again], label=NM[t] + (' after another evaluation' if again else ''), cfg=cfg)
            jobs.append(job)
    def acc(ctx): driver.run(ctx, m, 'accessors', [], label='accessors', cfg=cfg)
    jobs.append(acc)
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'host.cpp', ['C06'], 'free energy evaluations against a recording host')
