"""shared by C08, C19, C20: the real driver (src/nlcglib.cpp) over the contracts of its components, loop by induction"""
from .. import front, driver, native as N
from ..check import parallel
OVF = ['free_energy.hpp', 'geodesic.hpp', 'la/dvector.hpp', 'la/lapack.hpp', 'la/layout.hpp', 'la/magma.hpp', 'la/map.hpp', 'la/mvector.hpp', 'la/utils.hpp', 'linesearch/linesearch.hpp',
       'mvp2/descent_direction.hpp', 'overlap.hpp', 'preconditioner.hpp', 'pseudo_hamiltonian/grad_eta.hpp', 'smearing.hpp', 'ultrasoft_precond.hpp']
OV = {k: 'drv_contract.hpp' for k in OVF}
NM = ['Fermi-Dirac', 'Gaussian-spline', 'Gauss', 'Methfessel-Paxton', 'cold']
COVERS = ('conjugate direction', 'converged', 'descent error', 'failure reported', 'invalid tau', 'iteration limit', 'line search', 'not converged', 'positive conjugate slope', 'refused', 'slope error')
ASSUMPTIONS = ['the components the driver composes are used through contracts (overlay/drv_contract.hpp): results determined by their arguments; free energy (C06, C15), smearing (C01-C05), line search (C07), directions (C09, C10, C18), geodesic (C11), mvector plumbing (C16)',
               'orbitals returned by the host accessors alias the host buffers, all other results are fresh storage (C15, C16)',
               'the line search evaluates at least one trial point before the accepted one; comparisons of doubles are IEEE (NaN included), residual arithmetic of the driver itself is none',
               'the invariant of the iteration is found by the verifier (equalities between locations, lower bounds) and checked inductive on every run; iteration numbers as mathematical integers']
def setup(e): e.induct = lambda n: 'nlcglib::' in n.split('(')[0]
def deduct(ctx, only, entries):
    m = front.build('drv.cpp', overlay=OV)
    jobs = []
    for en, sm in entries:
        def job(ctx, en=en, sm=sm):
            lab = '%s %s' % ('nlcg_us_device_cpu' if en else 'nlcg_us_cpu', NM[sm])
            fins, e = driver.run(ctx, m, 'drv', [en, sm], label=lab, mode='F', cfg={'comm_size': 2, 'comm_rank': 0}, setup=setup, only=only)
            if fins is None: return
            for c in COVERS:
                if c not in e.covers: ctx.limit('%s: reachability of %s' % (lab, c), 'not covered')
            for k in getattr(e, 'inductions', []): ctx.stats['loops_by_induction'] = ctx.stats.get('loops_by_induction', 0) + 1
        job.label = 'driver'; jobs.append(job)
    parallel(ctx, jobs)
    return m
def standin(ctx, prop): return N.standin(ctx, 'drv.cpp', [prop], '180 minimisations on toy hosts (well behaved, never descending, random, failing late, indefinite preconditioner; 30 of them of 40 to 160 iterations), all smearing types, against a reference loop')
