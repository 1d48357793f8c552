"""shared by C09, C10 and C18: the real descent_direction and mvp2 code over BLAS/LAPACK contracts"""
from .. import front, driver, native as N
from ..check import parallel
OV = {'pseudo_hamiltonian/grad_eta.hpp': 'grad_eta_contract.hpp'}
ASSUMPTIONS = ['cblas_zgemm, LAPACKE_zpotrf and zpotrs by contract (nlv/mat.py); a failing factorisation makes the code throw (C13)',
               'S and K are arbitrary Hermitian positive definite operators, H an arbitrary Hermitian operator (host code behind OpBase::apply); doubles treated as reals',
               'GradEtaHelper::dFdmu, dmu_deta and GradEta::g_eta by contract: results determined by their arguments (bodies proved by C12)']
BOUNDS = ['1 and 2 k-points per rank']
FNS = ('parts', 'rotations', 'slope_fns')   # harness/ddfn.cpp
def jobs_of(ctx, runs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fm, fe = ex.submit(front.build, 'dd.cpp', overlay=OV), ex.submit(front.build, 'ddfn.cpp', overlay=OV)
        mods = {}
        for k, fu in (('dd', fm), ('fn', fe)):
            try: mods[k] = fu.result()
            except front.FrontError as e:
                if k == 'dd': raise
                mods[k] = e
    jobs = []
    for f, args, expect in runs:
        m = mods['fn' if f in FNS else 'dd']
        if isinstance(m, Exception):   # unused functions were removed or changed shape: nothing to decide about them here
            ctx.limit(f, m); continue
        def job(ctx, f=f, args=args, expect=expect, m=m):
            driver.run(ctx, m, f, list(args), label='%s %s' % (f, ' '.join(map(str, args))), cfg={'comm_size': 2, 'comm_rank': 0}, expect=expect)
        job.label = f; jobs.append(job)
    return jobs
def standin(ctx, prop): return N.standin(ctx, 'dd.cpp', [prop], 'directions and slopes of random problems (1-4 k-points, up to 8 x 4 orbitals), all smearing types, 1 and 2 ranks', np=(1, 2))
