from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['cblas_zgemm, LAPACKE_zheevd, zpotrf and zpotrs by contract (nlv/mat.py): they satisfy their documentation, fail only by a non-zero info, and their dimension and leading-dimension preconditions are obligations on the callers',
               'the overlap handed to loewdin is positive definite (X has full column rank); doubles treated as reals, complex numbers exact']
BOUNDS = []
def deduct(ctx):
    m = front.build('la.cpp')
    jobs = []
    def add(f, args=(), n=1):
        def job(ctx): driver.run(ctx, m, f, list(args), label='%s %s' % (f[2:], args[0] if args else ''), cfg={'comm_size': n, 'comm_rank': 0})
        job.label = f; jobs.append(job)
        if f not in ('t_refuse', 't_fail'):
            def job2(ctx): driver.run(ctx, m, f, list(args), label='%s %s' % (f[2:], args[0] if args else ''), cfg={'comm_size': n, 'comm_rank': 0}, again=True)
            job2.label = f + ' again'; jobs.append(job2)
    for w in (0, 1, 2):
        for f in ('t_inner', 't_outer', 't_transform', 't_add', 't_scale', 't_fail'): add(f, (w,))
    for w in (0, 1): add('t_tr', (w,)); add('t_loewdin', (w,))
    add('t_diag'); add('t_geam'); add('t_eigh', (0,)); add('t_solve', (0,)); add('t_refuse', (0,), 2)
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'la.cpp', [], 'random shapes 1-9 and leading dimensions, indefinite matrices, 2 ranks for refusal', np=(1, 2))
