from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['MPI collectives as specified by the MPI standard (contracts in nlv/builtins.py); the number of ranks (1-4) and of k-points (<=4) is bounded, band counts and values are not',
               'ranks run deterministically between collectives; std::map modelled by an unbalanced search tree with the same in-order sequence']
BOUNDS = ['1-4 ranks, up to 4 k-points (any keys) in 15 distributions including empty ranks']
DISTS = [(7,), (1, 2), (5, 2), (2, 5), (7, 0), (0, 7), (4, 2, 1), (0, 3, 4), (2, 0, 5), (15,), (9, 6), (8, 7), (4, 8, 3), (1, 2, 4, 8), (0, 0, 15, 0)]
def deduct(ctx):
    m = front.build('mv.cpp')
    jobs = []
    def add(f):
        jobs.append(f)
    for d in DISTS:
        al = 0
        for x in d: al |= x
        for f in ('gather_views', 'gather_scalars'):
            def job(ctx, d=d, f=f, al=al): driver.run_ranks(ctx, m, f, [[x, al] for x in d], '%s keys %s' % (f, '/'.join(map(str, d))))
            job.label = '%s %s' % (f, d); add(job)
    for kinds in ((2,), (1,), (2, 2), (1, 2), (0, 2), (2, 0), (2, 2, 2), (2, 0, 1), (2, 2, 2, 2), (0, 2, 1, 2)):     # 0 empty, 1 one entry, 2 any length >= 2
        n = len(kinds); k = sum(x * 3 ** i for i, x in enumerate(kinds)); label = 'arrays of %d ranks, lengths %s' % (n, '/'.join('01n'[x] for x in kinds))
        def job(ctx, n=n, k=k, label=label): driver.run_ranks(ctx, m, 'gather_arrays', [[r, n, k] for r in range(n)], label)
        job.label = label; add(job)
    def rest(ctx):
        cfg = {'comm_size': 2, 'comm_rank': 0}
        for mask in (0, 1, 5, 7, 12, 15):
            driver.run(ctx, m, 'global_sum', [mask], label='sum keys %d' % mask, cfg=cfg)
            driver.run(ctx, m, 'sum_views', [mask], label='sum of vectors keys %d' % mask, cfg=cfg)
        for w in (0, 1, 2): driver.run(ctx, m, 'refuse', [w], label='smaller communicator %d' % w, cfg=cfg)
        driver.run(ctx, m, 'reduce_ops', [], label='allreduce', cfg=cfg)
        driver.run(ctx, m, 'compare', [], label='comparison of communicators', cfg=cfg)
    add(rest)
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'mv.cpp', ['C14'], 'gathers and sums over 1-4 ranks, random distributions', np=(1, 2, 3, 4))
