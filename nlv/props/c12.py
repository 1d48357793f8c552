from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['smearing<T>::delta is the derivative of the occupation law (proved by C03); doubles treated as reals',
               'k-point weights positive, temperature positive; degenerate means |e_j - e_i| < 1e-10, no chemical-potential term means |sum w f\'| < 1e-12, as the code defines them']
BOUNDS = ['2 k-points per rank in the sums over k-points']
NAMES = ['Fermi-Dirac', 'Gaussian-spline', 'Cold', 'Gauss', 'Methfessel-Paxton']
def deduct(ctx):
    m = front.build('eta.cpp')
    jobs = []
    def add(f, args, label):
        def job(ctx): driver.run(ctx, m, f, list(args), label=label, cfg={'comm_size': 2, 'comm_rank': 0})
        job.label = label; jobs.append(job)
        def job2(ctx): driver.run(ctx, m, f, list(args), label=label, cfg={'comm_size': 2, 'comm_rank': 0}, again=True)
        job2.label = label + ' again'; jobs.append(job2)
    for w in (0, 1): add('delta_eta', (w,), 'delta_eta %d' % w)
    for s in range(5):
        for w, nm in enumerate(('dFdmu', 'dmu_deta', 'diagonal', 'off-diagonal', 'Hermitian')): add('eta', (s, w), '%s %s' % (NAMES[s], nm))
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'eta.cpp', [], 'g_eta, delta_eta and the k-point sums for random bands, all smearing types, 1 and 2 ranks', np=(1, 2))
