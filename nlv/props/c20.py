from .. import front, driver
from ..check import parallel
from . import drv
CONTRACT_HEADER = 'overlay/drv_contract.hpp'
ASSUMPTIONS = drv.ASSUMPTIONS
EN = ['nlcg_us_cpu', 'nlcg_us_device_cpu', 'nlcg_us_device', 'nlcg_us_cpu_device', 'nlcg_mvp2_cpu', 'nlcg_mvp2_device', 'nlcg_mvp2_cpu_device', 'nlcg_mvp2_device_cpu']
def deduct(ctx):
    m = drv.deduct(ctx, 'C20:', [(e, t) for e in (0, 1) for t in range(5)])
    m2 = front.build('energy.cpp')
    jobs = []
    for k, n in enumerate(EN):
        def job(ctx, k=k, n=n): driver.run(ctx, m, 'refuse', [k], label='%s refuses' % n, mode='F', cfg={'comm_size': 2, 'comm_rank': 0}, setup=drv.setup, only='C20:')
        jobs.append(job)
    def cons(ctx):
        fins, e = driver.run(ctx, m2, 'construct', [0], label='FreeEnergy', cfg={'comm_size': 1, 'comm_rank': 0})
        for c in ('refused', 'accepted'):
            if fins is not None and c not in e.covers: ctx.limit('FreeEnergy: reachability of ' + c, 'not covered')
    jobs.append(cons)
    parallel(ctx, jobs)
def native(ctx, failed): return drv.standin(ctx, 'C20')
