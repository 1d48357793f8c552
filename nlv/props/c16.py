from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['up to four keys per collection, of any values, among them two spin components of one k-point', 'std::map modelled by an unbalanced search tree with the same in-order sequence; std::async/shared_future modelled as deferred execution (model/future)']
BOUNDS = ['up to 4 keys']
def deduct(ctx):
    m = front.build('mv.cpp')
    cfg = {'comm_size': 2, 'comm_rank': 0}
    jobs = []
    for ma, mb in ((7, 7), (3, 7), (6, 7), (7, 3), (7, 6), (5, 2), (1, 1), (0, 7), (15, 15), (12, 14), (14, 7)):
        def job(ctx, ma=ma, mb=mb): driver.run(ctx, m, 'apply_keys', [ma, mb], label='apply keys %d/%d' % (ma, mb), cfg=cfg)
        jobs.append(job)
    def rest(ctx):
        for ma in (0, 1, 5, 7, 12, 15):
            driver.run(ctx, m, 'deferred_once', [ma], label='deferred keys %d' % ma, cfg=cfg)
            driver.run(ctx, m, 'unzip_keys', [ma], label='unzip keys %d' % ma, cfg=cfg)
        driver.run(ctx, m, 'missing_key', [], label='missing key', cfg=cfg)
    jobs.append(rest)
    mh = front.build('host.cpp')
    jobs.append(lambda ctx: driver.run(ctx, mh, 'copies', [], label='copies', cfg=cfg))
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'mv.cpp', ['C16'], 'keywise application, deferral, unzip and copies on random collections')
