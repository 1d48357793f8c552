from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['host buffers of two k-points, any extents and strides (each below 30000), distinct elements of a buffer do not overlap',
               'std::map modelled by an unbalanced search tree with the same in-order sequence']
BOUNDS = ['2 k-points per collection']
def deduct(ctx):
    m = front.build('host.cpp')
    cfg = {'comm_size': 1, 'comm_rank': 0}
    jobs = []
    def add(f, args=(), label=None):
        def job(ctx): driver.run(ctx, m, f, list(args), label=label or f, cfg=cfg)
        jobs.append(job)
    add('mats'); add('vecs'); add('scalars')
    for t in (0, 1):
        for pos in (0, 1): add('memkinds', (t, pos), 'memory kind %s entry %d' % ('none' if t == 0 else 'device', pos))
    add('operators', (0,), 'overlap'); add('operators', (1,), 'ultrasoft preconditioner')
    add('op_strided'); add('op_collection', (0,), 'overlap over a collection'); add('op_collection', (1,), 'preconditioner over a collection')
    for c in (0, 1, 2): add('iterate_ov', (c,), 'overlap iteration over %d keys' % c); add('iterate_us', (c,), 'preconditioner iteration over %d keys' % c)
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'host.cpp', ['C15'], 'host buffers of random extents and strides, operators over 0-4 keys, every memory kind')
