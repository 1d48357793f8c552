from .smear import *
from .. import native as N, driver
SMTYPES = ['FERMI_DIRAC', 'GAUSSIAN_SPLINE', 'GAUSS', 'METHFESSEL_PAXTON', 'COLD']
from .c03 import ASSUMPTIONS
def deduct(ctx):
    m = front.build('smearing_fn.cpp')
    x, mo = SL.x, SL.mo
    for S in SL.NAMES:
        for key, ok in SL.lemma_tail_forms(S):
            if key.startswith('s'): ctx.ob('lemma %s tail form %s' % (S, key), ok)
        for (c, s), (c2, f1) in zip(SL.law(S, 's'), SL.law(S, 1)):
            ctx.ob('lemma %s ds/dx = -x f\' on %s' % (S, c), prove.is_zero(diff(s, SL.XA) + x * f1, [c]))
        try:
            ps = paths_of(ctx, m, S + '_entropy'); ctx.covers += len(ps)
            for nm, ok, det, cex in SL.compare(ps, S, 's'):
                ctx.ob('%s::entropy = law: %s' % (S, nm), ok, det, cex)
        except ToolLimit as e: ctx.limit(S, e)
    m2 = front.build('smearing_cls.cpp')
    for k, S in enumerate(SMTYPES):
        driver.run(ctx, m2, 'total_entropy', [k], label='Smearing::entropy<%s>' % S, setup=abstract_smearing)
def native(ctx, failed): return N.standin(ctx, 'smear.cpp', ['C04'], 'entropy function against the long double law on a grid of arguments') + N.standin(ctx, 'smearcls.cpp', ['C04'], 'total entropy of random systems, 1 and 2 ranks', np=(1, 2))
