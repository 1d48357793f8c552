from .smear import *
from .. import native as N
ASSUMPTIONS = ['machine doubles treated as reals; libm exp/erf/erfc/log/sqrt/pow as the exact functions; literals nearest to sqrt(2), pi, ... denote those numbers']
WHICH = [('fn', 0), ('delta', 1), ('dxdelta', 2)]
def deduct(ctx):
    m = front.build('smearing_fn.cpp')
    for S in SL.NAMES:
        for key, ok in SL.lemma_tail_forms(S):
            if not key.startswith('s'): ctx.ob('lemma %s tail form %s' % (S, key), ok)
        for f, k in WHICH:
            try:
                ps = paths_of(ctx, m, '%s_%s' % (S, f))
                ctx.covers += len(ps)
                for nm, ok, det, cex in SL.compare(ps, S, k):
                    ctx.ob('%s::%s = law^(%d): %s' % (S, f, k, nm), ok, det, cex)
            except ToolLimit as e: ctx.limit('%s::%s' % (S, f), e)
def native(ctx, failed): return N.standin(ctx, 'smear.cpp', ['C03'], 'code functions against long double laws on a grid of arguments')
