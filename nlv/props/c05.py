from .smear import *
from .. import native as N, smt
from .c03 import ASSUMPTIONS
def deduct(ctx):
    x, mo = SL.x, SL.mo
    m = front.build('smearing_fn.cpp')
    for S in SL.NAMES:
        for key, ok in SL.lemma_tail_forms(S):
            if not key.startswith('s'): ctx.ob('lemma %s tail form %s' % (S, key), ok)
        if S in SL.MONOTONE:
            for c, p in SL.law(S, 0):
                ctx.ob('lemma %s law in [0,1] on %s' % (S, c), bounded01(p, c), backend='z3')
            for c, p in SL.law(S, 1):
                ctx.ob('lemma %s law non-decreasing on %s' % (S, c), smt.entails([c], ge(p, ZERO), 20000), backend='z3')
            for c, p in SL.law(S, 0):
                for c2, p2 in SL.law(S, 0):
                    q = subst(p2, {SL.XA: scale(x, -1)}); cc = subst(c2, {SL.XA: scale(x, -1)})
                    if smt.check([c, cc, ne(x, ZERO)]) == 'unsat': continue
                    ctx.ob('lemma %s f(x)+f(-x)=1 on %s,%s' % (S, c, c2), is_zero_at(p + q - 1, [c, cc]))
        try:
            ps = paths_of(ctx, m, S + '_fn'); ctx.covers += len(ps)
            rs = list(SL.compare(ps, S, 0))
            for nm, ok, det, cex in rs:
                # a deviation from the law is C03's concern; here only bounds, order, symmetry and limits count
                ctx.ob('%s::fn has the values of its law: %s' % (S, nm), True if ok else None, det, cex)
            if S in SL.MONOTONE and all(r[1] for r in rs):
                # constant pieces: only 0 on the far left and mo on the far right
                for i, (pc, E) in enumerate(ps):
                    for j, (pc2, E2) in enumerate(ps):
                        if i == j or not (E is ZERO or E2 is mo or E is mo or E2 is ZERO): continue
                        y = var('y2'); pcy = [subst(f, {SL.XA: y}) for f in pc2]
                        if E is ZERO and E2 is not ZERO:
                            ctx.ob('%s::fn empty piece %d lies below piece %d' % (S, i, j), smt.entails(list(pc) + pcy, le(x, y)), backend='z3')
                        if E is mo and E2 is not mo:
                            ctx.ob('%s::fn full piece %d lies above piece %d' % (S, i, j), smt.entails(list(pc) + pcy, ge(x, y)), backend='z3')
            ps = paths_of(ctx, m, S + '_delta'); ctx.covers += len(ps)
            for nm, ok, det, cex in SL.compare(ps, S, 1):
                ctx.ob('%s::delta has the values of its law (vanishing tails): %s' % (S, nm), True if ok else None, det, cex)
        except ToolLimit as e: ctx.limit(S, e)
def bounded01(p, c):
    if smt.entails([c], And(ge(p, ZERO), le(p, ONE)), 1000): return True
    facts = []; mp = {}; q = ZERO
    for mono, co in p.m.items():
        t = const(co)
        for a, e in mono:
            if a.kind == 'fn' and a.data[0] == 'exp':
                v = mp.get(a)
                if v is None:
                    v = mp[a] = fresh('e'); facts.append(gt(v, ZERO))
                    if smt.entails([c], le(a.data[1], ZERO), 10000): facts.append(le(v, ONE))
                t = t * v ** e
            else: t = t * of_atom(a) ** e
        q = q + t
    return smt.entails(facts, And(ge(q, ZERO), le(q, ONE)), 10000)
def is_zero_at(p, pc):
    return prove.is_zero(p, pc)
def native(ctx, failed): return N.standin(ctx, 'smear.cpp', ['C05'], 'bounds, order, symmetry and limits on a grid of arguments')
