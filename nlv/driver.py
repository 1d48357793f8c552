"""Run a harness function symbolically and discharge the obligations it raises."""
import time
from . import exec as X, smt, prove, ir
from .mem import *
from .terms import *

UNROLL = 4     # iterations of the confirming run

def short(t, n=400):
    s = str(t); return s if len(s) <= n else s[:n] + '...'

def dedupe(l): 
    out = []
    for x in l:
        if x not in out: out.append(x)
    return out

def decide_eq(pc, a, b, hook=None):
    """-> (True/False/None, detail, cex, backend)"""
    if a is UNDEF or b is UNDEF: return False, 'uninitialised value: %s / %s' % (a, b), None, 'term-rewriting'
    if isinstance(a, Fl) or isinstance(b, Fl):
        if a is b: return True, '', None, 'term-rewriting'
        f = mk_form('fcmp', 'oeq', a, b)
        both = Or(f, And(mk_form('fcmp', 'uno', a, a), mk_form('fcmp', 'uno', b, b)))
        r = smt.check(smt.relevant(list(pc), Not(both)) + [Not(both)])
        if r == 'unsat': return True, '', None, 'z3'
        return (False if r == 'sat' else None), 'code: %s   spec: %s' % (short(a), short(b)), None, 'z3'
    a = P(a) if not isinstance(a, Form) else ite(a, ONE, ZERO); b = P(b) if not isinstance(b, Form) else ite(b, ONE, ZERO)
    if a is not b: pc, a, b = pin(pc, a, b)
    if a is b: return True, '', None, 'term-rewriting'
    if prove.eq_terms(a, b, list(pc)): return True, '', None, 'term-rewriting+z3'
    d = sub(a, b)
    if any(x.kind == 'sum' for x in atoms_of(d)):
        from . import mat
        q = mat.to_traces(d)
        if prove.is_zero(q, list(pc)): return True, '', None, 'matrix-rewriting'
        if prove.is_zero(fubini(q), list(pc)): return True, '', None, 'matrix-rewriting'
    c = prove.refute_eq(a, b, list(pc), hook=hook)
    det = 'code: %s   spec: %s   under %s' % (short(a), short(b), [short(f, 80) for f in pc][:12])
    if c is None or c == 'no-sample': return None, det, None, 'term-rewriting+z3'
    return False, det, c, 'term-rewriting+z3'

def pin(pc, *ts):
    mp = smt.fixed_vars(pc)
    if not mp: return (list(pc),) + ts
    return ([g for g in (subst(f, mp) if isinstance(f, Form) else f for f in pc) if g is not TRUE] + [eq(of_atom(a), v) for a, v in mp.items()],) + tuple(subst(t, mp) if isinstance(t, (Poly, Form)) else t for t in ts)

def decide(pc, f):
    pc, f = pin(pc, f)
    if f is TRUE or f in pc: return True, '', None, 'term-rewriting'
    rel = smt.relevant(list(pc), Not(f))
    r = smt.check(rel + [Not(f)], model=True) if f is not FALSE else smt.check(list(pc), model=True)
    m = None
    if isinstance(r, tuple): r, m = r
    if r == 'unsat': return True, '', None, 'z3'
    det = 'condition %s under %s' % (short(f), [short(x, 100) for x in pc][:14])
    if r == 'sat': return False, det, short(m, 1500) if m is not None else None, 'z3'
    return None, det, None, 'z3'

def earlier(e, st, fname, args):
    e.pre = 'earlier.'
    e.call_fn(st, fname, list(args))
    out = []
    for F in e.run(st):
        if F.kind != 'ret': continue
        s = F.st; s.done = None; s.frames = []; s.stops = (); s.ghost = {}; s.events = (); s.caught = (); s.exc = None
        out.append(s)
    e.pre = ''; e.obligations.clear(); e.eqs.clear(); e.covers.clear()
    if e.meqs: e.meqs.clear()
    return out

def run(ctx, mod, fname, args=(), label=None, mode='R', cfg=None, cut_ok=False, setup=None, allow=(), expect=None, hook=None, limit=300, max_steps=4000000, only=None, unroll=None, again=False):
    """expect: set of obligation names that must be raised (vacuity); again: after an earlier run of the harness with other
    values (the same shapes), from whatever state it left in static and global objects"""
    label = label or fname
    if again and ' again' not in label: label += ' again'
    from . import mat
    mat.reset()
    e = X.Engine(mod, mode=mode); e.cfg.update(cfg or {}); e.cut_ok = cut_ok; e.deadline = time.time() + limit; e.max_steps = max_steps
    if setup: setup(e)
    if unroll: e.prune = (e.induct, unroll); e.induct = None
    sts = [X.State(e)]
    try:
        if again: sts = earlier(e, sts[0], fname, args)
        fins = []
        for st in sts:
            e.call_fn(st, fname, list(args)); fins += e.run(st)
    except ToolLimit as x:
        ctx.limit(label, x); ctx.engine_used(e); return None, e
    ctx.engine_used(e)
    n = 0
    seen = set()
    for F in fins:
        if F.kind == 'ret': n += 1; continue
        if F.kind == 'dead': continue
        if F.kind in allow: n += 1; continue
        if F.kind == 'error' and e.abstracted: ctx.limit(label, 'read of a generalised pointer: %s' % (F.val,)); n += 1; continue
        what = {'throw': 'no exception escapes', 'error': 'memory safety', 'abort': 'no abort'}.get(F.kind, F.kind)
        ctx.ob('%s: %s' % (label, what), False, '%s under %s' % (F.val, [short(x, 100) for x in F.st.pc][-12:]), backend='symbolic execution')
    if n == 0 and not any(F.kind in ('throw', 'error', 'abort') for F in fins): ctx.limit(label + ': vacuity', 'no execution reaches the end')
    elif n: ctx.ob('%s: memory safe, no abort, no stray exception' % label, True, backend='symbolic execution')
    ctx.covers += n
    memo = {}; rrun = None
    def put(nm, r):
        seen.add(nm)
        memo.setdefault(nm, []).append(r)
    if only is not None:
        e.obligations = [x for x in e.obligations if x[0].startswith(only)]; e.eqs = [x for x in e.eqs if x[0].startswith(only)]
    for nm, pc, f, note, evs in e.obligations:
        r = (False, note, None, 'symbolic execution') if note else decide(pc, f)
        if mode == 'F' and r[0] is False and not note:
            # a failure that needs a NaN is real; otherwise it may come from the uninterpreted arithmetic: ask the real-arithmetic run
            fs = smt.relevant(list(pc), Not(f)) + [Not(f)]
            if smt.check(fs, extra=smt.no_nan(fs)) != 'unsat':
                if rrun is None:
                    c2 = type(ctx)(ctx.prop, ctx.tier)
                    run(c2, mod, fname, args, label, 'R', cfg, cut_ok, setup, allow, None, hook, limit, max_steps, only, None, again)
                    rrun = {o['name']: o['status'] for o in c2.obl}
                if rrun.get('%s: %s' % (label, nm)) != 'failed': r = (None,) + tuple(r[1:])
        put(nm, r)
    for nm, pc, a, b, s in e.eqs: put(nm, decide_eq(pc, a, b, hook))
    if e.meqs:
        from . import mat
        for nm, pc, a, b in e.meqs: put(nm, mat.decide(pc, a, b))
    if getattr(e, 'inductions', None) and any(r[0] is False for rs in memo.values() for r in rs):
        # a failure from the arbitrary state of the inductive rule is a violation only if the first iterations, executed
        # one by one from the entry, fail too: the invariant found may be too weak for a loop written another way
        c2 = type(ctx)(ctx.prop, ctx.tier)
        run(c2, mod, fname, args, label, mode, cfg, cut_ok, setup, allow, None, hook, limit, max_steps, only, UNROLL, again)
        conf = {o['name'] for o in c2.obl if o['status'] == 'failed'}
        if not any(o['status'] == 'undecided' for o in c2.obl) or conf:
            for nm in memo:
                if '%s: %s' % (label, nm) not in conf: memo[nm] = [(None, 'fails from the arbitrary state only, not within the first %d iterations: %s' % (UNROLL, r[1])) + tuple(r[2:]) if r[0] is False else r for r in memo[nm]]
    for nm, rs in memo.items():
        bad = [r for r in rs if r[0] is False]; und = [r for r in rs if r[0] is None]
        if bad: ctx.ob('%s: %s' % (label, nm), False, bad[0][1], bad[0][2], bad[0][3])
        elif und: ctx.ob('%s: %s' % (label, nm), None, und[0][1], None, und[0][3])
        else:
            be = 'z3' if any('z3' in r[3] for r in rs) else rs[0][3]
            ctx.ob('%s: %s' % (label, nm), True, backend=be)
    for x in (expect or ()):
        if x not in seen: ctx.limit('%s: %s' % (label, x), 'obligation not reached')
    return fins, e

def run_ranks(ctx, mod, fname, args_of_rank, label, cfg=None, maxcoll=40, **kw):
    """all ranks of a communicator: the ranks are explored one after the other, collectives are matched round by round,
    and the obligations are discharged on the complete runs"""
    P_ = len(args_of_rank); known = []
    setup = kw.get('setup')
    while True:
        sus = []
        for r in range(P_):
            e = X.Engine(mod); e.cfg.update(cfg or {}); e.cfg.update(comm_size=P_, comm_rank=r, gathers=known); e.deadline = time.time() + 120
            if setup: setup(e)
            st = X.State(e); e.call_fn(st, fname, list(args_of_rank[r]))
            try: fins = [F for F in e.run(st) if F.kind != 'dead']
            except ToolLimit as x: ctx.limit(label, x); return
            s = [F for F in fins if F.kind == 'suspend']
            if s and len(fins) > 1: ctx.limit(label, 'several paths at a collective'); return
            sus.append(s[0] if s else None)
        if all(s is None for s in sus): break
        if any(s is None for s in sus) or len({(s.val[0], s.val[1]) for s in sus}) > 1:
            ctx.ob(label + ': all ranks take part in the same collectives', False, 'collective number %d: %s' % (len(known), [s.val[:2] if s else 'none' for s in sus]), backend='symbolic execution'); return
        known.append([s.val for s in sus])
        if len(known) > maxcoll: ctx.limit(label, 'number of collectives'); return
    ctx.ob(label + ': all ranks take part in the same collectives', True, backend='symbolic execution')
    for r in range(P_):
        c = dict(cfg or {}); c.update(comm_size=P_, comm_rank=r, gathers=known)
        run(ctx, mod, fname, args_of_rank[r], label='%s rank %d' % (label, r), cfg=c, **kw)
