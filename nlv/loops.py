"""Loop rules.

summarise: iterations with closed forms (induction slots, sums, independent array writes).
cut: havoc rule with an exactly executed last iteration (used for search loops)."""
from .terms import *
from .mem import *
from . import smt, ir

class CannotSummarise(Exception): pass
class RawTyped(Exception): pass

def slot_get(eng, st, slot):
    if slot[0] == 'phi': return st.frames[-1].regs.get(slot[1], UNDEF)
    o = st.mem.get(slot[1])
    if o is None: return UNDEF
    c = o.c.get(slot[2])
    return c[1] if c is not None else UNDEF

def phi_inits(eng, snap, hdr, prev):
    fr = snap.frames[-1]
    out = {}
    for ph in fr.fn.blocks[hdr].phis:
        for v, lab in ph.a:
            if lab == prev: out[ph.dst] = eng.ev(snap, v)
    return out

def set_at(eng, snap, hdr, phivals, cells, acells=None):
    """state positioned at the start of the header with given phi values and cells"""
    st = snap.fork()
    fr = st.frames[-1]
    for (o, idx, part), v in (acells or {}).items():
        if v is UNDEF: continue
        ob = st.wobj(o); ob.layers = ob.layers + (Layer((), idx, part, TRUE, P(v) if isinstance(v, int) else v),)
    for (o, off, sz), v in cells.items():
        ob = st.wobj(o); eng.cells_put(ob, off, sz, v)
    for d, v in phivals.items(): fr.regs[d] = v
    fr.prev = fr.blk; fr.blk = hdr; fr.ip = 0
    return st

def body_run(eng, st, hdr, blocks):
    st.stops = st.stops + ((len(st.frames), hdr, blocks),)
    st.rlog = [] if st.rlog is None else st.rlog
    n0 = len(st.pc)
    fins = eng.run(st)
    for f in fins:
        f.st.stops = f.st.stops[:-1]; f.st.done = None
    return fins

def next_phis(eng, f, hdr):
    fr = f.st.frames[-1]
    out = {}
    for ph in fr.fn.blocks[hdr].phis:
        for v, lab in ph.a:
            if lab == f.val: out[ph.dst] = eng.ev(f.st, v); break
    return out

def mods(base, st):
    """cells and arrays changed in st with respect to base (objects that exist in base)"""
    cells = {}; arrs = {}
    for i, o in base.mem.items():
        n = st.mem.get(i)
        if n is o or n is None: continue
        if isinstance(o, Cells):
            if not isinstance(n, Cells): raise CannotSummarise('object kind changed')
            for off, c in n.c.items():
                c0 = o.c.get(off)
                if c0 is None or c0[0] != c[0] or not same(c0[1], c[1]): cells[(i, off, c[0])] = c[1]
            for off in o.c:
                if off not in n.c: raise CannotSummarise('cell layout changed in %s' % o.name)
            if n.freed != o.freed: raise CannotSummarise('free in loop')
        else:
            if n.raw != o.raw:
                e = RawTyped(); e.o = i; e.esz = n.esz; raise e
            if n.layers[:len(o.layers)] != o.layers: raise CannotSummarise('array rewritten')
            if n.bottom is not o.bottom: raise CannotSummarise('array bottom replaced')
            if len(n.layers) > len(o.layers): arrs[i] = n.layers[len(o.layers):]
    return cells, arrs

def same(a, b):
    if a is b: return True
    if isinstance(a, (Poly, Form)) or isinstance(b, (Poly, Form)):
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, Poly): return P(a) is b
        if isinstance(b, int) and not isinstance(b, bool) and isinstance(a, Poly): return P(b) is a
        return False
    return type(a) == type(b) and a == b

def havoc(v, name, mode, st=None):
    """fresh value of the same kind: (value, variable) or None"""
    if isinstance(v, bool) or isinstance(v, Form): f = fresh_bool('h_' + name); return f, f
    if isinstance(v, int): x = fresh('h_' + name, 'I'); return x, avar(x)
    if isinstance(v, Poly):
        x = fresh('h_' + name, 'I' if is_int(v) and getattr(havoc, 'intlike', True) and mode != 'real' else 'R'); return x, avar(x)
    if isinstance(v, Fl): x = fl_fresh('h_' + name); return x, x
    if isinstance(v, Ptr):
        if v.o == 0: return None
        x = fresh('h_' + name, 'I'); m = 1
        o = st.mem.get(v.o) if st is not None else None
        if isinstance(o, Arr): m = 8 if o.raw else o.esz
        return Ptr(v.o, add(P(v.off), scale(x, m))), avar(x)
    return None

def free_vars_of(idx):
    s = frozenset()
    for x in idx: s |= free_vars(x)
    return s

def avar(p):
    (mono, c), = p.m.items(); return mono[0][0]

def vsub(a, b):
    """difference as a Poly or None"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return sub(P(a.off), P(b.off)) if a.o == b.o else None
    if isinstance(a, bool) or isinstance(b, bool): return None
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)): return sub(P(a), P(b))
    return None

def vadd(a, p):
    if isinstance(a, Ptr): return Ptr(a.o, add(P(a.off), p))
    r = add(P(a), p)
    if isinstance(a, int) and r.is_const(): return int(r.const())
    return r

def fv_of(v):
    if isinstance(v, (Poly, Form)): return free_vars(v)
    if isinstance(v, Ptr): return free_vars(v.off) if isinstance(v.off, Poly) else frozenset()
    if isinstance(v, tuple):
        s = frozenset()
        for x in v: s |= fv_of(x)
        return s
    return frozenset()

def bvars_in(f, acc):
    if isinstance(f, Form):
        if f.k == 'bvar': acc.add(f)
        else:
            for x in f.a:
                if isinstance(x, (Form, Poly)): bvars_in(x, acc)
    elif isinstance(f, Poly):
        for a in atoms_of(f):
            if a.kind == 'ite': bvars_in(a.data[0], acc)
    return acc

def vsubst(v, mp):
    if isinstance(v, (Poly, Form)): return subst(v, mp)
    if isinstance(v, Ptr): return Ptr(v.o, subst(v.off, mp) if isinstance(v.off, Poly) else v.off)
    return v

def is_double_phi(fr, hdr, d):
    for ph in fr.fn.blocks[hdr].phis:
        if ph.dst == d: return ph.ty.k == 'double'
    return False

def summarise(eng, snap, hdr, blocks, prev):
    for _ in range(4):
        try: return summarise1(eng, snap.fork(), hdr, blocks, prev)
        except RawTyped as e: eng._type_raw(snap, e.o, e.esz, 0)
    raise CannotSummarise('raw arrays')
def summarise1(eng, snap, hdr, blocks, prev):
    fr = snap.frames[-1]
    inits = phi_inits(eng, snap, hdr, prev)
    slots = {('phi', d): v for d, v in inits.items()}    # slot -> init
    ind = {}                                             # slot -> step
    k = fresh('k', 'I'); ka = avar(k)
    ev0 = snap.events
    ob0 = len(eng.obligations)
    hv = {}
    old_rlog = snap.rlog
    def state(K, extra_cells=None):
        phis = {}; cells = {}; acells = {}
        hvars = {}
        for s, init in slots.items():
            if s in ind: v = vadd(init, scale(K, 1) * ind[s])
            else:
                if s not in hv:
                    if init is UNDEF: hv[s] = (UNDEF, None)
                    else:
                        isd = s[0] == 'phi' and is_double_phi(fr, hdr, s[1]) or s[0] == 'cell' and s[3] == 8 and isinstance(init, Poly) and s in dbl or s[0] == 'acell' and s in dbl
                        h = havoc(init, s[1] if s[0] == 'phi' else 'c%d_%s' % (s[1], s[2] if s[0] == 'cell' else s[3]), 'real' if isd else 'int', snap)
                        if h is None: raise CannotSummarise('cannot generalise %s = %r' % (s, init))
                        hv[s] = h
                v = hv[s][0]
            if s[0] == 'phi': phis[s[1]] = v
            elif s[0] == 'acell': acells[(s[1], s[2], s[3])] = v
            else: cells[(s[1], s[2], s[3])] = v
        st = set_at(eng, snap, hdr, phis, cells, acells)
        st.rlog = []
        return st
    def nval(s, nx, cm, am, h):
        if s[0] == 'phi': return nx[s[1]]
        if s[0] == 'cell': return cm.get((s[1], s[2], s[3]), h)
        for L in reversed(am.get(s[1], ())):
            if L.part == s[3] and L.idx == s[2]: return L.val
        return h
    dbl = set()
    for rnd in range(12):
        changed = False
        st = state(k); st.assume(ge(k, ZERO))
        base = st.fork()
        eng.lenient += 1
        try: fins = body_run(eng, st, hdr, blocks)
        except ToolLimit as e: raise CannotSummarise('body: %s' % e)
        finally: eng.lenient -= 1
        backs = [f for f in fins if f.kind == 'back']
        if not backs: raise CannotSummarise('no back edge: %s' % [(f.kind, f.val) for f in fins][:4])
        if any(f.st.events != ev0 for f in backs): raise CannotSummarise('ghost events')
        info = []
        for f in backs:
            nx = next_phis(eng, f, hdr)
            cm, am = mods(base, f.st)
            for key, v in cm.items():
                s = ('cell',) + key
                if s not in slots:
                    c0 = snap.mem[key[0]].c.get(key[1])
                    if c0 is not None and c0[0] != key[2]: raise CannotSummarise('cell size')
                    if isinstance(v, Poly) and not is_int(v) : dbl.add(s)
                    if isinstance(v, Poly) and eng.mode == 'R' and s not in dbl and c0 is not None and isinstance(c0[1], Poly): dbl.add(s)
                    slots[s] = c0[1] if c0 is not None else UNDEF; changed = True
            info.append((f, nx, cm, am))
        if changed: hv.clear(); ind.clear(); continue
        for s, init in slots.items():
            if s in ind or init is UNDEF: continue
            h = hv[s]
            d = None; ok = True
            for f, nx, cm, am in info:
                v = nval(s, nx, cm, am, h[0])
                x = vsub(v, h[0])
                if x is None or not x.is_const() or (d is not None and x is not d): ok = False; break
                d = x
            if ok and d is not None:
                ind[s] = d; changed = True
        if changed: continue
        for f, nx, cm, am in info:
            # an array element at a fixed position (accumulator kept in memory)
            for o, ls in am.items():
                ac = [L for L in ls if not L.vars and ka not in free_vars_of(L.idx)]
                if not ac: continue
                if len(ac) != len(ls): raise CannotSummarise('array with fixed and moving writes')
                for L in ac:
                    s = ('acell', o, L.idx, L.part)
                    if s in slots: continue
                    hs = {h[1] for h in hv.values() if h[1] is not None}
                    if L.guard is not TRUE or free_vars_of(L.idx) & hs: raise CannotSummarise('array accumulator')
                    for t in slots:
                        if t[0] == 'acell' and t[1] == o and t[3] == L.part and not snap.entails(Or(*[ne(x, y) for x, y in zip(t[2], L.idx)])): raise CannotSummarise('array accumulators may overlap')
                    if snap.mem[o].esz != 4: dbl.add(s)
                    if snap.rlog is not None: snap.rlog.append((o, L.idx, L.part, len(snap.pc), tuple(snap.pc)))
                    slots[s] = read_array(snap.mem[o], L.idx, L.part, snap); changed = True
        if changed: hv.clear(); ind.clear(); continue
        break
    else: raise CannotSummarise('no fixpoint')
    # ---- trip count from an exit path whose condition is a single linear test in k
    N = None
    npc = len(base.pc)
    havocs = {h[1] for s, h in hv.items() if s not in ind and h[1] is not None}
    for f in fins:
        if f.kind != 'exit': continue
        delta = [x for x in f.st.pc if x not in base.pcset]
        if len(delta) != 1: continue
        e = delta[0]
        if ka not in free_vars(e) or (free_vars(e) & havocs) or bvars_in(e, set()) & havocs: continue
        n = solve_trip(Not(e), ka)
        if n is not None: N = n; break
    if N is None: raise CannotSummarise('trip count: %s' % [[str(x) for x in f.st.pc if x not in base.pcset] for f in fins if f.kind == 'exit'][:2])
    n, needs_nonneg = N
    N = n
    outs = []
    if not snap.entails(ge(N, ZERO)):
        if needs_nonneg: raise CannotSummarise('trip count may be negative: %s' % N)
        if snap.feasible(lt(N, ZERO)):
            z = snap.fork(); z.assume(lt(N, ZERO))
            zz = set_at(eng, z, hdr, {s[1]: v for s, v in slots.items() if s[0] == 'phi'}, {})
            outs.append(zz)
        snap.assume(ge(N, ZERO))
        if not snap.feasible(ge(N, ZERO)): return outs
    # ---- final pass under 0<=k<N
    st = state(k); st.assume(And(ge(k, ZERO), lt(k, N)))
    base = st.fork()
    del eng.obligations[ob0:]
    fins = body_run(eng, st, hdr, blocks)
    backs = [f for f in fins if f.kind == 'back']
    others = [f for f in fins if f.kind != 'back']
    paths = []
    for f in backs:
        cond = And(*[x for x in f.st.pc if x not in base.pcset])
        nx = next_phis(eng, f, hdr)
        cm, am = mods(base, f.st)
        if f.st.events != ev0: raise CannotSummarise('ghost events')
        paths.append((f, cond, nx, cm, am))
    if not paths and not smt.entails(snap.pc, le(N, ZERO)) and not others: raise CannotSummarise('body never completes')
    value_at = {}      # slot -> function K -> value
    hmap = {}          # havoc var atom -> expression in k
    todo = [s for s in slots if s not in ind]
    res = {}
    for s in todo:
        init = slots[s]; h = hv[s]
        nxt = [(cond, nval(s, nx, cm, am, h[0])) for f, cond, nx, cm, am in paths]
        if all(same(v, h[0]) for _, v in nxt): res[s] = ('same',); continue
        if init is not UNDEF:
            ds = [(c, vsub(v, h[0])) for c, v in nxt]
            if all(d is not None and not (fv_of(d) & {h[1]}) for _, d in ds):
                res[s] = ('acc', merge([(c, d) for c, d in ds])); continue
        if all(not (fv_of(v) & ({h[1]} if h[1] is not None else set())) and not (isinstance(v, Form) and h[1] in bvars_in(v, set())) for _, v in nxt):
            vv = nxt[0][1]
            for c, v in nxt[1:]:
                m = eng.merge_val(c, v, vv)
                if m is None: raise CannotSummarise('merge of %s' % (s,))
                vv = m[0]
            res[s] = ('last', vv); continue
        raise CannotSummarise('slot %s: %s -> %s' % (s, h[0], [str(v) for _, v in nxt][:2]))
    # eliminate havoc variables (accumulators read inside the body)
    def at(s, K, mp):
        init = slots[s]
        if s in ind: return vadd(init, K * ind[s])
        r = res[s]
        if r[0] == 'same': return init
        if r[0] == 'acc':
            d = r[1]
            if (free_vars(d) & havocs): d = subst(d, mp)
            if free_vars(d) & havocs: raise CannotSummarise('coupled accumulators')
            j = fresh('j', 'I')
            return vadd(init, Sum(j, ZERO, K, subst(d, {ka: j})))
        v = r[1]
        if fv_of(v) & havocs: v = vsubst(v, mp)
        if fv_of(v) & havocs: raise CannotSummarise('coupled last value')
        v1 = vsubst(v, {ka: sub(K, ONE)})
        if init is UNDEF:
            if not snap.entails(gt(K, ZERO)) and K is not k:
                # value only defined if the loop ran
                return v1 if isinstance(v1, (Poly, int)) else UNDEF
            return v1
        if K is not k and snap.entails(gt(K, ZERO)): return v1
        m = eng.merge_val(gt(K, ZERO), v1, init)
        if m is None: raise CannotSummarise('last value merge')
        return m[0]
    mp = {}
    for s in todo:
        if res[s][0] == 'same' and hv[s][1] is not None:
            init = slots[s]
            if isinstance(init, Ptr): mp[hv[s][1]] = ZERO
            elif isinstance(init, (int, Poly)) and not isinstance(init, bool): mp[hv[s][1]] = P(init)
    accarr = {s[1] for s in slots if s[0] == 'acell'}
    for f, cond, nx, cm, am in paths:
        for o in accarr:
            for L in am.get(o, ()):
                if ('acell', o, L.idx, L.part) not in slots: raise CannotSummarise('array accumulator and another write')
            am.pop(o, None)
    used = set()
    for f, cond, nx, cm, am in paths:
        used |= free_vars(cond)
        for ls in am.values():
            for L in ls:
                used |= free_vars(L.guard) | fv_of(L.val)
                for e in L.idx: used |= free_vars(e)
    for s in todo: 
        if s in res and res[s][0] in ('acc', 'last'): used |= fv_of(res[s][1])
    for s in todo:
        if res[s][0] != 'same' and hv[s][1] is not None and hv[s][1] in used and not isinstance(slots[s], Ptr):
            v = at(s, k, mp)
            if not isinstance(v, (Poly, int)): raise CannotSummarise('value of %s inside the body' % (s,))
            mp[hv[s][1]] = P(v)
    # ---- array writes
    alay = {}
    for f, cond, nx, cm, am in paths:
        for o, ls in am.items():
            for L in ls:
                g = And(cond, L.guard)
                nl = Layer(L.vars + ((ka, N),), tuple(subst(e, mp) for e in L.idx), L.part, subst(g, mp), vsubst(L.val, mp))
                if fv_of(nl.val) & havocs or free_vars(nl.guard) & havocs: raise CannotSummarise('array write depends on loop state')
                # injectivity in k
                if not injective(nl, ka, snap): raise CannotSummarise('non-injective write %s' % nl)
                alay.setdefault(o, []).append(nl)
    # simplify guards: drop what the index range already says
    for o, ls in alay.items():
        arr = snap.mem[o]
        # reads of written arrays must not see other iterations' writes
        for f in fins:
            for (ro, idx, part, npc_, pcs) in (f.st.rlog or ()):
                if ro != o: continue
                for nl in ls:
                    if nl.part != part: continue
                    if conflict(snap, pcs, idx, nl, ka, k, N, mp): raise CannotSummarise('loop-carried array dependence on %s' % arr.name)
        # writes of different layers at different iterations must not collide unless same iteration
        for a in range(len(ls)):
            for b in range(a + 1, len(ls)):
                if ls[a].part == ls[b].part and collide(snap, ls[a], ls[b], ka): raise CannotSummarise('overlapping writes')
    def prefix(K):
        st = snap.fork()
        phis = {}; cells = {}; acells = {}
        for s in slots:
            if s not in ind and res[s][0] == 'same': 
                if s[0] == 'phi': phis[s[1]] = slots[s]
                continue
            v = at(s, K, mp)
            if s[0] == 'phi': phis[s[1]] = v
            elif s[0] == 'acell': acells[(s[1], s[2], s[3])] = v
            else: cells[(s[1], s[2], s[3])] = v
        for o, ls in alay.items():
            ob = st.wobj(o)
            for L in ls:
                ob.layers = ob.layers + (rename_layer(Layer(tuple((v, (K if v is ka else n)) for v, n in L.vars), L.idx, L.part, L.guard, L.val)),)
        st2 = set_at(eng, st, hdr, phis, cells, acells)
        st2.rlog = old_rlog
        return st2
    end = prefix(N)
    # reads performed in the loop are visible to an enclosing summary
    if old_rlog is not None:
        extra = []
        for f in fins:
            extra.extend(f.st.rlog or ())
        end.rlog = list(old_rlog) + extra
    outs.append(end)
    if others:
        o2 = prefix(k); o2.assume(And(ge(k, ZERO), lt(k, N)))
        del eng.obligations[ob0:]
        for f in body_run(eng, o2, hdr, blocks):
            if f.kind == 'back': continue
            if f.kind == 'exit':
                blk, tgt = f.val
                eng.enter(f.st, f.st.frames[-1], tgt)
                if f.st.rlog is not None and old_rlog is None: f.st.rlog = None
                outs.append(f.st)
            else:
                # thrown / returned out of the frame / error / abort
                finish_outer(eng, f)
                outs.append(f.st)
    for s in outs:
        if old_rlog is None: s.rlog = None
    return outs

def finish_outer(eng, f):
    st = f.st
    if f.kind == 'throw':
        if not st.frames: st.done = ('throw', f.val); return
        if st.stops and len(st.frames) < st.stops[-1][0]: st.done = ('throw', f.val); return
        eng.unwind(st)
    elif f.kind in ('error', 'abort', 'assert'): st.done = (f.kind, f.val)
    else: raise CannotSummarise('unexpected %s' % f.kind)

def rename_layer(L):
    mp = {}; vs = []
    for v, n in L.vars:
        x = fresh('l', 'I'); mp[v] = x; vs.append((avar(x), n))
    vs = tuple((v, subst(n, mp)) for v, n in vs)
    return Layer(vs, tuple(subst(e, mp) for e in L.idx), L.part, subst(L.guard, mp), vsubst(L.val, mp))

def merge(cds):
    r = cds[-1][1]
    for c, d in cds[-2::-1]: r = ite(c, d, r)
    return r

def solve_trip(stay, ka):
    """(N, needs N>=0 proof) such that iterations k=0..N-1 satisfy stay"""
    if stay.k in ('lt', 'le'):
        p = stay.a[0]; off = 0
    elif stay.k == 'not' and stay.a[0].k == 'eq': p = stay.a[0].a[0]
    else: return None
    b = p.m.get(((ka, 1),), 0)
    if not b: return None
    a = sub(p, scale(of_atom(ka), b))
    if ka in free_vars(a): return None
    if stay.k == 'lt':
        if b < 0: return None
        n = scale(a, Fraction(-1) / b)
        if not is_int(n): return None
        return n, False
    if stay.k == 'le':
        if b < 0: return None
        n = scale(a, Fraction(-1) / b)     # k <= n
        if not is_int(n): return None
        return add(n, ONE), False
    n = scale(a, Fraction(-1) / b)
    if not is_int(n): return None
    return n, True

def injective(L, ka, snap):
    """different values of k (and inner variables) write different elements"""
    sol = solve_layer(L, tuple(fresh('q', 'I') for _ in L.idx))
    return sol is not None

def conflict(snap, pcs, idx, L, ka, k, N, mp):
    """could iteration k'<k (or >k) have written the element read in iteration k?"""
    ren = {}; cs = []
    k2 = None
    for v, n in L.vars:
        x = fresh('w', 'I'); ren[v] = x
        if v is ka: k2 = x
    for v, n in L.vars: cs.append(And(ge(ren[v], ZERO), lt(ren[v], subst(n, ren))))
    cs.append(ne(k2, k))
    for e, i in zip(L.idx, idx): cs.append(eq(subst(e, ren), subst(i, mp)))
    cs.append(subst(L.guard, ren))
    fs = [subst(x, mp) for x in pcs] + cs
    c = And(*cs)
    if c is FALSE: return False
    return smt.check(smt.relevant([subst(x, mp) for x in pcs], c) + [c]) != 'unsat'

def collide(snap, A, B_, ka):
    ren = {}; cs = []; ren2 = {}
    for v, n in A.vars: ren[v] = fresh('w', 'I')
    for v, n in B_.vars: ren2[v] = fresh('w', 'I')
    for v, n in A.vars: cs.append(And(ge(ren[v], ZERO), lt(ren[v], subst(n, ren))))
    for v, n in B_.vars: cs.append(And(ge(ren2[v], ZERO), lt(ren2[v], subst(n, ren2))))
    cs.append(ne(ren[ka], ren2[ka]))
    cs.append(subst(A.guard, ren)); cs.append(subst(B_.guard, ren2))
    for e, i in zip(A.idx, B_.idx): cs.append(eq(subst(e, ren), subst(i, ren2)))
    c = And(*cs)
    if c is FALSE: return False
    return smt.check(smt.relevant(snap.pc, c) + [c]) != 'unsat'

# ---------------------------------------------------------------- cut rule
def cut(eng, snap, hdr, blocks, prev):
    """exits after 0, 1 or arbitrarily many iterations; for the latter everything the loop modifies is
    arbitrary at the start of the second to last iteration, and the last full iteration is executed exactly."""
    inits = phi_inits(eng, snap, hdr, prev)
    outs = []
    def collect(fins, tag):
        backs = []
        for f in fins:
            if f.kind == 'back': backs.append(f)
            elif f.kind == 'exit':
                blk, tgt = f.val
                f.st.ghost['cut:' + hdr] = tag
                eng.enter(f.st, f.st.frames[-1], tgt); outs.append(f.st)
            else:
                finish_outer(eng, f); outs.append(f.st)
        return backs
    st = set_at(eng, snap, hdr, inits, {})
    modset = {}
    base = st.fork()
    b0 = collect(body_run(eng, st, hdr, blocks), 0)
    for f in b0:
        cm, am = mods(base, f.st)
        if am: raise ToolLimit('cut loop writes a symbolic array')
        modset.update({k: v for k, v in cm.items()})
    # iteration 1, exact
    for f in b0:
        st = f.st; nx = next_phis(eng, f, hdr)
        s2 = set_at(eng, st, hdr, nx, {})
        s2.frames[-1].prev = f.val
        b1 = collect(body_run(eng, s2, hdr, blocks), 1)
        for g in b1:
            cm, am = mods(base, g.st)
            if am: raise ToolLimit('cut loop writes a symbolic array')
            modset.update(cm)
    # arbitrary later iteration
    for rnd in range(6):
        n_out = len(outs); nob = len(eng.obligations)
        phis = {}; cells = {}
        facts = []
        for d, v in inits.items():
            isd = is_double_phi(snap.frames[-1], hdr, d)
            h = havoc(v, d, 'real' if isd else 'int') if v is not UNDEF else None
            if h is None:
                if isd:
                    x = fresh('h_' + d) if eng.mode == 'R' else fl_fresh('h_' + d); h = (x, x)
                else: raise ToolLimit('cut: phi %s = %r' % (d, v))
            phis[d] = h[0]
        for (o, off, sz), v in modset.items():
            h = havoc(v, 'c%d' % off, 'real' if isinstance(v, Poly) and not is_int(v) else 'int')
            if h is None:
                if v is UNDEF: continue
                raise ToolLimit('cut: cell %s+%s = %r' % (snap.mem[o].name, off, v))
            cells[(o, off, sz)] = h[0]
        st = set_at(eng, snap, hdr, phis, cells)
        inv = getattr(eng, 'cut_invariant', None)
        st.ghost['cutiter'] = 'havoc'
        st.events = st.events + (('havoc', hdr),)
        hb = st.fork()
        fins = body_run(eng, st, hdr, blocks)
        grow = False; backs = []
        for f in fins:
            if f.kind != 'back': continue
            cm, am = mods(hb, f.st)
            if am: raise ToolLimit('cut loop writes a symbolic array')
            for k, v in cm.items():
                if k not in modset: modset[k] = v; grow = True
            backs.append(f)
        if grow: continue
        for f in fins:
            if f.kind != 'back' : 
                if f.kind != 'exit': finish_outer(eng, f); outs.append(f.st)
        for f in backs:
            nx = next_phis(eng, f, hdr)
            s2 = set_at(eng, f.st, hdr, nx, {})
            collect(body_run(eng, s2, hdr, blocks), 'n')
        break
    else: raise ToolLimit('cut: modified set does not stabilise')
    for s in outs: s.rlog = None
    return outs
