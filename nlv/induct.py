"""Inductive loop rule.

The state at the loop head is generalised to an equality invariant: locations (registers carried by the loop and memory cells
it changes) that hold one value in every way of reaching the head form a class; a class is a constant, or an arbitrary value
shared by its members, plus lower bounds of integer classes.  Starting from the state on entry, the invariant is weakened until
the body preserves it on every path (Houdini).  The obligations of the body are then those of one run from the arbitrary state
that satisfies the invariant: for all numbers of iterations, no bound."""
from .terms import *
from .mem import *
from .loops import phi_inits, set_at, body_run, next_phis, same, finish_outer, avar
from . import smt

MISSING = ('missing',)

def canon(v):
    if v is UNDEF or v is MISSING: return ('undef',)
    if v is True or v is TRUE: return ('f', TRUE)
    if v is False or v is FALSE: return ('f', FALSE)
    if isinstance(v, int): return ('p', P(v))
    if isinstance(v, Poly): return ('p', v)
    if isinstance(v, Form): return ('f', v)
    if isinstance(v, Fl): return ('fl', v)
    if isinstance(v, Ptr): return ('ptr', v.o, v.off if not isinstance(v.off, int) else P(v.off))
    return (type(v).__name__, v)

def changed(base, st):
    """keys (object, offset, size) of cells that differ"""
    out = set()
    for i, o in base.mem.items():
        n = st.mem.get(i)
        if n is o: continue
        if n is None: raise ToolLimit('inductive loop: object %s vanishes' % o.name)
        if not isinstance(o, Cells) or not isinstance(n, Cells):
            if isinstance(o, Arr) and isinstance(n, Arr) and n.layers == o.layers and n.raw == o.raw and n.bottom is o.bottom: continue
            raise ToolLimit('inductive loop: array %s changes' % o.name)
        if n.freed != o.freed: raise ToolLimit('inductive loop: %s freed' % o.name)
        for off, c in n.c.items():
            c0 = o.c.get(off)
            if c0 is None or c0[0] != c[0] or canon(c0[1]) != canon(c[1]): out.add((i, off, c[0]))
        for off, c in o.c.items():
            if off not in n.c or n.c[off][0] != c[0]: out.add((i, off, c[0]))
    return out

def get(st, loc):
    o = st.mem[loc[1]]
    c = o.c.get(loc[2])
    if c is None or c[0] != loc[3]:
        if o.fill != 'undef': raise ToolLimit('inductive loop: implicit initial value of %s+%d' % (o.name, loc[2]))
        return UNDEF
    return c[1]

def put(eng, st, loc, v):
    ob = st.wobj(loc[1])
    if v is UNDEF:
        for off in [k for k, c in ob.c.items() if k < loc[2] + loc[3] and k + c[0] > loc[2]]: del ob.c[off]
    else: eng.cells_put(ob, loc[2], loc[3], v)

def induct(eng, snap, hdr, blocks, prev, rounds=40):
    inits = phi_inits(eng, snap, hdr, prev)
    old_rlog = snap.rlog
    entry = {('phi', d): v for d, v in inits.items()}
    # numbers are compared up to their constants on entry: a class is also a constant distance (a counter that starts at -1)
    # (with either sign)
    sgn = {}
    def off(l):
        e = entry[l]
        if isinstance(e, bool): return None
        if isinstance(e, int): return P(e)
        return e if isinstance(e, Poly) else None
    def norm(l, v):
        k = canon(v); o = off(l)
        if k[0] != 'p' or o is None: return k
        d = sub(k[1], o)
        if l not in sgn and isconst.get(l) and d.is_const() and d is not ZERO: sgn[l] = -1 if d.const() < 0 else 1
        return ('p', scale(d, sgn.get(l, 1)))
    isconst = {}
    cls = {l: norm(l, v) for l, v in entry.items()}        # location -> class
    val = dict(entry)                                    # location -> value at the head
    isconst = {l: True for l in entry}
    facts = {}                                           # class -> lower bound candidates still alive: list of (bound)
    dead = set()                                         # (first location, bound) dropped
    low = {}                                             # integer locations: direction of change candidates
    marks = (len(eng.obligations), len(eng.eqs), len(eng.meqs))
    for rnd in range(rounds):
        del eng.obligations[marks[0]:], eng.eqs[marks[1]:], eng.meqs[marks[2]:]
        st = set_at(eng, snap, hdr, {l[1]: v for l, v in val.items() if l[0] == 'phi'}, {})
        for l, v in val.items():
            if l[0] == 'cell': put(eng, st, l, v)
        for l, b in low.items():
            if (l, b) in dead or isconst[l] or not isinstance(val[l], Poly): continue
            st.assume(ge(scale(sub(val[l], off(l)), sgn.get(l, 1)), ZERO))
        st.rlog = None
        base = st.fork()
        fins = body_run(eng, st, hdr, blocks)
        backs = [f for f in fins if f.kind == 'back']
        grew = False
        for f in backs:
            for k in changed(base, f.st):
                l = ('cell',) + k
                if l not in val:
                    v = get(snap, l)
                    entry[l] = v; val[l] = v; cls[l] = norm(l, v); isconst[l] = True; grew = True
        vecs = []
        for f in backs:
            nx = next_phis(eng, f, hdr)
            vecs.append({l: (nx[l[1]] if l[0] == 'phi' else get(f.st, l)) for l in val})
        sig = {}
        for l in val:
            cs = tuple(norm(l, v[l]) for v in vecs)
            if cls[l] == ('undef',) or ('undef',) in cs: sig[l] = ('undef',)
            elif any(c[0] == 'ptr' for c in cs + (norm(l, entry[l]),)) and any(c != norm(l, entry[l]) for c in cs):
                # a pointer that changes: not generalised; a later read of it is beyond the rule
                sig[l] = ('undef',); eng.abstracted = True
            elif isconst[l] and all(c == norm(l, entry[l]) for c in cs): sig[l] = cls[l]
            else: sig[l] = (cls[l], cs)
        # classes stay the same iff the partition by signature is the old partition
        newgrp = {}
        for l in val: newgrp.setdefault(sig[l], []).append(l)
        stable = not grew
        for l in val:
            if isconst[l] and sig[l] != cls[l]: stable = False
        oldgrp = {}
        for l in val: oldgrp.setdefault(cls[l], set()).add(sig[l])
        if any(len(s) > 1 for s in oldgrp.values()): stable = False
        # lower bounds
        for l, b in low.items():
            if (l, b) in dead or isconst[l]: continue
            for f, v in zip(backs, vecs):
                x = v[l]
                if not isinstance(x, (int, Poly)) or not f.st.entails(ge(scale(sub(P(x), off(l)), sgn.get(l, 1)), ZERO)): dead.add((l, b)); stable = False; break
        if stable: break
        ncls = {}; nval = {}; nconst = {}
        for s, ls in newgrp.items():
            if s == ('undef',):
                for l in ls: ncls[l] = s; nval[l] = UNDEF; nconst[l] = True
                continue
            if all(isconst[l] and sig[l] == cls[l] for l in ls):
                for l in ls: ncls[l] = s; nval[l] = entry[l]; nconst[l] = True
                continue
            vs = [entry[ls[0]]] + [v[ls[0]] for v in vecs]
            name = 'i_%s' % (ls[0][1] if ls[0][0] == 'phi' else 'c%d_%d' % (ls[0][1], ls[0][2]))
            kinds = {canon(v)[0] for v in vs}
            if kinds == {'p'}: x = fresh(name, 'I' if all(is_int(P(v)) for v in vs) else 'R')
            elif kinds == {'fl'}: x = fl_fresh(name)
            elif kinds == {'f'}: x = fresh_bool(name)
            elif kinds <= {'f', 'p'}: x = fresh(name, 'I')
            else: raise ToolLimit('inductive loop: values of %s: %s' % (ls[0], [str(v)[:60] for v in vs][:4]))
            if kinds <= {'f', 'p'} and len(kinds) > 1: raise ToolLimit('inductive loop: mixed boolean')
            for l in ls:
                ncls[l] = ('v', x); nval[l] = add(scale(x, sgn.get(l, 1)), off(l)) if kinds == {'p'} and off(l) is not None else x; nconst[l] = False
                e = entry[l]
                if off(l) is not None and is_int(off(l)): low.setdefault(l, 0)
        cls, val, isconst = ncls, nval, nconst
    else: raise ToolLimit('inductive loop: no invariant after %d rounds' % rounds)
    outs = []
    for f in fins:
        if f.kind == 'back': continue
        f.st.rlog = old_rlog
        if f.kind == 'exit':
            blk, tgt = f.val
            eng.enter(f.st, f.st.frames[-1], tgt)
        else: finish_outer(eng, f)
        outs.append(f.st)
    eng.inductions = getattr(eng, 'inductions', [])
    eng.inductions.append(dict(rounds=rnd + 1, locations=len(val), classes=len({c for l, c in cls.items() if not isconst[l]}), backs=len(backs), exits=len(outs)))
    return outs
