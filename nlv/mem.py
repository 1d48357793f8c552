"""Memory model: byte-cell objects and symbolic arrays (layers of guarded lambda writes)."""
from .terms import *
from . import smt

class ToolLimit(Exception): pass

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off=0):
        if isinstance(off, Poly) and off.is_const(): off = int(off.const())
        self.o = o; self.off = off
    def __eq__(self, b): return isinstance(b, Ptr) and self.o == b.o and self.off == b.off
    def __ne__(self, b): return not self == b
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return '&%s+%s' % (self.o, self.off)
NULL = Ptr(0, 0)

class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, b): return isinstance(b, Fn) and self.name == b.name
    def __ne__(self, b): return not self == b
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'fn:' + self.name

class Cells:
    __slots__ = ('name', 'size', 'c', 'fill', 'kind', 'freed')
    def __init__(self, name, size, fill='undef', kind='heap'):
        self.name = name; self.size = size; self.c = {}; self.fill = fill; self.kind = kind; self.freed = False
    def copy(self):
        o = Cells(self.name, self.size, self.fill, self.kind); o.c = dict(self.c); o.freed = self.freed; return o

class Layer:
    """forall vars in ranges, guard: array[idx].part := val"""
    __slots__ = ('vars', 'idx', 'part', 'guard', 'val')
    def __init__(self, vars, idx, part, guard, val):
        self.vars = vars      # tuple of (atom, count Poly): 0 <= v < count
        self.idx = idx; self.part = part; self.guard = guard; self.val = val
    def __repr__(self): return 'L{%s [%s].%d if %s := %s}' % (self.vars, self.idx, self.part, self.guard, self.val)

class Arr:
    __slots__ = ('name', 'esz', 'shape', 'strides', 'bottom', 'layers', 'kind', 'freed', 'raw', 'gen')
    # bottom: function (idx tuple, part) -> value ; layers: tuple of Layer
    def __init__(self, name, esz, shape, strides, bottom, kind='heap'):
        self.name = name; self.esz = esz; self.shape = shape; self.strides = strides
        self.bottom = bottom; self.layers = (); self.kind = kind; self.freed = False; self.raw = False; self.gen = False
    def copy(self):
        o = Arr(self.name, self.esz, self.shape, self.strides, self.bottom, self.kind)
        o.layers = self.layers; o.freed = self.freed; o.raw = self.raw; o.gen = self.gen; return o

class Bottom:
    """base contents of an array"""
    def __init__(self, kind, name=None, f=None): self.kind = kind; self.name = name; self.f = f
    def get(self, idx, part):
        if self.kind == 'zero': return ZERO
        if self.kind == 'undef': return UNDEF
        if self.kind == 'atom':
            return fn(self.name + ('.im' if part else ''), *idx)
        if self.kind == 'iatom': return fn(self.name, *idx, sort='I')
        return self.f(idx, part)
    def __repr__(self): return '%s:%s' % (self.kind, self.name)

def row_layout(shape, esz):
    """LayoutLeft strides"""
    st = [const(esz)]
    for n in shape[:-1]: st.append(mul(st[-1], n))
    return tuple(st)

def decode(arr, off, st):
    """byte offset -> (idx tuple, part)"""
    off = P(off)
    esz = arr.esz
    if arr.gen: return decode_gen(arr, off)
    if len(arr.strides) == 1:
        s = arr.strides[0]
        return _decode1(off, s, esz)
    s0, s1 = arr.strides
    # strides are esz and esz*ld (or swapped)
    swap = False
    if not s0.is_const(): s0, s1, swap = s1, s0, True
    if not s0.is_const(): raise ToolLimit('general strides')
    cands = []
    j, rest = poly_divmod(off, s1)
    i, part = _decode1(rest, s0, esz)[0][0], _decode1(rest, s0, esz)[1]
    n0 = arr.shape[1 if swap else 0]
    cands.append((i, j))
    cands.append((add(i, n0), sub(j, ONE)) if not s1.is_const() else (i, j))
    cands.append((sub(i, n0), add(j, ONE)) if not s1.is_const() else (i, j))
    for a, b in cands:
        if st.entails(And(ge(a, ZERO), lt(a, n0))):
            idx = (b, a) if swap else (a, b)
            return idx, part
    a, b = cands[0]
    return ((b, a) if swap else (a, b)), part

def decode_gen(arr, off):
    """a buffer described by symbolic strides (distinct elements do not overlap): offset = i*s0 + j*s1 + part"""
    idx = [None] * len(arr.strides); r = off
    for k in sorted(range(len(arr.strides)), key=lambda k: arr.strides[k].is_const()):
        idx[k], r = poly_divmod(r, arr.strides[k])
    if not r.is_const() or not 0 <= r.const() < arr.esz: raise ToolLimit('access to %s at byte offset %s is not of the form i*stride0 + j*stride1' % (arr.name, off))
    return tuple(idx), int(r.const())

def _decode1(off, s, esz):
    if not s.is_const(): raise ToolLimit('symbolic unit stride')
    s = int(s.const())
    c = off.const()
    if isinstance(c, Fraction): raise ToolLimit('fractional offset')
    part = c % s
    q = scale(sub(off, const(part)), Fraction(1, s))
    for mono, k in q.m.items():
        if isinstance(k, Fraction): raise ToolLimit('unaligned symbolic offset %s' % off)
    return (q,), int(part)

def poly_divmod(p, d):
    """divide monomials of p by the single-monomial divisor d where possible; general d by trial"""
    if d.is_const():
        c = d.const(); q = {}; r = {}
        k = p.const()
        # only sensible for constant offsets
        if p.is_const(): return const(k // c), const(k % c)
        q = {}; r = {}
        for mono, v in p.m.items():
            if v % c == 0: q[mono] = v // c
            elif mono == ():
                q[()] = v // c; r[()] = v % c
            else: r[mono] = v
        return mk_poly(q), mk_poly(r)
    if len(d.m) == 1:
        (dm, dc), = d.m.items()
        q = {}; r = {}
        for mono, v in p.m.items():
            md = dict(mono); ok = True
            for a, e in dm:
                if md.get(a, 0) < e: ok = False; break
            if ok and Fraction(v) % dc == 0:
                for a, e in dm:
                    md[a] -= e
                    if md[a] == 0: del md[a]
                q[tuple(sorted(md.items(), key=lambda t: t[0].id))] = v // dc
            else: r[mono] = v
        return mk_poly(q), mk_poly(r)
    # polynomial divisor: introduce a fresh variable for one of its leading monomials
    items = sorted(d.m.items(), key=lambda t: (len(t[0]), _mono_key2(t[0])))
    (lm, lc) = items[-1]
    # divide greedily by the leading monomial
    q = ZERO; r = p
    for _ in range(50):
        hit = None
        for mono, v in r.m.items():
            md = dict(mono); ok = all(md.get(a, 0) >= e for a, e in lm)
            if ok and Fraction(v) % lc == 0: hit = (mono, v); break
        if not hit: break
        mono, v = hit; md = dict(mono)
        for a, e in lm:
            md[a] -= e
            if md[a] == 0: del md[a]
        t = mk_poly({tuple(sorted(md.items(), key=lambda t: t[0].id)): v // lc})
        q = add(q, t); r = sub(r, mul(t, d))
    return q, r

def _mono_key2(m): return tuple((a.id, e) for a, e in m)

def read_array(arr, idx, part, st, upto=None):
    layers = arr.layers if upto is None else arr.layers[:upto]
    return _read(layers, len(layers) - 1, arr, idx, part, st)

def _read(layers, n, arr, idx, part, st):
    while n >= 0:
        L = layers[n]
        if L.part != part: n -= 1; continue
        sol = solve_layer(L, idx)
        if sol is None: raise ToolLimit('layer inversion %s at %s' % (L, idx))
        cond, val = sol
        if cond is FALSE: n -= 1; continue
        if cond is TRUE: return val
        if cond.k == 'and': cond = And(*[c for c in cond.a if not st.entails(c)])
        if cond is TRUE or st.entails(cond): return val
        if st.entails(Not(cond)): n -= 1; continue
        below = _read(layers, n - 1, arr, idx, part, st)
        if below is UNDEF: 
            # reading possibly uninitialised memory
            below = fresh('undef')
        if not isinstance(val, Poly) or not isinstance(below, Poly): raise ToolLimit('conditional non-scalar array read')
        return ite(cond, val, below)
    return arr.bottom.get(idx, part)

_solve_cache = {}
def solve_layer(L, idx):
    """-> (condition, value) for the element idx, or None"""
    mp = {}
    conds = []
    vs = [v for v, n in L.vars]
    pend = list(zip(L.idx, idx))
    progress = True
    while pend and progress:
        progress = False
        nxt = []
        for e, t in pend:
            e2 = subst(e, mp) if mp else e
            fv = [v for v in vs if v not in mp and v in free_vars(e2)]
            if not fv:
                conds.append(eq(e2, t)); progress = True; continue
            if len(fv) == 1:
                v = fv[0]
                # linear with coefficient +-1
                c = e2.m.get(((v, 1),), 0)
                rest = sub(e2, scale(of_atom(v), c)) if c else e2
                if c in (1, -1) and v not in free_vars(rest):
                    mp[v] = scale(sub(t, rest), c); progress = True; continue
                if c and v not in free_vars(rest) and isinstance(c, int):
                    # stride access: t-rest must be divisible
                    q = scale(sub(t, rest), Fraction(1, c))
                    if is_int(q): mp[v] = q; progress = True; continue
            nxt.append((e, t))
        pend = nxt
    if pend: return None
    for v, n in L.vars:
        if v not in mp: return None
    for v, n in L.vars:
        x = mp[v]
        n2 = subst(n, mp)
        conds.append(And(ge(x, ZERO), lt(x, n2)))
    g = subst(L.guard, mp) if mp else L.guard
    c = And(*conds, g)
    if c is FALSE: return FALSE, None
    val = L.val
    if mp and isinstance(val, (Poly, Form)): val = subst(val, mp)
    return c, val
