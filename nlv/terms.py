"""Terms of the verifier.

Real/Int terms are kept in canonical form: Laurent polynomials with rational
coefficients over interned atoms (variables, applications, sums, conditionals).
exp/sqrt/inverse atoms are merged on multiplication, so ring identities, and
identities that only use exp(a)exp(b)=exp(a+b), sqrt(a)^2=a, become syntactic.
Formulas are interned trees over  p<0, p<=0, p=0.
Float terms (F mode) are uninterpreted arithmetic with exact comparisons.
"""
from fractions import Fraction
from functools import reduce
from math import gcd
import math

# ---------------------------------------------------------------- atoms
_atoms = []
_atom_tab = {}

class Atom:
    __slots__ = ('kind', 'data', 'id', 'sort', '_fv', '_depth')
    def __init__(self, kind, data, sort):
        self.kind = kind; self.data = data; self.sort = sort
        self.id = len(_atoms); _atoms.append(self)
        self._fv = None; self._depth = None
    def __repr__(self): return atom_str(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

def mk_atom(kind, data, sort='R'):
    k = (kind, data, sort)
    a = _atom_tab.get(k)
    if a is None:
        a = Atom(kind, data, sort); _atom_tab[k] = a
    return a

def atom_str(a):
    if a.kind == 'var': return a.data[0]
    if a.kind == 'fn':
        return a.data[0] + '(' + ', '.join(map(str, a.data[1:])) + ')'
    if a.kind == 'ite': return '(%s ? %s : %s)' % a.data
    if a.kind == 'sum':
        d, lo, hi, b = a.data
        return 'Σ[%s=%s..%s) %s' % (bound_name(d), lo, hi, b)
    return a.kind + str(a.data)

def bound_name(d): return '$s%d' % d

# ---------------------------------------------------------------- polynomials
_poly_tab = {}

class Poly:
    __slots__ = ('m', '_h', '_key', '_fv', '_sub')
    # m: dict mono(tuple of (atom,exp)) -> coef (int or Fraction, non zero)
    def __init__(self, m, key):
        self.m = m; self._key = key; self._h = hash(key); self._fv = None
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __repr__(self): return poly_str(self)
    # arithmetic sugar
    def __add__(self, o): return add(self, P(o))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, P(o))
    def __rsub__(self, o): return sub(P(o), self)
    def __mul__(self, o): return mul(self, P(o))
    __rmul__ = __mul__
    def __neg__(self): return scale(self, -1)
    def __truediv__(self, o): return div(self, P(o))
    def __rtruediv__(self, o): return div(P(o), self)
    def __pow__(self, n): return power(self, n)
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def const(self): return self.m.get((), 0)

def _mono_key(m):
    return tuple((a.id, e) for a, e in m)

def mk_poly(d):
    items = [(mono, c) for mono, c in d.items() if c != 0]
    items = [(mono, (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c)) for mono, c in items]
    key = tuple(sorted(((_mono_key(mono), c) for mono, c in items), key=lambda t: t[0]))
    p = _poly_tab.get(key)
    if p is None:
        p = Poly(dict(items), key); _poly_tab[key] = p
    return p

ZERO = mk_poly({})
ONE = mk_poly({(): 1})

def const(c):
    if isinstance(c, float):
        c = Fraction(c)
    return mk_poly({(): c})

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Fraction)): return const(x)
    if isinstance(x, float): return const(Fraction(x))
    if isinstance(x, Atom): return of_atom(x)
    raise TypeError('not a term: %r' % (x,))

def of_atom(a, e=1): return mk_poly({((a, e),): 1})

def var(name, sort='R'): return of_atom(mk_atom('var', (name,), sort))

_fresh = {}
def fresh(name, sort='R'):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return var('%s!%d' % (name, n), sort)

def add(p, q):
    if not p.m: return q
    if not q.m: return p
    d = dict(p.m)
    for mono, c in q.m.items():
        c2 = d.get(mono, 0) + c
        if c2 == 0: d.pop(mono, None)
        else: d[mono] = c2
    return mk_poly(d)

def scale(p, c):
    if c == 0: return ZERO
    if c == 1: return p
    return mk_poly({m: k * c for m, k in p.m.items()})

def sub(p, q): return add(p, scale(q, -1))

_SPECIAL = ('exp', 'sqrt', 'inv')
def _is_special(a): return a.kind == 'fn' and a.data[0] in _SPECIAL

def _mono_mul(m1, m2):
    """-> (mono, None) or (None, Poly) when special atoms need expansion."""
    if not m1: return m2, None
    if not m2: return m1, None
    d = {}
    for a, e in m1: d[a] = e
    special = False
    exps = None
    for a, e in m2:
        if a in d:
            d[a] += e
            if d[a] == 0: del d[a]
        else: d[a] = e
    nexp = 0
    for a in d:
        if a.kind == 'fn':
            n = a.data[0]
            if n == 'exp': nexp += 1; special = special or d[a] != 1
            elif n == 'sqrt': special = special or d[a] != 1
            elif n == 'inv': special = special or d[a] < 0
    if nexp > 1 or special:
        r = ONE; rest = {}
        earg = None
        for a, e in d.items():
            if a.kind == 'fn' and a.data[0] == 'exp':
                t = scale(a.data[1], e)
                earg = t if earg is None else add(earg, t)
            elif a.kind == 'fn' and a.data[0] == 'sqrt' and e != 1:
                k, rem = divmod(e, 2)
                if rem: rest[a] = 1
                if k: r = mul(r, power(a.data[1], k))
            elif a.kind == 'fn' and a.data[0] == 'inv' and e < 0:
                r = mul(r, power(a.data[1], -e))
            else: rest[a] = e
        if earg is not None and earg.m:
            ea = exp(earg)
            r0 = mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): 1})
            # exp atom: attach directly (no other exp present)
            (em, ec), = ea.m.items()
            if len(em) == 1 and _is_expatom(em[0][0]):
                rest[em[0][0]] = 1
                r0 = mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): ec})
            else:
                r0 = scale(r0, ea.const()) if ea.is_const() else mul(r0, ea)
        else:
            r0 = mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): 1})
        if r is ONE:
            if len(r0.m) == 1:
                (mm, cc), = r0.m.items()
                if cc == 1: return mm, None
            return None, r0
        return None, mul(r, r0)
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), None

def _is_expatom(a): return a.kind == 'fn' and a.data[0] == 'exp'

def mul(p, q):
    if not p.m or not q.m: return ZERO
    if p is ONE: return q
    if q is ONE: return p
    if len(p.m) > len(q.m): p, q = q, p
    if len(p.m) == 1 and () in p.m: return scale(q, p.m[()])
    d = {}
    extra = None
    for m1, c1 in p.m.items():
        for m2, c2 in q.m.items():
            mono, pol = _mono_mul(m1, m2)
            c = c1 * c2
            if pol is None:
                c3 = d.get(mono, 0) + c
                if c3 == 0: d.pop(mono, None)
                else: d[mono] = c3
            else:
                t = scale(pol, c)
                extra = t if extra is None else add(extra, t)
    r = mk_poly(d)
    return r if extra is None else add(r, extra)

def power(p, n):
    if n == 0: return ONE
    if n < 0: return power(inv(p), -n)
    r = ONE; b = p
    while n:
        if n & 1: r = mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

def inv(p):
    """1/p (real division; p != 0 is a side condition recorded by callers)."""
    if p.is_const():
        c = p.const()
        if c == 0: return fn('div0')
        return const(Fraction(1) / c)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        r = const(Fraction(1) / c)
        for a, e in mono:
            if a.kind == 'fn' and a.data[0] == 'exp':
                t = exp(scale(a.data[1], -e))
            elif a.kind == 'fn' and a.data[0] == 'inv':
                t = power(a.data[1], e)
            elif a.kind == 'fn' and a.data[0] == 'sqrt':
                t = mul(of_atom(a), inv(a.data[1])) if e == 1 else None
            else:
                t = of_atom(a, -e)
            r = mul(r, t)
        return r
    # factor common monomial + content
    pc, cm, core = _content(p)
    r = of_atom(mk_atom('fn', ('inv', core)))
    if cm: r = mul(r, inv(mk_poly({cm: 1})))
    return scale(r, Fraction(1) / pc)

def _content(p):
    """p = c * monomial * core with core primitive and a positive leading coefficient."""
    items = sorted(p.m.items(), key=lambda t: _mono_key(t[0]))
    lead = items[-1][1]
    common = None
    for mono, _ in items:
        dm = {a: e for a, e in mono if not _is_special(a)}
        if common is None: common = dm
        else:
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items()}
            for a, e in dm.items():
                if e < 0 and a not in common: common[a] = e
            common = {a: e for a, e in common.items() if e != 0}
    # exps: pull out a common exponential so that a+b e^x and its multiples agree
    cm = tuple(sorted(common.items(), key=lambda t: t[0].id)) if common else ()
    core = p
    if cm:
        core = mul(p, mk_poly({tuple((a, -e) for a, e in cm): 1}))
    nums = [Fraction(c) for c in core.m.values()]
    g = reduce(gcd, [c.numerator for c in nums]); l = reduce(lambda a, b: a * b // gcd(a, b), [c.denominator for c in nums])
    items = sorted(core.m.items(), key=lambda t: _mono_key(t[0]))
    cont = Fraction(g, l)
    if items[-1][1] < 0: cont = -cont
    core = scale(core, Fraction(1) / cont)
    return cont, cm, core

def div(p, q): return mul(p, inv(q))

# ---------------------------------------------------------------- functions
def fn(name, *args, sort='R'):
    return of_atom(mk_atom('fn', (name,) + tuple(args), sort))

def exp(p):
    if not p.m: return ONE
    # exp(log t) = t
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'fn' and mono[0][0].data[0] == 'log':
            return mono[0][0].data[1]
    return fn('exp', p)

def sqrt(p):
    if p.is_const():
        c = Fraction(p.const())
        if c >= 0:
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d: return const(Fraction(rn, rd))
            # square-free part for small constants
            if d == 1 and n < 10**6:
                s = 1; k = 2; m = n
                while k * k <= m:
                    while m % (k * k) == 0: m //= k * k; s *= k
                    k += 1
                return scale(fn('sqrt', const(m)), s)
            if n * d < 10**6: return scale(sqrt(const(n * d)), Fraction(1, d))
    return fn('sqrt', p)

def log(p):
    if p is ONE: return ZERO
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and _is_expatom(mono[0][0]): return mono[0][0].data[1]
    return fn('log', p)

def _odd_norm(p):
    """sign-normalised copy: returns (sign, |p|) by leading coefficient."""
    if not p.m: return 1, p
    items = sorted(p.m.items(), key=lambda t: _mono_key(t[0]))
    return (1, p) if items[-1][1] > 0 else (-1, scale(p, -1))

def erf(p):
    if not p.m: return ZERO
    s, q = _odd_norm(p)
    return scale(fn('erf', q), s)

def erfc(p): return sub(ONE, erf(p))

PI = var('pi')

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    # pull out the common part so equal summands cancel
    if c.k == 'not': return ite(c.a[0], b, a)
    if a is ZERO or b is ZERO:            # sign of the only non-zero branch is pulled out
        x = b if a is ZERO else a
        if x.m[min(x.m, key=_mono_key)] < 0: return scale(ite(c, scale(a, -1), scale(b, -1)), -1)
    isi = is_int(a) and is_int(b)
    if not isi:
        m = content(a, b)
        if m:
            inv = Poly_mono({x: -e for x, e in m.items()})
            return mul(Poly_mono(m), of_atom(mk_atom('ite', (c, mul(a, inv), mul(b, inv)), 'R')))
    return of_atom(mk_atom('ite', (c, a, b), 'I' if isi else 'R'))

def content(a, b):
    """atoms (with exponents) common to every monomial of a and b"""
    r = None
    for p in (a, b):
        for mono in p.m:
            d = dict(mono)
            if r is None: r = {x: e for x, e in d.items()}
            else:
                n = {}
                for x, e in r.items():
                    f = d.get(x, 0)
                    if e > 0 and f > 0: n[x] = min(e, f)
                    elif e < 0 and f < 0: n[x] = max(e, f)
                r = n
            if not r: return None
    return r

def Poly_mono(m):
    r = ONE
    for x, e in m.items(): r = mul(r, power(of_atom(x), e))
    return r

def is_int(p):
    for mono, c in p.m.items():
        if isinstance(c, Fraction): return False
        for a, e in mono:
            if a.sort != 'I' or e < 0: return False
    return True

def fabs(p):
    if p.is_const(): return const(abs(p.const()))
    return ite(le(p, ZERO), scale(p, -1), p)

# ---------------------------------------------------------------- formulas
_form_tab = {}
class Form:
    __slots__ = ('k', 'a', '_fv')
    def __init__(self, k, a): self.k = k; self.a = a; self._fv = None
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __repr__(self): return form_str(self)
    def __bool__(self): raise TypeError('symbolic formula used as a Python bool')

def mk_form(k, *a):
    key = (k, a)
    f = _form_tab.get(key)
    if f is None: f = Form(k, a); _form_tab[key] = f
    return f

TRUE = mk_form('T'); FALSE = mk_form('F')
def B(x):
    if isinstance(x, Form): return x
    return TRUE if x else FALSE

def _norm_cmp(p):
    """scale by a positive constant"""
    items = sorted(p.m.items(), key=lambda t: _mono_key(t[0]))
    c = abs(Fraction(items[-1][1]))
    return scale(p, 1 / c)

def _cmp0(k, p):
    if p.is_const():
        c = p.const()
        return B(c < 0 if k == 'lt' else c <= 0 if k == 'le' else c == 0)
    # positive atoms factored out cheaply: single monomial in exp only
    if k == 'eq':
        s, p = _odd_norm(p)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if all(_is_expatom(a) for a, e in mono): return B(c < 0 if k in ('lt', 'le') else False)
    return mk_form(k, _norm_cmp(p))

def lt(a, b): return _cmp0('lt', sub(a, b))
def le(a, b): return _cmp0('le', sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return _cmp0('eq', sub(a, b))
def ne(a, b): return Not(eq(a, b))

def Not(f):
    if f is TRUE: return FALSE
    if f is FALSE: return TRUE
    if f.k == 'not': return f.a[0]
    if f.k == 'lt': return mk_form('le', _norm_cmp(scale(f.a[0], -1)))
    if f.k == 'le': return mk_form('lt', _norm_cmp(scale(f.a[0], -1)))
    if f.k == 'and': return Or(*[Not(x) for x in f.a])
    if f.k == 'or': return And(*[Not(x) for x in f.a])
    return mk_form('not', f)

def _nary(k, unit, zero, fs):
    out = []
    seen = set()
    for f in fs:
        f = B(f)
        if f is unit: continue
        if f is zero: return zero
        if f.k == k:
            for g in f.a:
                if g not in seen: seen.add(g); out.append(g)
        elif f not in seen: seen.add(f); out.append(f)
    for f in out:
        if Not(f) in seen: return zero
    if not out: return unit
    if len(out) == 1: return out[0]
    return mk_form(k, *sorted(out, key=id))

def And(*fs): return _nary('and', TRUE, FALSE, fs)
def Or(*fs): return _nary('or', FALSE, TRUE, fs)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return bite(a, b, Not(b))
def bvar(name): return mk_form('bvar', name)
def fresh_bool(name):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return bvar('%s!%d' % (name, n))
def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return Or(And(c, a), And(Not(c), b))

# ---------------------------------------------------------------- traversal
def _args_of_atom(a):
    if a.kind == 'var': return ()
    if a.kind == 'fn': return a.data[1:]
    if a.kind == 'ite': return a.data
    if a.kind == 'sum': return a.data[1:]
    return ()

def atoms_of(t, acc=None, deep=True):
    """all atoms occurring in t (also nested)"""
    if acc is None: acc = set()
    _collect(t, acc, deep); return acc

def _collect(t, acc, deep):
    if isinstance(t, Poly):
        for mono in t.m:
            for a, _ in mono:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        for x in _args_of_atom(a): _collect(x, acc, deep)
    elif isinstance(t, Form):
        if t.k == 'fcmp': return
        for x in t.a: _collect(x, acc, deep)
    elif hasattr(t, 'nested_terms'):
        for x in t.nested_terms(): _collect(x, acc, deep)

def free_vars(t):
    """frozenset of var atoms"""
    if isinstance(t, (Poly, Form)):
        if t._fv is not None: return t._fv
        s = set()
        if isinstance(t, Poly):
            for mono in t.m:
                for a, _ in mono: s |= _atom_fv(a)
        else:
            for x in t.a:
                if isinstance(x, (Poly, Form)): s |= free_vars(x)
        t._fv = frozenset(s); return t._fv
    if hasattr(t, 'nested_terms'):
        s = frozenset()
        for x in t.nested_terms(): s |= free_vars(x)
        return s
    return frozenset()

def _atom_fv(a):
    if a._fv is None:
        if a.kind == 'var': a._fv = frozenset((a,))
        else:
            s = frozenset()
            for x in _args_of_atom(a): s |= free_vars(x)
            a._fv = s
    return a._fv

def sum_depth(t):
    d = 0
    for a in atoms_of(t):
        if a.kind == 'sum': d = max(d, a.data[0])
    return d

def subst(t, mp, memo=None):
    """mp: dict var-atom -> Poly"""
    if not mp: return t
    if memo is None: memo = {}
    return _subst(t, mp, frozenset(mp), memo)

def _subst(t, mp, keys, memo):
    if isinstance(t, Poly):
        if not (free_vars(t) & keys): return t
        r = memo.get(t)
        if r is not None: return r
        r = ZERO
        for mono, c in t.m.items():
            m = const(c)
            for a, e in mono:
                b = _subst_atom(a, mp, keys, memo)
                m = mul(m, power(b, e))
            r = add(r, m)
        memo[t] = r; return r
    if isinstance(t, Form):
        if not (free_vars(t) & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.k in ('lt', 'le', 'eq'):
            r = _cmp0(t.k, _subst(t.a[0], mp, keys, memo))
        elif t.k == 'not': r = Not(_subst(t.a[0], mp, keys, memo))
        elif t.k == 'and': r = And(*[_subst(x, mp, keys, memo) for x in t.a])
        elif t.k == 'or': r = Or(*[_subst(x, mp, keys, memo) for x in t.a])
        else: r = t
        memo[t] = r; return r
    if hasattr(t, 'subst_terms'):
        return t.subst_terms(lambda x: _subst(x, mp, keys, memo))
    return t

def _subst_atom(a, mp, keys, memo):
    if a in mp: return mp[a]
    if not (_atom_fv(a) & keys): return of_atom(a)
    r = memo.get(a)
    if r is not None: return r
    if a.kind == 'fn':
        r = rebuild_fn(a.data[0], [_subst(x, mp, keys, memo) for x in a.data[1:]], a.sort)
    elif a.kind == 'ite':
        r = ite(*[_subst(x, mp, keys, memo) for x in a.data])
    elif a.kind == 'sum':
        d, lo, hi, body = a.data
        b = fresh('$b', 'I'); ba = next(iter(free_vars(b)))
        body2 = subst(body, {bound_atom(d): b})
        body2 = _subst(body2, mp, keys, {})
        r = Sum(b, _subst(lo, mp, keys, memo), _subst(hi, mp, keys, memo), body2)
    else: r = of_atom(a)
    memo[a] = r; return r

FN_REBUILD = {'exp': exp, 'sqrt': sqrt, 'log': log, 'erf': erf, 'inv': inv}
def rebuild_fn(name, args, sort='R'):
    f = FN_REBUILD.get(name)
    if f: return f(*args)
    if len(args) == 2 and REBUILD2 is not None:
        r = REBUILD2(name, args)
        if r is not None: return r
    return fn(name, *args, sort=sort)
REBUILD2 = None

def bound_atom(d): return mk_atom('var', (bound_name(d),), 'I')

# ---------------------------------------------------------------- sums
def Sum(v, lo, hi, body):
    """sum_{lo<=v<hi} body ; v a Poly consisting of a single int var atom"""
    (mono, c), = v.m.items(); va = mono[0][0]
    n = sub(hi, lo)
    if n.is_const():
        k = n.const()
        if k <= 0: return ZERO
        if k <= 8:
            r = ZERO
            for j in range(int(k)): r = add(r, subst(body, {va: add(lo, const(j))}))
            return r
    res = ZERO
    groups = {}
    for mono, c in body.m.items():
        dep = tuple((a, e) for a, e in mono if va in _atom_fv(a))
        ind = tuple((a, e) for a, e in mono if va not in _atom_fv(a))
        g = groups.setdefault(dep, {})
        g[ind] = g.get(ind, 0) + c
    for dep, g in groups.items():
        co = mk_poly(g)
        if not dep:
            res = add(res, mul(co, n)); continue
        b = mk_poly({dep: 1})
        d = sum_depth(b) + 1
        b2 = subst(b, {va: of_atom(bound_atom(d))})
        # subst may renormalise; split again if needed
        if len(b2.m) == 1:
            (m2, c2), = b2.m.items()
            if c2 != 1:
                co = scale(co, c2); b2 = mk_poly({m2: 1})
        s = of_atom(mk_atom('sum', (d, lo, hi, b2)))
        res = add(res, mul(co, s))
    return res

def sum_body(a, v):
    """body of a sum atom with the bound variable replaced by v"""
    d, lo, hi, b = a.data
    return subst(b, {bound_atom(d): v})

def fubini(p, memo=None):
    """canonical order of directly nested sums with independent bounds (finite sums commute)"""
    if memo is None: memo = {}
    out = ZERO
    for mono, c in p.m.items():
        t = const(c)
        for a, e in mono: t = mul(t, power(_fub_atom(a, memo), e))
        out = add(out, t)
    return out
def _fub_atom(a, memo):
    r = memo.get(a)
    if r is not None: return r
    r = of_atom(a)
    if a.kind == 'fn' and a.data[0] == 'ar_sum' and len(a.data) == 3:
        from . import builtins
        q = fubini(a.data[2], memo)
        if q is not a.data[2]:
            r = ZERO
            for m2, c2 in q.m.items(): r = add(r, scale(builtins.ar_mono('ar_sum', a.data[1], m2), c2))
    elif a.kind == 'sum':
        d, lo, hi, _ = a.data
        x = fresh('$t', 'I'); xa = next(iter(free_vars(x)))
        body = fubini(sum_body(a, x), memo); r = ZERO
        for mono, c in body.m.items():
            t = Sum(x, lo, hi, mk_poly({mono: c}))
            s = [b for b, e in mono if b.kind == 'sum' and e == 1]
            if len(s) == 1 and xa in _atom_fv(s[0]) and xa not in (free_vars(s[0].data[1]) | free_vars(s[0].data[2])):
                b = s[0]; y = fresh('$t', 'I')
                inner = mul(mk_poly({tuple(z for z in mono if z[0] is not b): c}), sum_body(b, y))
                u = Sum(y, b.data[1], b.data[2], Sum(x, lo, hi, inner))
                if poly_str(u) < poly_str(t): t = u
            r = add(r, t)
    memo[a] = r
    return r

# ---------------------------------------------------------------- calculus
def diff(p, xa, memo=None):
    if memo is None: memo = {}
    r = ZERO
    for mono, c in p.m.items():
        for idx, (a, e) in enumerate(mono):
            da = _diff_atom(a, xa, memo)
            if not da.m: continue
            rest = mono[:idx] + mono[idx + 1:]
            t = mul(mk_poly({rest: c * e}), mul(power(of_atom(a), e - 1) if e != 1 else ONE, da))
            r = add(r, t)
    return r

def _diff_atom(a, xa, memo):
    if a is xa: return ONE
    if xa not in _atom_fv(a): return ZERO
    if a in memo: return memo[a]
    if a.kind == 'fn':
        n = a.data[0]; u = a.data[1]; du = diff(u, xa, memo)
        if n == 'exp': r = mul(du, of_atom(a))
        elif n == 'log': r = mul(du, inv(u))
        elif n == 'sqrt': r = mul(scale(du, Fraction(1, 2)), inv(of_atom(a)))
        elif n == 'inv': r = mul(scale(du, -1), power(of_atom(a), 2))
        elif n == 'erf': r = mul(mul(const(2), inv(sqrt(PI))), mul(du, exp(scale(mul(u, u), -1))))
        elif n == 'erfc': r = mul(mul(const(-2), inv(sqrt(PI))), mul(du, exp(scale(mul(u, u), -1))))
        else: raise ValueError('cannot differentiate %s' % n)
    elif a.kind == 'ite':
        r = ite(a.data[0], diff(a.data[1], xa, memo), diff(a.data[2], xa, memo))
    else: raise ValueError('cannot differentiate %s' % a.kind)
    memo[a] = r
    return r

# ---------------------------------------------------------------- zero test
def clear_inv(p, limit=60):
    """multiply out inv(..) atoms: result is zero iff p is (where denominators are non-zero)"""
    for _ in range(limit):
        best = {}
        for mono in p.m:
            for a, e in mono:
                if a.kind == 'fn' and a.data[0] == 'inv': best[a] = max(best.get(a, 0), e)
        if not best: return p
        a = max(best, key=lambda t: t.id); k = best[a]
        q = a.data[1]
        r = ZERO
        for mono, c in p.m.items():
            e = 0; rest = []
            for b, be in mono:
                if b is a: e = be
                else: rest.append((b, be))
            r = add(r, mul(mk_poly({tuple(rest): c}), power(q, k - e)))
        p = r
        if not p.m: return p
    return p

def ite_conds(t, acc=None):
    """conditions of ite atoms at the top polynomial level (not inside sums)"""
    if acc is None: acc = []
    for mono in t.m:
        for a, _ in mono: _ite_conds_atom(a, acc)
    return acc

def _ite_conds_atom(a, acc):
    if a.kind == 'ite':
        c = a.data[0]
        if c not in acc: acc.append(c)
        ite_conds(a.data[1], acc); ite_conds(a.data[2], acc)
    elif a.kind == 'fn':
        for x in a.data[1:]:
            if isinstance(x, Poly): ite_conds(x, acc)

def resolve_ite(t, truth, memo=None):
    """replace ite atoms using truth: dict Form->bool"""
    if memo is None: memo = {}
    return _res(t, truth, memo)

def _res(t, truth, memo):
    if t in memo: return memo[t]
    need = False
    for a in atoms_of(t):
        if a.kind == 'ite': need = True; break
    if not need:
        memo[t] = t; return t
    r = ZERO
    for mono, c in t.m.items():
        m = const(c)
        for a, e in mono: m = mul(m, power(_res_atom(a, truth, memo), e))
        r = add(r, m)
    memo[t] = r
    return r

def _form_truth(c, truth):
    """three-valued"""
    if c in truth: return truth[c]
    n = Not(c)
    if n in truth: return not truth[n]
    if c.k == 'and':
        vs = [_form_truth(x, truth) for x in c.a]
        if any(v is False for v in vs): return False
        if all(v is True for v in vs): return True
        return None
    if c.k == 'or':
        vs = [_form_truth(x, truth) for x in c.a]
        if any(v is True for v in vs): return True
        if all(v is False for v in vs): return False
        return None
    if c.k == 'not':
        v = _form_truth(c.a[0], truth)
        return None if v is None else not v
    if c is TRUE: return True
    if c is FALSE: return False
    return None

def _res_atom(a, truth, memo):
    if a.kind == 'ite':
        v = _form_truth(a.data[0], truth)
        if v is None: return of_atom(a)
        return _res(a.data[1] if v else a.data[2], truth, memo)
    if a.kind == 'fn':
        args = [(_res(x, truth, memo) if isinstance(x, Poly) else x) for x in a.data[1:]]
        return rebuild_fn(a.data[0], args, a.sort)
    return of_atom(a)

def atomic_conds(c, acc):
    """atomic formulas of c"""
    if c.k in ('and', 'or', 'not'):
        for x in c.a: atomic_conds(x, acc)
    elif c.k in ('T', 'F'): pass
    else:
        if c not in acc and Not(c) not in acc: acc.append(c)
    return acc

# ---------------------------------------------------------------- printing
def poly_str(p):
    if not p.m: return '0'
    out = []
    for mono, c in sorted(p.m.items(), key=lambda t: _mono_key(t[0])):
        s = '*'.join((str(a) if e == 1 else '%s^%d' % (a, e)) for a, e in mono)
        if not s: s = cstr(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = cstr(c) + '*' + s
        out.append(s)
    r = ' + '.join(out)
    return r if len(out) == 1 else '(' + r + ')'

def cstr(c):
    if isinstance(c, Fraction):
        f = float(c)
        if c.denominator > 10**6 or abs(c.numerator) > 10**9: return repr(f)
        return str(c)
    return str(c)

def form_str(f):
    if f.k == 'T': return 'true'
    if f.k == 'F': return 'false'
    if f.k == 'lt': return '%s < 0' % (f.a[0],)
    if f.k == 'le': return '%s <= 0' % (f.a[0],)
    if f.k == 'eq': return '%s = 0' % (f.a[0],)
    if f.k == 'not': return '!(%s)' % (f.a[0],)
    if f.k == 'and': return '(' + ' & '.join(map(str, f.a)) + ')'
    if f.k == 'or': return '(' + ' | '.join(map(str, f.a)) + ')'
    if f.k == 'bvar': return f.a[0]
    return f.k + str(f.a)

# ---------------------------------------------------------------- numeric evaluation
def evalf(p, env, mp):
    """numeric value with mpmath context mp; env: atom(var)->number. Sums/unknowns raise KeyError."""
    r = mp.mpf(0)
    for mono, c in p.m.items():
        t = mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mp.mpf(c)
        for a, e in mono: t *= _evalf_atom(a, env, mp) ** e
        r += t
    return r

def _evalf_atom(a, env, mp):
    if a in env: return env[a]
    if a.kind == 'var':
        if a.data[0] == 'pi': return mp.pi
        raise KeyError(a)
    if a.kind == 'fn':
        n = a.data[0]; x = evalf(a.data[1], env, mp)
        if n == 'exp': return mp.exp(x)
        if n == 'log': return mp.log(x)
        if n == 'sqrt': return mp.sqrt(x)
        if n == 'inv': return 1 / x
        if n == 'erf': return mp.erf(x)
        raise KeyError(a)
    if a.kind == 'ite':
        return evalf(a.data[1] if evalb(a.data[0], env, mp) else a.data[2], env, mp)
    raise KeyError(a)

def evalb(f, env, mp):
    if f.k == 'T': return True
    if f.k == 'F': return False
    if f.k == 'lt': return evalf(f.a[0], env, mp) < 0
    if f.k == 'le': return evalf(f.a[0], env, mp) <= 0
    if f.k == 'eq': return evalf(f.a[0], env, mp) == 0
    if f.k == 'not': return not evalb(f.a[0], env, mp)
    if f.k == 'and': return all(evalb(x, env, mp) for x in f.a)
    if f.k == 'or': return any(evalb(x, env, mp) for x in f.a)
    raise KeyError(f)

# ---------------------------------------------------------------- float (F mode) terms
_fl_tab = {}
class Fl:
    """float term: ('c',value) ('v',name) ('op',name,args...) ('uf',name,args...) ('ite',c,a,b)"""
    __slots__ = ('k', 'a')
    def __init__(self, k, a): self.k = k; self.a = a
    def __repr__(self):
        if self.k == 'c': return repr(self.a[0])
        if self.k == 'v': return self.a[0]
        if self.k == 'ite': return '(%s ? %s : %s)' % self.a
        return '%s(%s)' % (self.a[0], ', '.join(map(str, self.a[1:])))
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def nested_terms(self): return [x for x in self.a if isinstance(x, (Poly, Form, Fl))]

def mk_fl(k, *a):
    if k == 'c':
        import struct
        key = (k, struct.pack('<d', a[0]))
    else: key = (k, a)
    f = _fl_tab.get(key)
    if f is None: f = Fl(k, a); _fl_tab[key] = f
    return f
def fl_const(x): return mk_fl('c', float(x))
def fl_var(n): return mk_fl('v', n)
def fl_fresh(name):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return mk_fl('v', '%s!%d' % (name, n))
def fl_ite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    return mk_fl('ite', c, a, b)
