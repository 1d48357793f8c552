"""Proof rules on top of the canonical terms: zero test with case analysis, sum extensionality, univariate bounds,
and refutation by evaluation in a concrete interpretation."""
import itertools, random, hashlib
import mpmath
from .terms import *
from .mem import UNDEF
from . import smt

# ------------------------------------------------------------------ zero test
def all_conds(p, acc=None, bound=frozenset()):
    """atomic conditions of ite atoms anywhere in p that do not depend on bound sum variables"""
    if acc is None: acc = []
    for mono in p.m:
        for a, _ in mono: _conds_atom(a, acc, bound)
    return acc
def _conds_atom(a, acc, bound):
    if a.kind == 'ite':
        for c in atomic_conds(a.data[0], []):
            if not (free_vars(c) & bound) and c not in acc and Not(c) not in acc: acc.append(c)
            _conds_form(c, acc, bound)
        all_conds(a.data[1], acc, bound); all_conds(a.data[2], acc, bound)
    elif a.kind == 'fn':
        for x in a.data[1:]:
            if isinstance(x, Poly): all_conds(x, acc, bound)
    elif a.kind == 'sum':
        d, lo, hi, b = a.data
        all_conds(lo, acc, bound); all_conds(hi, acc, bound); all_conds(b, acc, bound | {bound_atom(d)})
def _conds_form(c, acc, bound):
    if c.k in ('lt', 'le', 'eq'): all_conds(c.a[0], acc, bound)

def simplify_form(c, truth, pc, memo):
    if c in truth: return TRUE if truth[c] else FALSE
    n = Not(c)
    if n in truth: return FALSE if truth[n] else TRUE
    if c.k == 'and': return And(*[simplify_form(x, truth, pc, memo) for x in c.a])
    if c.k == 'or': return Or(*[simplify_form(x, truth, pc, memo) for x in c.a])
    if c.k == 'not': return Not(simplify_form(c.a[0], truth, pc, memo))
    if c.k in ('lt', 'le', 'eq'):
        from .terms import _cmp0
        q = simp(c.a[0], truth, pc, memo)
        if q is not c.a[0]: return simplify_form(_cmp0(c.k, q), truth, pc, memo)
    return c

def simp(p, truth, pc, memo=None):
    """rewrite ite atoms using truth"""
    if memo is None: memo = {}
    r = memo.get(p)
    if r is not None: return r
    if not any(a.kind == 'ite' for a in atoms_of(p)):
        memo[p] = p; return p
    r = ZERO
    for mono, c in p.m.items():
        m = const(c)
        for a, e in mono: m = mul(m, power(_simp_atom(a, truth, pc, memo), e))
        r = add(r, m)
    memo[p] = r
    return r
def _simp_atom(a, truth, pc, memo):
    if a.kind == 'ite':
        c = simplify_form(a.data[0], truth, pc, memo)
        if c is TRUE: return simp(a.data[1], truth, pc, memo)
        if c is FALSE: return simp(a.data[2], truth, pc, memo)
        return ite(c, simp(a.data[1], truth, pc, memo), simp(a.data[2], truth, pc, memo))
    if a.kind == 'fn':
        return rebuild_fn(a.data[0], [simp(x, truth, pc, memo) if isinstance(x, Poly) else x for x in a.data[1:]], a.sort)
    if a.kind == 'sum':
        d, lo, hi, b = a.data
        v = fresh('$z', 'I')
        b2 = simp(sum_body(a, v), truth, pc, {})
        return Sum(v, simp(lo, truth, pc, memo), simp(hi, truth, pc, memo), b2)
    return of_atom(a)

def is_zero(p, pc=(), depth=0, splits=24):
    """True if proved zero under pc"""
    p = clear_inv(p)
    if p is ZERO: return True
    pc = list(pc)
    # decide conditions entailed by pc, then split
    conds = all_conds(p)
    if conds and splits > 0:
        truth = {}
        pcset = set(pc)
        for c in conds:
            if c in pcset or smt.entails(pc, c): truth[c] = True
            elif Not(c) in pcset or smt.entails(pc, Not(c)): truth[c] = False
        if truth:
            q = simp(p, truth, pc)
            if q is not p: return is_zero(q, pc, depth, splits - 1)
        c = conds[0] if conds[0] not in truth else next((x for x in conds if x not in truth), None)
        if c is None: pass
        else:
            for val in (True, False):
                f = c if val else Not(c)
                q = simp(p, {c: val}, pc)
                pc2 = pc + [f]
                if smt.check(smt.relevant(pc, f) + [f]) == 'unsat': continue
                if not is_zero(elim_eq(q, f), pc2, depth, splits - 1): return False
            return True
    # equalities in pc that define variables
    q = p
    for f in pc:
        if f.k == 'eq': q = elim_eq(q, f)
    if q is not p:
        return is_zero(q, pc, depth, splits - 1)
    return sum_zero(p, pc, depth, splits)

def elim_eq(p, f):
    """use an equality v = t (linear in a variable v) to rewrite p"""
    if f.k != 'eq': return p
    e = f.a[0]
    for mono, c in e.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'var':
            v = mono[0][0]
            rest = sub(e, scale(of_atom(v), c))
            if v in free_vars(rest): continue
            t = scale(rest, Fraction(-1) / c)
            if v.sort == 'I' and not is_int(t): continue
            return subst(p, {v: t})
    return p

def sum_zero(p, pc, depth, splits):
    """combine sums over the same range and test the summand pointwise"""
    if depth > 6: return False
    groups = {}
    rest = {}
    for mono, c in p.m.items():
        sums = [(a, e) for a, e in mono if a.kind == 'sum']
        if len(sums) >= 1 and sums[0][1] == 1:
            a = sums[0][0]
            co = mk_poly({tuple(x for x in mono if x[0] is not a): c})
            groups.setdefault((a.data[1], a.data[2]), []).append((co, a))
        else: rest[mono] = c
    if rest or not groups: 
        # a plain remainder can only cancel against a sum through equal bodies; give up
        return False
    for (lo, hi), items in groups.items():
        v = fresh('$i', 'I')
        body = ZERO
        for co, a in items: body = add(body, mul(co, sum_body(a, v)))
        if not is_zero(body, list(pc) + [ge(v, lo), lt(v, hi)], depth + 1, splits - 1): return False
    return True

def eq_terms(a, b, pc=()):
    return is_zero(sub(a, b), pc)

# ------------------------------------------------------------------ univariate real bounds
iv = mpmath.iv
def _ivfrac(c):
    c = Fraction(c); return iv.mpf(c.numerator) / c.denominator

def ieval(p, env):
    """interval evaluation"""
    r = iv.mpf(0)
    for mono, c in p.m.items():
        t = _ivfrac(c)
        for a, e in mono:
            x = _iatom(a, env)
            t = t * (x ** e if e >= 0 else 1 / x ** (-e))
        r += t
    return r
def _iatom(a, env):
    if a in env: return env[a]
    if a.kind == 'var':
        if a.data[0] == 'pi': return iv.pi
        raise KeyError(a)
    if a.kind == 'fn':
        n = a.data[0]; x = ieval(a.data[1], env)
        if n == 'exp': return iv.exp(x)
        if n == 'log': return iv.log(x)
        if n == 'sqrt': return iv.sqrt(x)
        if n == 'inv': return 1 / x
        if n == 'erf':
            m = mpmath.mp
            lo = m.erf(m.mpf(x.a)) - m.mpf(10) ** -28; hi = m.erf(m.mpf(x.b)) + m.mpf(10) ** -28
            return iv.mpf([lo, hi])
        raise KeyError(a)
    if a.kind == 'ite':
        raise KeyError(a)
    raise KeyError(a)

# ------------------------------------------------------------------ concrete interpretations
class Interp:
    """pseudo-random interpretation of the free symbols; used to refute equalities"""
    def __init__(self, seed, ints=None, hook=None):
        self.seed = seed; self.env = {}; self.ints = ints or {}; self.hook = hook; self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        self.memo = {}; self.over = {}; self.leaves = {}
    def rnd(self, key):
        if key in self.over: return self.over[key]
        v = self.leaves[key] = self._rnd(key); return v
    def _rnd(self, key):
        h = hashlib.sha256(('%s|%s' % (self.seed, key)).encode()).digest()
        x = int.from_bytes(h[:6], 'little') / 2**48
        return mpmath.mpf(x * 2.2 + 0.3) * (1 if h[7] & 1 else -1)
    def ev(self, p):
        r = mpmath.mpf(0)
        for mono, c in p.m.items():
            t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for a, e in mono: t = t * self.atom(a) ** e
            r += t
        return r
    def atom(self, a):
        if a in self.env: return self.env[a]
        if a.kind == 'var':
            if a.data[0] == 'pi': v = mpmath.pi
            elif a.sort == 'I':
                if a.data[0] in self.ints: v = self.ints[a.data[0]]
                else:
                    h = hashlib.sha256(('%s|%s' % (self.seed, a.data[0])).encode()).digest(); v = 2 + h[0] % 3
            else:
                v = self.rnd(a.data[0])
                if self.seed % 2:   # also samples with variables of different magnitudes (temperatures against energies)
                    h = hashlib.sha256(('%s|s|%s' % (self.seed, a.data[0])).encode()).digest()
                    if h[0] & 3 == 3: v = v * 100000
            self.env[a] = v; return v
        if a.kind == 'ite': return self.ev(a.data[1] if self.bv(a.data[0]) else a.data[2])
        if a.kind == 'sum':
            d, lo, hi, b = a.data
            lo = int(self.ev(lo)); hi = int(self.ev(hi)); ba = bound_atom(d)
            old = self.env.get(ba)
            s = mpmath.mpf(0)
            for k in range(lo, hi):
                self.env[ba] = k; s += self.ev(b)
            if old is None: self.env.pop(ba, None)
            else: self.env[ba] = old
            return s
        if a.kind == 'fn':
            n = a.data[0]
            if self.hook is not None:
                r = self.hook(self, a)
                if r is not None: return r
            args = [self.ev(x) if isinstance(x, Poly) else x for x in a.data[1:]]
            if n.startswith('tr'):
                from . import mat
                r = mat.num_trace(self, n)
                if r is not None: return r
            if n[0] == '@' or len(args) == 2:
                from . import mat
                if n in mat.EVAL or n in mat.WORDS or n.endswith('.im'):
                    r = mat.num_atom(self, a, n, args)
                    if r is not None: return r
            if n == 'exp': return mpmath.exp(args[0])
            if n == 'log': return mpmath.log(args[0])
            if n == 'sqrt': return mpmath.sqrt(args[0])
            if n == 'inv': return 1 / args[0]
            if n == 'erf': return mpmath.erf(args[0])
            if n in ('ar_sum',): return args[1] * 3
            if n in ('ar_max', 'ar_min'): return args[1]
            if n == 'idiv': return int(args[0]) // int(args[1])
            key = n + '|' + '|'.join(mpmath.nstr(x, 12) if isinstance(x, mpmath.mpf) else str(x) for x in args)
            return self.rnd(key)
        raise KeyError(a)
    def bv(self, f):
        k = f.k
        if k == 'T': return True
        if k == 'F': return False
        if k == 'lt': return self.ev(f.a[0]) < 0
        if k == 'le': return self.ev(f.a[0]) <= 0
        if k == 'eq': return abs(self.ev(f.a[0])) < mpmath.mpf(10) ** -20
        if k == 'not': return not self.bv(f.a[0])
        if k == 'and': return all(self.bv(x) for x in f.a)
        if k == 'or': return any(self.bv(x) for x in f.a)
        if k == 'bvar':
            h = hashlib.sha256(('%s|b|%s' % (self.seed, f.a[0])).encode()).digest(); return bool(h[0] & 1)
        raise KeyError(f)

def _differ(a, b, pc, s, hook, ints, over):
    """None: no sample; False: equal; dict: witness"""
    I = Interp(s, ints, hook); I.over = over
    try:
        if not all(I.bv(f) for f in pc): return None
        x = I.ev(a); y = I.ev(b)
    except (KeyError, ZeroDivisionError, ValueError, TypeError): return None
    if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc): return None
    if abs(x - y) > mpmath.mpf(10) ** (-5 if getattr(I, 'nm', None) is not None else -20) * (1 + abs(x) + abs(y)):   # matrices are evaluated in double precision
        return {'lhs': mpmath.nstr(x, 15), 'rhs': mpmath.nstr(y, 15), 'env': {str(k): mpmath.nstr(v, 12) if not isinstance(v, int) else v for k, v in list(I.env.items())[:40]}}
    return False

def boundary_points(guards, hook, ints, n):
    """samples next to the boundary of a guard: one free value is moved until the guard is almost tight"""
    import random
    R = random.Random(1)
    for k in range(n):
        f = guards[k % len(guards)]; s = R.randrange(1000)
        p = f.a[0]
        def val(over):
            I = Interp(s, ints, hook); I.over = over
            return I.ev(p), I.leaves
        try:
            y0, lv = val({})
            if not lv or not isinstance(y0, mpmath.mpf): continue
            key = R.choice(sorted(lv)); x0 = lv[key]
            d = mpmath.mpf(10) ** (-R.uniform(1, 12)) * R.choice((1, -1))
            x1 = x0 * mpmath.mpf('1.01') + mpmath.mpf('0.01'); y0 -= d; y1 = val({key: x1})[0] - d
            for _ in range(60):
                if abs(y1) < abs(d) / 1000: break
                if y1 == y0: break
                x0, x1, y0 = x1, x1 - y1 * (x1 - x0) / (y1 - y0), y1
                y1 = val({key: x1})[0] - d
            if abs(y1) < abs(d) / 1000: yield s, {key: x1}
        except (KeyError, ZeroDivisionError, ValueError, TypeError, AttributeError): continue

def _unmet(I, f, R, want=True):
    """an inequality that keeps f from having the wanted truth value under I"""
    if f.k in ('lt', 'le', 'eq'): return (f, want)
    if f.k == 'not': return _unmet(I, f.a[0], R, not want)
    if f.k in ('and', 'or'):
        bad = [x for x in f.a if I.bv(x) != want]
        return _unmet(I, R.choice(bad), R, want) if bad else None
    return None

def repaired_points(pc, hook, ints, n, budget=20):
    """samples for narrow path conditions: free values are moved one after the other until every condition holds"""
    import random, time
    R = random.Random(2); t0 = time.time()
    for k in range(n):
        if time.time() - t0 > budget: return
        s = R.randrange(1000); over = {}
        try:
            for step in range(3 * len(pc) + 3):
                I = Interp(s, ints, hook); I.over = over
                bad = next((f for f in pc if not I.bv(f)), None)
                if bad is None: break
                u = _unmet(I, bad, R)
                if u is None: over = None; break
                g, want = u; q = g.a[0]
                I = Interp(s, ints, hook); I.over = over
                y0 = I.ev(q); lv = {v: x for v, x in I.leaves.items() if v not in over} or I.leaves
                if not lv or not isinstance(y0, mpmath.mpf): over = None; break
                key = R.choice(sorted(lv)); x0 = lv[key]
                d = mpmath.mpf(10) ** (-R.uniform(0, 12))
                d = 0 if g.k == 'eq' and want else -d if want else d
                def at(x):
                    I = Interp(s, ints, hook); I.over = dict(over); I.over[key] = x
                    return I.ev(q) - d
                x1 = x0 * mpmath.mpf('1.01') + mpmath.mpf('0.01'); y0 -= d; y1 = at(x1)
                for _ in range(60):
                    if y1 == y0 or abs(y1) < mpmath.mpf(10) ** -30: break
                    x0, x1, y0 = x1, x1 - y1 * (x1 - x0) / (y1 - y0), y1
                    y1 = at(x1)
                if abs(y1) > abs(d) / 2 + mpmath.mpf(10) ** -25: over = None; break
                over = dict(over); over[key] = x1
            else: continue
            if over is not None: yield s, over
        except (KeyError, ZeroDivisionError, ValueError, TypeError, AttributeError, OverflowError): continue

def int_models(pc, n=6):
    """a few values of the integer variables that satisfy the integer part of pc"""
    import z3
    fs = [f for f in pc if free_vars(f) and all(v.sort == 'I' and v.kind == 'var' for v in free_vars(f)) and _pure(f)]
    vs = sorted({v for f in fs for v in free_vars(f)}, key=lambda v: v.data[0])
    if not vs: return []
    out = []
    for k in range(n):
        extra = []
        for j, v in enumerate(vs):
            x = smt.zatom(v); extra += [x <= 6, x >= -6]
            h = hashlib.sha256(('%d|%s' % (k, v.data[0])).encode()).digest()
        for w in (3, 1, 0):     # prefer a random value for some variables
            pick = [smt.zatom(v) == hashlib.sha256(('%d|%s' % (k, v.data[0])).encode()).digest()[0] % 5 for j, v in enumerate(vs) if w and (j + k) % w == 0]
            r, m = smt.check(fs, model=True, extra=extra + pick)
            if r == 'sat': break
        if r != 'sat': return out
        try: out.append({v.data[0]: m.eval(smt.zatom(v), model_completion=True).as_long() for v in vs})
        except Exception: return out
    return out

def _pure(f):
    if f.k in ('lt', 'le', 'eq'): return all(a.kind == 'var' for mono in f.a[0].m for a, _ in mono)
    if f.k in ('not', 'and', 'or'): return all(_pure(x) for x in f.a)
    return False

def refute_eq(a, b, pc=(), tries=60, hook=None, ints=None):
    r = _refute_eq(a, b, pc, tries, hook, ints)
    if r == 'no-sample' and ints is None:
        for m in int_models(pc):
            r = _refute_eq(a, b, pc, tries // 2, hook, m)
            if isinstance(r, dict): return r
    return r

def _refute_eq(a, b, pc=(), tries=60, hook=None, ints=None):
    """look for an interpretation satisfying pc in which a != b; returns description or None"""
    mpmath.mp.dps = 40
    good = 0
    for s in range(tries):
        w = _differ(a, b, pc, s, hook, ints, {})
        if w: return w
        if w is False: good += 1
    guards = [c for c in all_conds(a) + all_conds(b) if c.k in ('lt', 'le')]
    if guards:
        for s, over in boundary_points(guards, hook, ints, 60):
            w = _differ(a, b, pc, s, hook, ints, over)
            if w: return w
            if w is False: good += 1
    if not good and pc:
        for s, over in repaired_points(pc, hook, ints, 40):
            w = _differ(a, b, pc, s, hook, ints, over)
            if w: return w
            if w is False: good += 1
    return None if good else 'no-sample'
