"""Textbook smearing laws (specification side), their lemmas, and the piecewise comparison with the code."""
import mpmath
from .terms import *
from . import smt
from .prove import is_zero, ieval, iv
NAMES = ['FERMI_DIRAC', 'GAUSSIAN_SPLINE', 'GAUSS', 'METHFESSEL_PAXTON', 'COLD']
MONOTONE = ['FERMI_DIRAC', 'GAUSSIAN_SPLINE', 'GAUSS']
x = var('x'); mo = var('mo')
def _a(p): 
    (m, c), = p.m.items(); return m[0][0]
XA = _a(x); MOA = _a(mo)
H = Fraction(1, 2)
s2 = sqrt(const(2)); sp = sqrt(PI)
NEG = le(x, ZERO); POS = gt(x, ZERO)
def erfc_(u): return fn('erfc', u)
def e(p): return exp(p)

def laws():
    """name -> list of (condition, f) ; and tail forms {side: f - limit} ; entropy likewise"""
    L = {}
    ex = e(x); emx = e(scale(x, -1)); g = e(scale(x * x, -1))
    L['FERMI_DIRAC'] = dict(
        f=[(TRUE, 1 - inv(1 + ex))], s=[(TRUE, log(1 + ex) - x * ex * inv(1 + ex))],
        tl=ex * inv(1 + ex), tr=-emx * inv(1 + emx),
        stl=fn('log1pexp', x) - x * ex * inv(1 + ex), str_=fn('log1pexp', scale(x, -1)) + x * emx * inv(1 + emx))
    E1 = e(x * (s2 - x)); E2 = e(-x * (s2 + x)); se = e(const(H))
    L['GAUSSIAN_SPLINE'] = dict(
        f=[(NEG, E1 * H), (POS, 1 - E2 * H)],
        s=[(NEG, (-2 * E1 * x + se * sp * erfc(inv(s2) - x)) * Fraction(1, 4)), (POS, (2 * E2 * x + se * sp * erfc(inv(s2) + x)) * Fraction(1, 4))],
        tl=E1 * H, tr=-E2 * H, stl=(-2 * E1 * x + se * sp * erfc_(inv(s2) - x)) * Fraction(1, 4), str_=(2 * E2 * x + se * sp * erfc_(inv(s2) + x)) * Fraction(1, 4))
    L['GAUSS'] = dict(f=[(TRUE, (1 + erf(x)) * H)], s=[(TRUE, g * H / sp)], tl=erfc_(scale(x, -1)) * H, tr=-erfc_(x) * H, stl=g * H / sp, str_=g * H / sp)
    L['METHFESSEL_PAXTON'] = dict(f=[(TRUE, (1 + erf(x)) * H + x * g * H / sp)], s=[(TRUE, g * (1 - 2 * x * x) * Fraction(1, 4) / sp)],
        tl=erfc_(scale(x, -1)) * H + x * g * H / sp, tr=-erfc_(x) * H + x * g * H / sp, stl=g * (1 - 2 * x * x) * Fraction(1, 4) / sp, str_=g * (1 - 2 * x * x) * Fraction(1, 4) / sp)
    c = e(const(-H) + (s2 - x) * x)
    cs = c * (1 - s2 * x) * H / sp
    L['COLD'] = dict(f=[(TRUE, c / s2 / sp + erfc(inv(s2) - x) * H)], s=[(TRUE, cs)],
        tl=c / s2 / sp + erfc_(inv(s2) - x) * H, tr=c / s2 / sp - erfc_(x - inv(s2)) * H, stl=cs, str_=cs)
    return L
LAWS = laws()

def deriv(p, k):
    for _ in range(k): p = diff(p, XA)
    return p
def law(name, k):
    """k-th derivative of the occupation law (mo=1) or 's' for the entropy: list of (cond, expr)"""
    if k == 's': return LAWS[name]['s']
    return [(c, deriv(p, k)) for c, p in LAWS[name]['f']]

# ---- tail bounds:  |p(x)| <= B for all x >= T (side=+1) / x <= -T (side=-1)
class NoBound(Exception): pass
def tail_bound(p, T, side):
    y = var('y'); ya = _a(y)
    p = subst(p, {XA: y if side > 0 else scale(y, -1)})
    T = Fraction(T); it = iv.mpf(T.numerator) / T.denominator
    tot = iv.mpf(0)
    for mono, c in p.m.items():
        k = 0; q = ZERO; co = abs(iv.mpf(Fraction(c).numerator) / Fraction(c).denominator)
        for a, ex in mono:
            if a is ya:
                if ex < 0: raise NoBound()
                k += ex
            elif ya not in free_vars(of_atom(a)): co = co * ieval(of_atom(a), {}) ** ex if ex > 0 else co / ieval(of_atom(a), {}) ** (-ex)
            elif a.kind == 'fn' and a.data[0] == 'exp': q = q + scale(a.data[1], ex)
            elif a.kind == 'fn' and a.data[0] == 'erfc' and ex > 0:
                u = a.data[1]
                du = diff(u, ya)
                if not (du.is_const() and du.const() > 0): raise NoBound()
                if not ieval(u, {ya: it}).a > 0.6: raise NoBound()      # erfc(u) <= exp(-u^2) for u >= 0
                q = q - scale(u * u, ex)
            elif a.kind == 'fn' and a.data[0] == 'log1pexp' and ex > 0: q = q + scale(a.data[1], ex)   # log(1+e^t) <= e^t
            elif a.kind == 'fn' and a.data[0] == 'inv' and ex > 0:
                d = a.data[1]                       # 1/(1 + positive exponentials) <= 1
                if not (d.const() >= 1 and all(v > 0 and (m == () or all(b.kind == 'fn' and b.data[0] == 'exp' for b, _ in m)) for m, v in d.m.items())): raise NoBound()
            else: raise NoBound()
        # q concave, decreasing fast enough at T
        q2 = diff(diff(q, ya), ya)
        if ya in free_vars(q2) or not ieval(q2, {}).b <= 0: raise NoBound()
        slope = ieval(diff(q, ya), {ya: it}) + iv.mpf(k) / it
        if not slope.b <= 0: raise NoBound()
        tot += co * it ** k * iv.exp(ieval(q, {ya: it}))
    return tot.b

_T = {}
def threshold(name, k, side):
    """smallest T on a 1/4 grid with |k-th derivative of (law - limit)| <= 1e-12 beyond T, with its proof data"""
    key = (name, k, side)
    if key in _T: return _T[key]
    iv.dps = 40; mpmath.mp.dps = 40
    f = LAWS[name][('stl' if side < 0 else 'str_') if k == 's' else ('tl' if side < 0 else 'tr')]
    if k not in ('s', 0): f = dderiv(f, k)
    r = None
    for i in range(8, 240):
        T = Fraction(i, 4)
        try:
            if tail_bound(f, T, side) <= mpmath.mpf(10) ** -12: r = T; break
        except NoBound: continue
    _T[key] = r
    return r
def dderiv(f, k): return deriv(f, k)

def normalise_tail(p):
    """replace the tail-form atoms by their definitions (for the lemma that tail forms equal the law)"""
    def go(t):
        r = ZERO
        for mono, c in t.m.items():
            m = const(c)
            for a, ex in mono:
                if a.kind == 'fn' and a.data[0] == 'erfc': v = 1 - erf(a.data[1])
                elif a.kind == 'fn' and a.data[0] == 'log1pexp':
                    v = log(1 + exp(a.data[1])) if not _neglin(a.data[1]) else log(1 + exp(scale(a.data[1], -1))) + a.data[1]
                else: v = of_atom(a)
                m = mul(m, power(v, ex))
            r = add(r, m)
        return r
    return go(p)
def _neglin(p): return p is scale(x, -1)

def lemma_tail_forms(name):
    """tail forms agree with the law minus its limits"""
    out = []
    d = LAWS[name]
    for key, side, lim in (('tl', -1, ZERO), ('tr', 1, ONE), ('stl', -1, ZERO), ('str_', 1, ZERO)):
        pieces = d['s'] if key.startswith('s') else d['f']
        pc = [lt(x, ZERO) if side < 0 else gt(x, ZERO)]
        ok = True
        for c, p in pieces:
            if smt.check(pc + [c]) == 'unsat': continue
            ok = ok and is_zero(normalise_tail(d[key]) + lim - p)
        out.append((key, ok))
    return out

def compare(paths, name, k, tol_T=True):
    """paths: list of (pc list, expr or other). Yields (obligation name, ok, detail, cex)"""
    iv.dps = 40; mpmath.mp.dps = 40
    pieces = law(name, k)
    for pi, (pc, E) in enumerate(paths):
        if not isinstance(E, Poly):
            yield ('path %d returns a value' % pi, False, repr(E), None); continue
        for li, (c, Lw) in enumerate(pieces):
            dom = list(pc) + [c]
            if smt.check(dom) == 'unsat': continue
            nm = 'path %d [%s] / law piece %d' % (pi, ' & '.join(map(str, pc)) or 'true', li)
            D = E - mo * Lw
            if is_zero(D, dom): yield (nm, True, 'identity', None); continue
            ok = False
            try:
                dD = diff(D, XA)
                if is_zero(dD, dom):
                    pt = sample_point(dom)
                    if pt is not None:
                        v = ieval(D, {XA: iv.mpf(pt), MOA: iv.mpf(1)})
                        if abs(v).b < mpmath.mpf(10) ** -20 and is_zero(subst(D, {MOA: ZERO})): ok = True
            except (ValueError, KeyError): pass
            if ok: yield (nm, True, 'derivative zero and equal at a point', None); continue
            # limiting value in a tail
            lims = {-1: ZERO, 1: (mo if k == 0 else ZERO)}
            ok = E.is_const() or E is mo; used = []
            for side, half in ((-1, le(x, ZERO)), (1, gt(x, ZERO))):
                if not ok or smt.check(dom + [half]) == 'unsat': continue
                T = threshold(name, k, side)
                inside = None if T is None else (le(x, const(-T)) if side < 0 else ge(x, const(T)))
                ok = E is lims[side] and T is not None and smt.entails(dom + [half], inside)
                used.append(T)
            if ok: yield (nm, True, 'tail |law-limit|<=1e-12 beyond %s' % used, None); continue
            cex = find_cex(D, dom)
            yield (nm, False if cex else None, 'code: %s   law: %s' % (E, mo * Lw), cex)

def sample_point(dom):
    for pt in [0, 1, -1, Fraction(1, 2), Fraction(-1, 2), 2, -2, 5, -5, 9, -9, 20, -20, 37, -37, 50, -50, 100, -100, 7.5, -7.5, 39, -39, 36]:
        env = {XA: mpmath.mpf(Fraction(pt).numerator) / Fraction(pt).denominator, MOA: mpmath.mpf(1)}
        try:
            if all(evalb(f, env, mpmath.mp) for f in dom): return env[XA]
        except KeyError: pass
    return None

def grid():
    import random
    r = random.Random(1)
    g = [i / 16 for i in range(-16 * 50, 16 * 50 + 1)] + [r.uniform(-50, 50) for _ in range(400)] + [r.uniform(-9, 9) for _ in range(600)]
    return g

def find_cex(D, dom, tol=1e-12):
    best = None
    for pt in grid():
        for m in (1, 2):
            env = {XA: mpmath.mpf(pt), MOA: mpmath.mpf(m)}
            try:
                if not all(evalb(f, env, mpmath.mp) for f in dom): break
                v = abs(evalf(D, env, mpmath.mp))
            except (KeyError, ZeroDivisionError): return best
            if v > tol * m and (best is None or v > best[0]): best = (v, pt, m)
    if best: return {'x': best[1], 'mo': best[2], 'deviation': mpmath.nstr(best[0], 6)}
    return None
