"""SMT back end (z3): entailment / feasibility of path conditions.
Non-linear and transcendental atoms are opaque constants identified up to the
canonical form of their arguments (congruence is syntactic); exp is positive,
sqrt is non-negative with sqrt(a)^2=a."""
import time
import z3
from .terms import *

STAT = {'queries': 0, 'time': 0.0, 'unknown': 0}
_z = {}
_side = {}      # atom -> list of z3 facts

def zatom(a):
    r = _z.get(a)
    if r is not None: return r
    if a.kind == 'ite':
        r = z3.If(zform(a.data[0]), zpoly(a.data[1]), zpoly(a.data[2]))
        _z[a] = r; return r
    nm = 'a%d' % a.id
    r = z3.Int(nm) if a.sort == 'I' else z3.Real(nm)
    _z[a] = r
    if a.kind == 'fn':
        n = a.data[0]
        if n == 'exp':
            _side[a] = [r > 0]
            # exp(t) vs 1 according to the sign of t
            t = zpoly(a.data[1])
            _side[a].append(z3.And(z3.Implies(t > 0, r > 1), z3.Implies(t < 0, r < 1), r >= 1 + t))
        elif n == 'sqrt':
            t = zpoly(a.data[1])
            _side[a] = [r >= 0, z3.Implies(t >= 0, r * r == t)]
        elif n == 'inv':
            t = zpoly(a.data[1])
            _side[a] = [z3.Implies(t != 0, r * t == 1)]
        elif n == 'erf': _side[a] = [r > -1, r < 1, z3.Implies(zpoly(a.data[1]) > 0, r > 0), z3.Implies(zpoly(a.data[1]) < 0, r < 0)]
    elif a.kind == 'var' and a.data[0] == 'pi':
        _side[a] = [r > z3.Q(31415926, 10000000), r < z3.Q(31415927, 10000000)]
    return r

_zp = {}
def zpoly(p):
    r = _zp.get(p)
    if r is not None: return r
    r = _zpoly(p)
    _zp[p] = r
    return r

def _zpoly(p):
    if not p.m: return z3.IntVal(0) if False else z3.RealVal(0)
    allint = is_int(p)
    terms = []
    for mono, c in p.m.items():
        num = []; den = []
        for a, e in mono:
            x = zatom(a)
            (num if e > 0 else den).extend([x] * abs(e))
        t = None
        for x in num: t = x if t is None else t * x
        cc = z3.IntVal(c) if allint else z3.Q(c.numerator, c.denominator) if isinstance(c, Fraction) else z3.RealVal(c)
        if t is None: t = cc
        elif c != 1:
            t = cc * t
        for x in den:
            t = t * (z3.RealVal(1) / (z3.ToReal(x) if z3.is_int(x) else x))   # one reciprocal per atom: consistent at zero too
        terms.append(t)
    if len(terms) == 1: return terms[0]
    return z3.Sum(*terms)

_zf = {}
def zform(f):
    r = _zf.get(f)
    if r is not None: return r
    k = f.k
    if k == 'T': r = z3.BoolVal(True)
    elif k == 'F': r = z3.BoolVal(False)
    elif k == 'lt': r = zpoly(f.a[0]) < 0
    elif k == 'le': r = zpoly(f.a[0]) <= 0
    elif k == 'eq': r = zpoly(f.a[0]) == 0
    elif k == 'not': r = z3.Not(zform(f.a[0]))
    elif k == 'and': r = z3.And(*[zform(x) for x in f.a])
    elif k == 'or': r = z3.Or(*[zform(x) for x in f.a])
    elif k == 'bvar': r = z3.Bool('b_' + f.a[0])
    elif k == 'fcmp': r = zfcmp(*f.a)
    else: raise ValueError(k)
    _zf[f] = r
    return r

# ---- float terms: (nan, real value) ; arithmetic uninterpreted except comparison
_zfl = {}; _fls = {}; _flside = []
def zfl(t):
    r = _zfl.get(t)
    if r is not None: return r
    if t.k == 'c':
        v = t.a[0]
        if v != v: r = (z3.BoolVal(True), z3.RealVal(0))
        elif v in (float('inf'), float('-inf')):
            r = (z3.BoolVal(False), z3.Real('inf') if v > 0 else -z3.Real('inf'))
        else:
            q = Fraction(v); r = (z3.BoolVal(False), z3.Q(q.numerator, q.denominator))
    elif t.k == 'ite':
        c = zform(t.a[0]); a = zfl(t.a[1]); b = zfl(t.a[2])
        r = (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))
    elif t.k == 'uf' and t.a[0] == 'fabs':
        a = zfl(t.a[1]); r = (a[0], z3.If(a[1] >= 0, a[1], -a[1]))
    elif t.k == 'uf' and t.a[0] == 'fneg':
        a = zfl(t.a[1]); r = (a[0], -a[1])
    else:
        nm = 'f%d' % len(_zfl)
        r = (z3.Bool(nm + 'n'), z3.Real(nm))
        if t.k == 'op':     # IEEE: a NaN operand gives a NaN result
            _fls[t] = [z3.Implies(z3.Or(zfl(t.a[1])[0], zfl(t.a[2])[0]), r[0])]
    _zfl[t] = r
    return r

def zfcmp(pred, a, b):
    an, av = zfl(a); bn, bv = zfl(b)
    nn = z3.And(z3.Not(an), z3.Not(bn))
    base = {'oeq': av == bv, 'one': av != bv, 'olt': av < bv, 'ole': av <= bv, 'ogt': av > bv, 'oge': av >= bv}
    if pred in base: return z3.And(nn, base[pred])
    if pred == 'ord': return nn
    if pred == 'uno': return z3.Not(nn)
    o = {'ueq': 'oeq', 'une': 'one', 'ult': 'olt', 'ule': 'ole', 'ugt': 'ogt', 'uge': 'oge'}[pred]
    return z3.Or(z3.Not(nn), base[o])

# ---- solving
def _all_atoms(fs):
    acc = set()
    for f in fs: atoms_of(f, acc)
    return acc

_sidecache = {}
def side_facts(fs):
    out = []
    for a in _all_atoms(fs):
        zatom(a)
        out.extend(_side.get(a, ()))
    return out
def fl_facts(fs):
    seen = set(); out = []
    def walk(t):
        if t in seen: return
        seen.add(t)
        if isinstance(t, Fl): out.extend(_fls.get(t, ()))
        for x in t.a:
            if isinstance(x, (Fl, Form)): walk(x)
    for f in fs: walk(f)
    return out
def fl_terms(fs):
    seen = set(); out = []
    def walk(t):
        if t in seen: return
        seen.add(t)
        if isinstance(t, Fl): out.append(t)
        for x in t.a:
            if isinstance(x, (Fl, Form)): walk(x)
    for f in fs: walk(f)
    return out
def no_nan(fs):
    for f in fs: zform(f)
    return [z3.Not(zfl(t)[0]) for t in fl_terms(fs) if not (t.k == 'c' and t.a[0] != t.a[0])]

def _syms(f):
    if f._fv is None or True:
        r = _symcache.get(f)
        if r is None:
            s = set()
            for a in atoms_of(f):
                if a.kind in ('var', 'fn', 'sum'): s.add(a)
            _collect_flb(f, s)
            r = frozenset(s); _symcache[f] = r
        return r
_symcache = {}
def _collect_flb(f, s):
    if f.k == 'bvar': s.add(f)
    elif f.k == 'fcmp':
        for x in f.a[1:]: _fl_leaves(x, s)
    else:
        for x in f.a:
            if isinstance(x, Form): _collect_flb(x, s)
            elif isinstance(x, Poly):
                for a in atoms_of(x):
                    if a.kind == 'ite': _collect_flb(a.data[0], s)
def _fl_leaves(t, s):
    if t.k == 'c': return
    if t.k == 'ite':
        _collect_flb(t.a[0], s); _fl_leaves(t.a[1], s); _fl_leaves(t.a[2], s); return
    if t.k == 'uf' and t.a[0] in ('fabs', 'fneg'): _fl_leaves(t.a[1], s); return
    s.add(t)

def relevant(pc, goal):
    """cone of influence of the goal in pc; a goal over integer variables only is decided from the integer facts
    (fewer hypotheses: an entailment stays sound, feasibility is over-approximated)"""
    gs = _syms(goal)
    if gs and all(isinstance(a, Atom) and a.kind == 'var' and is_int(of_atom(a)) for a in gs):
        pc = [f for f in pc if all(isinstance(a, Atom) and a.kind == 'var' and is_int(of_atom(a)) for a in _syms(f))]
    syms = set(gs); rest = list(pc); out = []
    ch = True
    while ch and rest:
        ch = False; nr = []
        for f in rest:
            fs = _syms(f)
            if fs & syms or not fs:
                out.append(f); syms |= fs; ch = True
            else: nr.append(f)
        rest = nr
    return out

_cache = {}
def check(fs, timeout=2000, model=False, extra=()):
    """'sat' | 'unsat' | 'unknown' of a conjunction"""
    fs = [f for f in fs if f is not TRUE]
    if any(f is FALSE for f in fs): return ('unsat', None) if model else 'unsat'
    key = frozenset(fs)
    if not model and not extra and key in _cache: return _cache[key]
    t = time.time()
    s = z3.Solver(); s.set('timeout', timeout)
    for f in fs: s.add(zform(f))
    for x in side_facts(fs): s.add(x)
    for x in fl_facts(fs): s.add(x)
    for x in extra: s.add(x)
    r = str(s.check())
    STAT['queries'] += 1; STAT['time'] += time.time() - t
    if r == 'unknown': STAT['unknown'] += 1
    if not extra: _cache[key] = r
    if model: return r, (s.model() if r == 'sat' else None)
    return r

def entails(pc, goal, timeout=2000):
    """True if proved"""
    if goal is TRUE: return True
    if goal in pc: return True
    n = Not(goal)
    if n is TRUE: return check(list(pc), timeout) == 'unsat'
    return check(relevant(pc, n) + [n], timeout) == 'unsat'

def feasible(pc, extra, timeout=1000):
    if extra is FALSE: return False
    if extra is TRUE: return True
    if Not(extra) in pc: return False
    if extra in pc: return True
    return check(relevant(pc, extra) + [extra], timeout) != 'unsat'

def fixed_vars(pc):
    """integer/real variables the path condition pins to a value (linear equalities, or meeting constant bounds)"""
    mp = {}; lo = {}; hi = {}
    for f in pc:
        if not isinstance(f, Form): continue
        if f.k == 'eq':
            p = f.a[0]
            for mono, c in p.m.items():
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'var' and mono[0][0] not in mp and c in (1, -1):
                    rest = scale(sub(p, scale(of_atom(mono[0][0]), c)), Fraction(-1) / c)
                    if rest.is_const(): mp[mono[0][0]] = rest; break
        elif f.k in ('lt', 'le'):
            p = f.a[0]; ms = [m for m in p.m if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].kind == 'var':
                a = ms[0][0][0]; c = Fraction(p.m[ms[0]]); b = -Fraction(p.const()) / c
                I = is_int(of_atom(a))
                if f.k == 'lt':
                    if not I: continue
                    import math
                    b = math.ceil(b) - 1 if c > 0 else math.floor(b) + 1
                if c > 0: hi[a] = min(hi.get(a, b), b)
                else: lo[a] = max(lo.get(a, b), b)
    for a in lo:
        if a in hi and lo[a] == hi[a] and a not in mp: mp[a] = const(Fraction(lo[a]) if Fraction(lo[a]).denominator != 1 else int(lo[a]))
    return mp
