"""Matrix algebra of the verifier: matrices are complex linear combinations of words over letters.

A letter is an input matrix, an operator, or the result of a LAPACK contract; a word is a product of letters, their
adjoints and real diagonal matrices.  LAPACK contracts add rewrite rules (A X = B after a solve, A U = U D and
U^H U = U U^H = 1 after an eigendecomposition), so matrix identities become equality of normal forms.
The element (i,j) of a word is the pair of atoms  name(i,j), name.im(i,j).
"""
from .terms import *
from .mem import *
from . import ir
from . import terms as terms_mod

D_ = var('§d', 'I'); DA = next(iter(free_vars(D_)))
I_ = var('§i', 'I'); IA = next(iter(free_vars(I_)))
J_ = var('§j', 'I'); JA = next(iter(free_vars(J_)))

LET = {}       # name -> dict(rows, cols, herm, unit, how)
WORDS = {}     # element name -> word
WNAME = {}     # word -> element name
RULES = []     # (pattern word, MP)
_nf_memo = {}
_cnt = [0]

def reset():
    for d in (LET, WORDS, WNAME, _nf_memo, _OP, _EIG, _SOL, EVAL, FACT, TR, FUN): d.clear()
    del RULES[:]

def letter(name, rows, cols, herm=False, unit=False, how=('in',)):
    if name not in LET:
        LET[name] = {'rows': P(rows), 'cols': P(cols), 'herm': herm, 'unit': unit, 'how': how}
        WORDS[name] = (('L', name, False),); WNAME[(('L', name, False),)] = name
        _nf_memo.clear()
    return name

def tok(name, adj=False):
    if adj and LET[name]['herm']: adj = False
    return ('L', name, adj)

def adj_word(w):
    return tuple(t if t[0] == 'D' else tok(t[1], not t[2]) for t in reversed(w))

def cmul(a, b): return (sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])))
def cadd(a, b): return (add(a[0], b[0]), add(a[1], b[1]))
def cconj(a): return (a[0], scale(a[1], -1))
C1 = (ONE, ZERO)
def cz(a): return a[0] is ZERO and a[1] is ZERO

class MP:
    """matrix polynomial"""
    __slots__ = ('rows', 'cols', 't')
    def __init__(self, rows, cols, t): self.rows = P(rows); self.cols = P(cols); self.t = t
    def __repr__(self):
        if not self.t: return '0'
        return ' + '.join('(%s%s)%s' % (c[0], '' if c[1] is ZERO else '+i(%s)' % c[1], wstr(w)) for w, c in self.t.items())

def wstr(w):
    if not w: return '1'
    return '·'.join('diag(%s)' % (t[1],) if t[0] == 'D' else t[1] + ("^H" if t[2] else '') for t in w)

def norm_word(w):
    """-> dict word -> coef with diagonals merged, rules applied"""
    r = _nf_memo.get(w)
    if r is not None: return r
    r = _norm(w)
    _nf_memo[w] = r
    return r
def _acc(d, w, c):
    if w in d:
        c = cadd(d[w], c)
        if cz(c): del d[w]; return
    elif cz(c): return
    d[w] = c
def _sum_nf(parts):
    out = {}
    for w, c in parts:
        for w2, c2 in norm_word(w).items(): _acc(out, w2, cmul(c, c2))
    return out
def split_diag(p):
    """diagonal entry polynomial -> [(scalar, entry)] with the entry a monomial in index-dependent atoms"""
    out = {}
    for mono, c in p.m.items():
        s = {tuple(x for x in mono if DA not in free_vars(of_atom(x[0]))): c}
        e = mk_poly({tuple(x for x in mono if DA in free_vars(of_atom(x[0]))): 1})
        out[e] = add(out.get(e, ZERO), mk_poly(s))
    return [(s, e) for e, s in out.items() if s is not ZERO]
def _norm(w):
    for k, t in enumerate(w):
        if t[0] == 'D':
            if k + 1 < len(w) and w[k + 1][0] == 'D':
                return norm_word(w[:k] + (('D', mul(t[1], w[k + 1][1])),) + w[k + 2:])
            sp = split_diag(t[1])
            if len(sp) != 1 or sp[0][0] is not ONE or sp[0][1] is ONE:
                return _sum_nf([(w[:k] + (() if e is ONE else (('D', e),)) + w[k + 1:], (s, ZERO)) for s, e in sp])
        elif LET[t[1]]['herm'] and t[2]:
            return norm_word(w[:k] + (('L', t[1], False),) + w[k + 1:])
        if k + 1 < len(w) and t[0] == 'L' and w[k + 1][0] == 'L' and t[1] == w[k + 1][1] and LET[t[1]]['unit'] and t[2] != w[k + 1][2]:
            return norm_word(w[:k] + w[k + 2:])
    for pat, rep in RULES:
        n = len(pat)
        for k in range(len(w) - n + 1):
            if w[k:k + n] == pat:
                return _sum_nf([(w[:k] + v + w[k + n:], c) for v, c in rep.t.items()])
    return {w: C1}

def mk(rows, cols, parts): return MP(rows, cols, _sum_nf(parts))
def renorm(a): return mk(a.rows, a.cols, list(a.t.items()))
def zero(r, c): return MP(r, c, {})
def ident(n): return MP(n, n, {(): C1})
def of_letter(n): return mk(LET[n]['rows'], LET[n]['cols'], [((tok(n),), C1)])
def diag(p, n): return mk(n, n, [((('D', p),), C1)])
def madd(a, b):
    out = dict(a.t)
    for w, c in b.t.items(): _acc(out, w, c)
    return MP(a.rows, a.cols, out)
def mscale(a, c):
    if cz(c): return zero(a.rows, a.cols)
    return MP(a.rows, a.cols, {w: x for w, x in ((w, cmul(c, k)) for w, k in a.t.items()) if not cz(x)})
def msub(a, b): return madd(a, mscale(b, (const(-1), ZERO)))
def mmul(a, b):
    return mk(a.rows, b.cols, [(w + v, cmul(c, d)) for w, c in a.t.items() for v, d in b.t.items()])
def mH(a): return mk(a.cols, a.rows, [(adj_word(w), cconj(c)) for w, c in a.t.items()])
def same(a, b): return not msub(renorm(a), renorm(b)).t

# ------------------------------------------------------------------ elements
def wkey(w): return tuple((0, t[1]._key) if t[0] == 'D' else (1, t[1], t[2]) for t in w)
def wcmp(w): return (len(w), repr(wkey(w)))
def word_name(w):
    n = WNAME.get(w)
    if n is None:
        n = '@w%d' % len(WNAME); WNAME[w] = n; WORDS[n] = w
    return n
def elem_word(w, i, j):
    """(re, im) of the element (i,j) of a normal word"""
    f = ONE
    if w and w[0][0] == 'D': f = mul(f, subst(w[0][1], {DA: i})); w = w[1:]
    if w and w[-1][0] == 'D': f = mul(f, subst(w[-1][1], {DA: j})); w = w[:-1]
    if not w: return (mul(f, ite(eq(i, j), ONE, ZERO)), ZERO)
    v = adj_word(w); sg = 1
    if v == w:
        if i is j: return (mul(f, fn(word_name(w), i, i)), ZERO)
        if j._key < i._key: i, j, sg = j, i, -1
    elif (len(w) == 1 and w[0][2]) or (len(w) > 1 and wcmp(v) < wcmp(w)): w, i, j, sg = v, j, i, -1
    n = word_name(w)
    return (mul(f, fn(n, i, j)), scale(mul(f, fn(n + '.im', i, j)), sg))
def elem(a, i, j):
    re = im = ZERO
    for w, c in a.t.items():
        x = cmul(c, elem_word(w, i, j)); re = add(re, x[0]); im = add(im, x[1])
    return re, im
def _rebuild(name, args):
    """canonical element atom (called when an atom's arguments are substituted)"""
    im = name.endswith('.im'); n = name[:-3] if im else name
    w = WORDS.get(n)
    if w is None or len(args) != 2: return None
    if adj_word(w) != w: return None
    return elem_word(w, args[0], args[1])[1 if im else 0]

terms_mod.REBUILD2 = _rebuild

def mat_atom(a):
    """-> (word, is_im, i, j) or None"""
    if a.kind != 'fn' or len(a.data) != 3: return None
    n = a.data[0]; im = n.endswith('.im')
    if im: n = n[:-3]
    w = WORDS.get(n)
    return None if w is None else (w, im, a.data[1], a.data[2])

# ------------------------------------------------------------------ recognition of array contents
class NotMatrix(Exception): pass
def opaque(re, im, m, n):
    k = (re, im, m, n)
    nm = _OP.get(k)
    if nm is None:
        nm = '@o%d' % len(_OP); _OP[k] = nm; letter(nm, m, n, how=('elem', re, im))
    return of_letter(nm)
_OP = {}
def recognise(re, im, m, n):
    """re, im: polynomials in the generic indices §i, §j"""
    if re is ZERO and im is ZERO: return zero(m, n)
    try: return _recog(re, im, m, n)
    except NotMatrix:
        return opaque(re, im, m, n)
def _recog(re, im, m, n):
    acc = {}
    diagc = [ZERO, ZERO]
    def one(p, part):
        for mono, c in p.m.items():
            mats = []; row = []; col = []; sc = []; its = []
            for a, e in mono:
                t = mat_atom(a)
                fv = free_vars(of_atom(a))
                hi, hj = IA in fv, JA in fv
                if t is not None and hi and hj:
                    if e != 1: raise NotMatrix()
                    mats.append(t); continue
                if a.kind == 'ite' and hi and hj:
                    if e != 1: raise NotMatrix()
                    its.append(a); continue
                if hi and hj: raise NotMatrix()
                (row if hi else col if hj else sc).append((a, e))
            if its:
                if len(its) != 1: raise NotMatrix()
                a = its[0]; cond, th, el = a.data
                if cond is eq(I_, J_): pass
                elif cond is Not(eq(I_, J_)): th, el = el, th
                else: raise NotMatrix()
                rest = mul(mk_poly({tuple(x for x in mono if x[0] is not a): c}), ONE)
                one(mul(rest, el), part)
                dlt = subst(mul(rest, sub(th, el)), {JA: I_})
                diagc[part] = add(diagc[part], subst(dlt, {IA: D_}))
                continue
            if len(mats) != 1: raise NotMatrix()
            w, isim, i, j = mats[0]
            if i is I_ and j is J_: sg = 1
            elif i is J_ and j is I_: w = adj_word(w); sg = -1
            else: raise NotMatrix()
            k = (mk_poly({tuple(row): 1}), w, mk_poly({tuple(col): 1}))
            e = acc.setdefault(k, {})
            co = mk_poly({tuple(sc): c if not isim else c * sg})
            e[(part, isim)] = add(e.get((part, isim), ZERO), co)
    one(re, 0); one(im, 1)
    # self-adjoint words: the two orientations are the same atom
    parts = []
    for (r, w, cl), e in acc.items():
        cr, ci = e.get((0, False), ZERO), e.get((1, False), ZERO)
        if e.get((1, True), ZERO) is not cr or e.get((0, True), ZERO) is not scale(ci, -1): raise NotMatrix()
        v = w
        if r is not ONE: v = (('D', subst(r, {IA: D_})),) + v
        if cl is not ONE: v = v + (('D', subst(cl, {JA: D_})),)
        parts.append((v, (cr, ci)))
    if diagc[0] is not ZERO: parts.append(((('D', diagc[0]),), C1))
    if diagc[1] is not ZERO: parts.append(((('D', diagc[1]),), (ZERO, ONE)))
    return mk(m, n, parts)

# ------------------------------------------------------------------ memory
def _int(x): return P(x)
class Region:
    """m x n column-major block at p with leading dimension ld (elements of 16 bytes)"""
    def __init__(self, eng, st, p, m, n, ld, what, s0=1):
        from .exec import MemErr
        self.eng = eng; self.st = st; self.m = P(m); self.n = P(n); self.p = p
        if not isinstance(p, Ptr): raise ToolLimit('matrix pointer')
        o = eng.obj_of(st, p, what)
        if isinstance(o, Cells): raise ToolLimit('matrix of concrete shape')
        if o.raw: o = eng._type_raw(st, p.o, 16, p.off)
        if o.esz != 16: raise ToolLimit('matrix element size')
        t = st.fork(); t.assume(And(ge(I_, ZERO), lt(I_, self.m))); t.assume(And(ge(J_, ZERO), lt(J_, self.n)))
        off = add(P(p.off), scale(add(mul(I_, P(s0)), mul(J_, P(ld))), 16))
        idx, part = decode(o, off, t)
        if part != 0: raise MemErr('matrix pointer not aligned to an element')
        self.t = t; self.idx = idx; self.o = p.o
        eng.bounds(t, o, idx, what)
    def read(self):
        from .exec import MemErr
        o = self.st.mem[self.o]
        re = read_array(o, self.idx, 0, self.t); im = read_array(o, self.idx, 8, self.t)
        if re is UNDEF or im is UNDEF: raise MemErr('a matrix operation reads uninitialised memory')
        return recognise(P(re), P(im), self.m, self.n)
    def write(self, a):
        re, im = elem(a, I_, J_)
        x = fresh('r', 'I'); y = fresh('c', 'I'); xa = next(iter(free_vars(x))); ya = next(iter(free_vars(y)))
        mp = {IA: x, JA: y}
        o = self.st.wobj(self.o)
        idx = tuple(subst(k, mp) for k in self.idx)
        for part, v in ((0, re), (8, im)):
            o.layers = o.layers + (Layer(((xa, self.m), (ya, self.n)), idx, part, TRUE, subst(v, mp)),)

def fresh_letter(pref, m, n, **kw):
    _cnt[0] += 1
    return letter('@%s%d' % (pref, _cnt[0]), m, n, **kw)

def cload(eng, st, p):
    re = eng.load(st, ir.DBL, p); im = eng.load(st, ir.DBL, Ptr(p.o, eng._addoff(p.off, 8, 1)))
    if re is UNDEF or im is UNDEF:
        from .exec import MemErr
        raise MemErr('uninitialised scalar factor')
    return (P(re), P(im))

# ------------------------------------------------------------------ BLAS / LAPACK contracts
def _need(st, c, what):
    from .exec import MemErr
    if not st.entails(c): raise MemErr(what)
def zgemm(eng, st, a, i):
    order, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc = a
    from .exec import MemErr
    if not all(isinstance(x, int) for x in (order, ta, tb)): raise ToolLimit('symbolic gemm mode')
    if order == 101:
        # row major: C^T = op(B)^T op(A)^T
        A, B, lda, ldb, ta, tb, M, N = B, A, ldb, lda, tb, ta, N, M
    elif order != 102: raise MemErr('zgemm: illegal order')
    if ta not in (111, 113) or tb not in (111, 113): raise ToolLimit('gemm with a plain transpose')
    for k in (M, N, K): _need(st, ge(P(k), ZERO), 'zgemm: negative dimension')
    ra, ca = (M, K) if ta == 111 else (K, M)
    rb, cb = (K, N) if tb == 111 else (N, K)
    for nm, ld, r in (('lda', lda, ra), ('ldb', ldb, rb), ('ldc', ldc, M)): _need(st, ge(P(ld), P(r)), 'zgemm: %s smaller than the number of rows' % nm)
    alpha, beta = cload(eng, st, al), cload(eng, st, be)
    if isinstance(C, Ptr) and (C.o == A.o or C.o == B.o): raise MemErr('zgemm: the result overlaps an operand')
    x = Region(eng, st, A, ra, ca, lda, 'read').read(); y = Region(eng, st, B, rb, cb, ldb, 'read').read()
    if ta == 113: x = mH(x)
    if tb == 113: y = mH(y)
    z = mscale(mmul(x, y), alpha)
    rc = Region(eng, st, C, M, N, ldc, 'write')
    if not cz(beta): z = madd(mscale(rc.read(), beta), z)
    rc.write(z)
    return None

def solve_lead(a):
    """a leading word with an invertible numeric coefficient"""
    c = [(w, k) for w, k in a.t.items() if k[1] is ZERO and k[0].is_const()]
    if not c: return None
    return max(c, key=lambda x: wcmp(x[0]))
def add_rule(a, name, rhs):
    """a · letter = rhs"""
    ld = solve_lead(a)
    if ld is None:
        raise ToolLimit('factorised matrix without a leading term')
    w, k = ld
    t = tok(name)
    parts = [(v, c) for v, c in rhs.t.items()] + [(v + (t,), (scale(c[0], -1), scale(c[1], -1))) for v, c in a.t.items() if v != w]
    inv = (const(Fraction(1) / k[0].const()), ZERO)
    rep = mscale(mk(rhs.rows, rhs.cols, parts), inv)
    RULES.append((w + (t,), rep)); RULES.append((adj_word(w + (t,)), mH(rep)))
    _nf_memo.clear()

_EIG = {}; _SOL = {}
def mkey(a): return (a.rows, a.cols, tuple(sorted(((repr(wkey(w)), c[0]._key, c[1]._key) for w, c in a.t.items()))))
def eig_of(a):
    k = mkey(a)
    if k not in _EIG:
        n = len(_EIG)
        u = letter('@U%d' % n, a.rows, a.rows, unit=True, how=('eigvec', a))
        ev = '@ev%d' % n; EVAL[ev] = a
        _EIG[k] = (u, ev)
        add_rule(a, u, mmul(of_letter(u), diag(fn(ev, D_), a.rows)))
    return _EIG[k]
EVAL = {}
def sol_of(a, b):
    k = (mkey(a), mkey(b))
    if k not in _SOL:
        x = letter('@X%d' % len(_SOL), a.rows, b.cols, how=('solve', a, b)); _SOL[k] = x
        add_rule(a, x, b)
    return _SOL[k]
def hermitian(a): return same(a, mH(a))

def garbage(eng, st, reg, pref):
    reg.write(of_letter(fresh_letter(pref, reg.m, reg.n)))
def zheevd(eng, st, a, i):
    from .exec import MemErr, Forked
    order, jobz, uplo, n, A, lda, w = a
    if order != 102: raise ToolLimit('zheevd order')
    if jobz not in (86, 78) or uplo not in (85, 76): raise MemErr('zheevd: illegal jobz/uplo')
    _need(st, ge(P(n), ZERO), 'zheevd: negative order'); _need(st, ge(P(lda), P(n)), 'zheevd: lda smaller than the order')
    bad = st.fork()
    reg = Region(eng, st, A, n, n, lda, 'write'); x = reg.read()
    wv = _vec(eng, st, w, n)
    if hermitian(x) and x.t:
        u, ev = eig_of(x)
    else:
        # only one triangle is read: nothing is known about the full matrix
        u = fresh_letter('U', n, n, unit=True); ev = '@ev' + u; EVAL[ev] = None
    if jobz == 86: reg.write(of_letter(u))
    else: garbage(eng, st, reg, 'g')
    _vwrite(st, w, wv, n, lambda k: fn(ev, k))
    for b in (bad,):
        r2 = Region(eng, b, A, n, n, lda, 'write'); garbage(eng, b, r2, 'g')
        nm = '@bad%d' % _cnt[0]
        _vwrite(b, w, _vec(eng, b, w, n), n, lambda k: fn(nm, k))
        inf = fresh('info', 'I'); b.assume(ne(inf, ZERO)); b.ghost['lapack_failed'] = True
    return Forked([(st, 0), (bad, inf)])
def _vec(eng, st, p, n):
    o = eng.obj_of(st, p, 'write')
    if isinstance(o, Cells): raise ToolLimit('vector of concrete shape')
    if o.raw: o = eng._type_raw(st, p.o, 8, p.off)
    if o.esz != 8: raise ToolLimit('vector element size')
    k = fresh('v', 'I'); t = st.fork(); t.assume(And(ge(k, ZERO), lt(k, P(n))))
    idx, part = decode(o, add(P(p.off), scale(k, 8)), t)
    eng.bounds(t, o, idx, 'write')
    return k, idx
def _vwrite(st, p, wv, n, f):
    k, idx = wv; o = st.wobj(p.o)
    o.layers = o.layers + (Layer(((next(iter(free_vars(k))), P(n)),), idx, 0, TRUE, f(k)),)

def zpotrf(eng, st, a, i):
    from .exec import MemErr, Forked
    order, uplo, n, A, lda = a
    if order != 102: raise ToolLimit('zpotrf order')
    if uplo not in (85, 76): raise MemErr('zpotrf: illegal uplo')
    _need(st, ge(P(n), ZERO), 'zpotrf: negative order'); _need(st, ge(P(lda), P(n)), 'zpotrf: lda smaller than the order')
    bad = st.fork()
    reg = Region(eng, st, A, n, n, lda, 'write'); x = reg.read()
    f = fresh_letter('C', n, n, how=('chol', x, uplo))
    FACT[f] = (x, uplo, hermitian(x))
    reg.write(of_letter(f))
    garbage(eng, bad, Region(eng, bad, A, n, n, lda, 'write'), 'g')
    inf = fresh('info', 'I'); bad.assume(ne(inf, ZERO)); bad.ghost['lapack_failed'] = True
    return Forked([(st, 0), (bad, inf)])
FACT = {}
def zpotrs(eng, st, a, i):
    from .exec import MemErr
    order, uplo, n, nrhs, A, lda, B, ldb = a
    if order != 102: raise ToolLimit('zpotrs order')
    if uplo not in (85, 76): raise MemErr('zpotrs: illegal uplo')
    for k in (n, nrhs): _need(st, ge(P(k), ZERO), 'zpotrs: negative dimension')
    _need(st, ge(P(lda), P(n)), 'zpotrs: lda smaller than the order'); _need(st, ge(P(ldb), P(n)), 'zpotrs: ldb smaller than the order')
    x = Region(eng, st, A, n, n, lda, 'read').read(); reg = Region(eng, st, B, n, nrhs, ldb, 'write'); b = reg.read()
    f = None
    if len(x.t) == 1:
        (w, c), = x.t.items()
        if c == C1 and len(w) == 1 and w[0][0] == 'L' and not w[0][2]: f = FACT.get(w[0][1])
    if f is None or f[1] != uplo or not f[2]: reg.write(of_letter(fresh_letter('g', n, nrhs))); return 0
    reg.write(of_letter(sol_of(f[0], b)) if b.t else zero(n, nrhs))
    return 0

# ------------------------------------------------------------------ traces
def _cyc(w):
    """canonical cyclic rotation of a word (all rotations reduced first)"""
    return min((w[k:] + w[:k] for k in range(max(1, len(w)))), key=wcmp)
def trace(a):
    """normal form of tr(a): dict cyc-word -> coef"""
    todo = list(a.t.items()); out = {}
    steps = 0
    while todo:
        steps += 1
        if steps > 5000: raise ToolLimit('trace')
        w, c = todo.pop()
        for k in range(max(1, len(w))):
            v = w[k:] + w[:k]
            nf = norm_word(v)
            if nf != {v: C1}:
                todo += [(x, cmul(c, d)) for x, d in nf.items()]; break
        else: _acc(out, _cyc(w), c)
    return out
def trace_poly(a):
    """(re, im) polynomials of tr(a)"""
    re = im = ZERO
    for w, c in trace(a).items():
        v = _cyc(adj_word(w)); sg = 1
        if v == w: t = (fn('tr:' + wstr(w)), ZERO)
        else:
            if wcmp(v) < wcmp(w): w, sg = v, -1
            t = (fn('tr:' + wstr(w)), scale(fn('tr.im:' + wstr(w)), sg))
        TR['tr:' + wstr(w)] = TR['tr.im:' + wstr(w)] = w
        x = cmul(c, t); re = add(re, x[0]); im = add(im, x[1])
    return re, im
TR = {}

def shape(w):
    r = c = None
    for t in w:
        if t[0] == 'L':
            a, b = LET[t[1]]['rows'], LET[t[1]]['cols']
            if t[2]: a, b = b, a
            if r is None: r = a
            c = b
    return r, c
def to_traces(p):
    """rewrite sums over all elements of products of two matrix elements into traces"""
    out = ZERO
    for mono, c in p.m.items():
        ar = [(a, e) for a, e in mono if a.kind == 'fn' and a.data[0] == 'ar_sum' and len(a.data) == 3]
        if ar:
            r = mk_poly({tuple(x for x in mono if x not in ar): c})
            for a, e in ar:
                t = to_traces(a.data[2])
                if t is not a.data[2]:
                    from . import builtins
                    tag = a.data[1]; x = ZERO
                    for m2, c2 in t.m.items(): x = add(x, scale(builtins.ar_mono('ar_sum', tag, m2), c2))
                else: x = of_atom(a)
                r = mul(r, power(x, e))
            out = add(out, r); continue
        s = [(a, e) for a, e in mono if a.kind == 'sum']
        if len(s) != 1 or s[0][1] != 1: out = add(out, mk_poly({mono: c})); continue
        co = mk_poly({tuple(x for x in mono if x[0].kind != 'sum'): c})
        t = _trace_sum(s[0][0])
        out = add(out, mul(co, of_atom(s[0][0]) if t is None else t))
    return out
def _trace_sum(a):
    d, lo, hi, _ = a.data
    if lo is not ZERO: return None
    x = fresh('$t', 'I'); xa = next(iter(free_vars(x)))
    body = sum_body(a, x); out = ZERO
    for mono, c in body.m.items():
        s = [(b, e) for b, e in mono if b.kind == 'sum']
        if len(s) > 1 or (s and s[0][1] != 1): return None
        if s:
            co = mk_poly({tuple(z for z in mono if z[0].kind != 'sum'): c})
            b = s[0][0]
            if b.data[1] is not ZERO: return None
            y = fresh('$t', 'I'); ya = next(iter(free_vars(y)))
            for m2, c2 in mul(co, sum_body(b, y)).m.items():
                t = _trace_mono(m2, c2, xa, hi, ya, b.data[2])
                if t is None: return None
                out = add(out, t)
        else:
            t = _trace_mono(mono, c, xa, hi, None, None)
            if t is None: return None
            out = add(out, t)
    return out
def _trace_mono(mono, c, xa, nx, ya, ny):
    X = of_atom(xa); Y = of_atom(ya) if ya is not None else None
    mats = []; fx = ONE; fy = ONE; sc = const(c)
    for a, e in mono:
        t = mat_atom(a); fv = free_vars(of_atom(a))
        if t is not None and (xa in fv or ya in fv):
            if ya is None and t[2] is X and t[3] is X and not mats and e == 1: mats.append(t); continue
            if ya is not None and e in (1, 2) and {t[2], t[3]} == {X, Y}: mats += [t] * e; continue
            if ya is None or xa in fv and ya in fv: return None
        if xa in fv and ya in fv: return None
        f = power(of_atom(a), e)
        if xa in fv: fx = mul(fx, f)
        elif ya in fv: fy = mul(fy, f)
        else: sc = mul(sc, f)
    D = lambda f, at: ((('D', subst(f, {at: D_})),) if f is not ONE else ())
    if ya is None:
        if len(mats) != 1: return None
        w, im, _, _ = mats[0]
        r, cc = shape(w)
        if r is not nx or cc is not nx: return None
        t = trace_poly(mk(nx, nx, [(D(fx, xa) + w, C1)]))
        return mul(sc, t[1 if im else 0])
    if len(mats) != 2: return None
    ws = []
    for w, im, i, j in mats:
        sg = 1
        if i is Y: w = adj_word(w); sg = -1 if im else 1
        ws.append((w, im)); sc = scale(sc, sg)
        r, cc = shape(w)
        if r is not nx or cc is not ny: return None
    (u, iu), (v, iv) = ws
    dx, dy = D(fx, xa), D(fy, ya)
    # ru rv = (Re T + Re N)/2, iu iv = (Re T - Re N)/2, iu rv = (Im T + Im N)/2, ru iv = (Im N - Im T)/2
    # with T = tr(Dx u Dy v^H), N = sum u v (no conjugation, kept opaque and symmetric)
    T = trace_poly(mk(nx, nx, [(dx + u + dy + adj_word(v), C1)]))
    k = tuple(sorted((wstr(u), wstr(v))))
    N = (fn('trN:%s|%s|%s|%s' % (wstr(dx), k[0], wstr(dy), k[1])), fn('trN.im:%s|%s|%s|%s' % (wstr(dx), k[0], wstr(dy), k[1])))
    if not iu and not iv: t = add(T[0], N[0])
    elif iu and iv: t = sub(T[0], N[0])
    elif iu: t = add(T[1], N[1])
    else: t = sub(N[1], T[1])
    return scale(mul(sc, t), Fraction(1, 2))

# ------------------------------------------------------------------ numeric interpretation (refutation)
class NumMat:
    def __init__(self, interp): self.I = interp; self.m = {}; self.ev = {}
    def dim(self, p): return int(self.I.ev(p))
    def letter(self, n):
        import numpy as np
        if n in self.m: return self.m[n]
        L = LET[n]; r, c = self.dim(L['rows']), self.dim(L['cols'])
        h = L['how']
        if h[0] == 'eigvec': self._eig(h[1], n)
        elif h[0] == 'solve':
            self.m[n] = np.linalg.solve(self.mp(h[1]), self.mp(h[2]))
        elif h[0] == 'chol':
            a = self.mp(h[1]); l = np.linalg.cholesky(a); self.m[n] = np.triu(l.conj().T) + np.tril(a, -1) if h[2] == 85 else np.tril(l) + np.triu(a, 1)
        elif h[0] == 'elem':
            x = np.zeros((r, c), dtype=complex)
            for i in range(r):
                for j in range(c):
                    mp = {IA: const(i), JA: const(j)}
                    x[i, j] = complex(float(self.I.ev(subst(h[1], mp))), float(self.I.ev(subst(h[2], mp))))
            self.m[n] = x
        else:
            import zlib
            g = np.random.default_rng([self.I.seed, zlib.crc32(n.encode())])
            x = g.standard_normal((r, c)) + 1j * g.standard_normal((r, c))
            if h == ('pd',): x = x @ x.conj().T + 0.3 * np.eye(r)
            elif L['herm']: x = x + x.conj().T
            elif L['unit']: x, _ = np.linalg.qr(x)
            self.m[n] = x
        return self.m[n]
    def _eig(self, a, n):
        import numpy as np
        w, v = np.linalg.eigh(self.mp(a)); self.m[n] = v
    def evals(self, ev):
        import numpy as np
        if ev not in self.ev:
            a = EVAL.get(ev)
            if a is None: return None
            self.ev[ev] = np.linalg.eigh(self.mp(a))[0]
        return self.ev[ev]
    def word(self, w, r):
        import numpy as np
        x = None
        n = self.dim(r)
        x = np.eye(n, dtype=complex)
        for t in w:
            if t[0] == 'D':
                d = np.array([float(self.I.ev(subst(t[1], {DA: const(k)}))) for k in range(x.shape[1])]); x = x * d
            else:
                y = self.letter(t[1]); x = x @ (y.conj().T if t[2] else y)
        return x
    def mp(self, a):
        import numpy as np
        r, c = self.dim(a.rows), self.dim(a.cols); x = np.zeros((r, c), dtype=complex)
        for w, k in a.t.items():
            x = x + complex(float(self.I.ev(k[0])), float(self.I.ev(k[1]))) * self.word(w, a.rows)
        return x
def num_atom(interp, a, name, args):
    """value of a matrix element / eigenvalue atom, or None"""
    import mpmath
    nm = getattr(interp, 'nm', None)
    if nm is None: nm = interp.nm = NumMat(interp)
    if name in EVAL:
        ev = nm.evals(name)
        return None if ev is None else mpmath.mpf(float(ev[int(args[0])]))
    t = mat_atom(a)
    if t is None: return None
    w, im, _, _ = t
    k = ('W', w)
    if k not in nm.m: nm.m[k] = nm.word(w, shape(w)[0])
    z = nm.m[k][int(args[0]), int(args[1])]
    return mpmath.mpf(float(z.imag if im else z.real))
def num_trace(interp, n):
    w = TR.get(n)
    if w is None: return None
    import mpmath, numpy as np
    nm = getattr(interp, 'nm', None)
    if nm is None: nm = interp.nm = NumMat(interp)
    z = np.trace(nm.word(w, shape_full(w)))
    return mpmath.mpf(float(z.imag if n.startswith('tr.im:') else z.real))
def shape_full(w):
    """rows of a cyclic word; a diagonal in front of a letter has the rows of that letter"""
    return shape(w)[0]
def refute(a, b, pc, tries=30):
    """concrete matrices for which a != b under pc"""
    import numpy as np
    from .prove import Interp
    good = 0
    for s in range(tries):
        I = Interp(s)
        try:
            if not all(I.bv(f) for f in pc): continue
            I.nm = NumMat(I)
            x, y = I.nm.mp(a), I.nm.mp(b)
        except (KeyError, ZeroDivisionError, ValueError, TypeError, IndexError, np.linalg.LinAlgError): continue
        good += 1
        if x.shape != y.shape or abs(x - y).max() > 1e-5 * (1 + abs(x).max() + abs(y).max()):
            return {'code': str(x.round(6).tolist())[:600], 'spec': str(y.round(6).tolist())[:600], 'env': {str(k): str(v)[:14] for k, v in list(I.env.items())[:30]}}
    return None if good else 'no-sample'

# ------------------------------------------------------------------ ghost interface
def _h(st, a):
    t = st.ghost.get('mats', ()); st.ghost['mats'] = t + (a,); return len(t)
def _g(st, k): return st.ghost['mats'][k]
def g_letter(eng, st, a, i):
    """nlv_mletter(view ptr, n0, n1, ld, name, flags): flags 1 Hermitian, 2 unitary"""
    from .builtins import inp
    n = inp(eng, st, a[4]); fl = a[5]
    letter(n, a[1], a[2], herm=bool(fl & 1), unit=bool(fl & 2))
    Region(eng, st, a[0], a[1], a[2], a[3], 'write').write(of_letter(n)); return None
def g_op(eng, st, a, i):
    """nlv_mop(name, n, flags): operator letter; flags 1 Hermitian, 4 positive definite"""
    from .builtins import inp
    n = inp(eng, st, a[0]); letter(n, a[1], a[1], herm=True, how=('pd',) if a[2] & 4 else ('in',)); return _h(st, of_letter(n))
def g_get(eng, st, a, i): return _h(st, Region(eng, st, a[0], a[1], a[2], a[3], 'read').read())
def g_put(eng, st, a, i): Region(eng, st, a[0], a[1], a[2], a[3], 'write').write(_g(st, a[4])); return None
def g_mul(eng, st, a, i):
    x, y = _g(st, a[0]), _g(st, a[1])
    if not st.entails(eq(x.cols, y.rows)): raise ToolLimit('matrix product of unequal dimensions in a specification')
    return _h(st, mmul(x, y))
def g_H(eng, st, a, i): return _h(st, mH(_g(st, a[0])))
def g_add(eng, st, a, i): return _h(st, madd(_g(st, a[0]), mscale(_g(st, a[1]), (P(a[2]), P(a[3])))))
def g_scale(eng, st, a, i): return _h(st, mscale(_g(st, a[0]), (P(a[1]), P(a[2]))))
def g_ident(eng, st, a, i): return _h(st, ident(a[0]))
def g_diag(eng, st, a, i):
    """nlv_mdiag(ptr, n): diagonal matrix of a real vector"""
    return _h(st, diag(g_vec(eng, st, a[0], a[1])[1], P(a[1])))
def f_begin(eng, st, a, i):
    from .builtins import cstr
    st.ghost['fun'] = (cstr(eng, st, a[0]),); return None
def f_m(eng, st, a, i):
    x = _g(st, a[0]); st.ghost['fun'] += ((mkey(x), hermitian(x)),); return None
def f_v(eng, st, a, i):
    if a[1] == 0: st.ghost['fun'] += (('v', 0),); return None
    _, d = g_vec(eng, st, a[0], a[1]); st.ghost['fun'] += (('v', d, P(a[1])),); return None
def f_d(eng, st, a, i):
    if a[0] is UNDEF: raise ToolLimit('uninitialised argument of a contract function')
    st.ghost['fun'] += (('d', a[0] if isinstance(a[0], Fl) else P(a[0])),); return None
def f_i(eng, st, a, i):
    from .exec import MemErr
    if a[0] is UNDEF: raise MemErr('uninitialised value passed on')
    st.ghost['fun'] += (('i', P(a[0])),); return None
def f_int(eng, st, a, i):
    k = st.ghost['fun']
    if k not in FUN: FUN[k] = 'F:%s:%d' % (k[0], len(FUN))
    return var(FUN[k], 'I')
FUN = {}
def f_real(eng, st, a, i):
    k = st.ghost['fun']
    if eng.mode == 'F':
        if k not in FUN: FUN[k] = 'F:%s:%d' % (k[0], len(FUN))
        return fl_var(FUN[k])
    if k not in FUN: FUN[k] = 'ar_F:%s:%d' % (k[0], len(FUN))
    return fn(FUN[k])
def f_mat(eng, st, a, i):
    k = st.ghost['fun']
    if k not in FUN: FUN[k] = letter('@F:%s:%d' % (k[0], len(FUN)), a[0], a[1], herm=all(x[1] for x in k[1:] if isinstance(x[1], bool)))
    return _h(st, of_letter(FUN[k]))
def g_vec(eng, st, p, n):
    o = eng.obj_of(st, p, 'read')
    t = st.fork(); t.assume(And(ge(D_, ZERO), lt(D_, P(n))))
    from .exec import MemErr
    if o.raw: raise MemErr('uninitialised vector')
    idx, part = decode(o, add(P(p.off), scale(D_, 8)), t)
    eng.bounds(t, o, idx, 'read')
    v = read_array(o, idx, part, t)
    if v is UNDEF: raise MemErr('uninitialised vector')
    return idx, P(v)
def g_left(eng, st, a, i):
    """nlv_mleft(m, name): A of m = L A + (words not starting with L), for the input letter L"""
    from .builtins import inp
    m = renorm(_g(st, a[0])); n = inp(eng, st, a[1])
    return _h(st, mk(LET[n]['cols'], m.cols, [(w[1:], c) for w, c in m.t.items() if w and w[0] == ('L', n, False)]))
def g_tr(eng, st, a, i): return trace_poly(_g(st, a[0]))[0]
def g_meq(eng, st, a, i):
    from .builtins import cstr
    eng.meqs.append((cstr(eng, st, a[2]), tuple(st.pc), _g(st, a[0]), _g(st, a[1]))); return None
def decide(pc, a, b):
    a, b = renorm(a), renorm(b)
    if a.rows is not b.rows or a.cols is not b.cols:
        from . import smt
        c = And(eq(a.rows, b.rows), eq(a.cols, b.cols))
        if not smt.entails(list(pc), c): return False, 'shapes differ: %s x %s / %s x %s' % (a.rows, a.cols, b.rows, b.cols), None, 'z3'
    d = msub(a, b)
    if not d.t: return True, '', None, 'matrix-rewriting'
    # coefficients may vanish only under the path condition
    from . import prove
    if all(prove.is_zero(c[0], pc) and prove.is_zero(c[1], pc) for c in d.t.values()): return True, '', None, 'matrix-rewriting+z3'
    c = refute(a, b, pc)
    det = 'code: %s   spec: %s' % (str(a)[:500], str(b)[:500])
    if c is None or c == 'no-sample': return None, det, None, 'matrix-rewriting'
    return False, det, c, 'matrix-rewriting'

def install(eng):
    eng.meqs = []
    eng.builtins["nlv_lapack_failed"] = lambda e, st, a, i: 1 if st.ghost.get("lapack_failed") else 0
    eng.builtins.update({'cblas_zgemm': zgemm, 'LAPACKE_zheevd': zheevd, 'LAPACKE_zpotrf': zpotrf, 'LAPACKE_zpotrs': zpotrs,
        'nlv_mletter': g_letter, 'nlv_mop': g_op, 'nlv_mget': g_get, 'nlv_mput': g_put, 'nlv_mmul': g_mul, 'nlv_mH': g_H, 'nlv_madd': g_add,
        'nlv_mscale': g_scale, 'nlv_mident': g_ident, 'nlv_mdiag': g_diag, 'nlv_meq': g_meq, 'nlv_mtr': g_tr, 'nlv_mleft': g_left, 'nlv_fun_begin': f_begin, 'nlv_fun_m': f_m, 'nlv_fun_v': f_v, 'nlv_fun_d': f_d, 'nlv_fun_real': f_real, 'nlv_fun_i': f_i, 'nlv_fun_int': f_int, 'nlv_fun_mat': f_mat})
