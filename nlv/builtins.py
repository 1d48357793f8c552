"""Contracts of external functions (libc, libm, libstdc++ runtime, MPI) and the ghost interface of the harnesses."""
import re
from .terms import *
from .mem import *
from . import smt, ir
from .exec import Thrown, Forked, MemErr, CallInto, real_const

def cstr(eng, st, p, n=None):
    out = []
    k = 0
    while n is None or k < n:
        b = eng.load(st, ir.I8, Ptr(p.o, p.off + k))
        if n is None and b == 0: break
        out.append(chr(b & 255) if isinstance(b, int) else '?'); k += 1
        if k > 5000: raise ToolLimit('cstr')
    return ''.join(out)

def inp(eng, st, p):
    """name of an input: an earlier run of the harness has inputs of its own"""
    return getattr(eng, 'pre', '') + cstr(eng, st, p)

def throw_std(eng, st, ti, msg=''):
    o = st.new(Cells('exception', 64)); st.mem[o].c[0] = (8, Ptr(o, 0))
    st.exc = (Ptr(o, 0), ti)
    return Thrown()

def num(eng, v):
    if eng.mode == 'R': return P(v) if not isinstance(v, Form) else ite(v, ONE, ZERO)
    return v

def real1(name, rf, pyf=None):
    def h(eng, st, a, i):
        v = a[0]
        if v is UNDEF: return UNDEF
        if eng.mode == 'R': return rf(P(v))
        if v.k == 'c' and pyf is not None:
            try: return fl_const(pyf(v.a[0]))
            except (ValueError, OverflowError): pass
        return mk_fl('uf', name, v)
    return h

def real2(name, rf):
    def h(eng, st, a, i):
        if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
        if eng.mode == 'R': return rf(P(a[0]), P(a[1]))
        return mk_fl('uf', name, a[0], a[1])
    return h

def rpow(x, y):
    if y.is_const():
        c = Fraction(y.const())
        if c.denominator == 1 and abs(c) <= 12: return power(x, int(c))
        if c.denominator == 2 and abs(c) <= 6: return mul(power(x, int(c - Fraction(1, 2))), sqrt(x))
    return fn('pow', x, y)

def fmax(eng, st, a, i):
    if eng.mode == 'R': return ite(lt(P(a[0]), P(a[1])), P(a[1]), P(a[0]))
    return mk_fl('uf', 'fmax', *a)
def fmin(eng, st, a, i):
    if eng.mode == 'R': return ite(lt(P(a[1]), P(a[0])), P(a[1]), P(a[0]))
    return mk_fl('uf', 'fmin', *a)

def fabs_h(eng, st, a, i):
    v = a[0]
    if v is UNDEF: return UNDEF
    if eng.mode == 'R': return fabs(P(v))
    if v.k == 'c': return fl_const(abs(v.a[0]))
    if v.k == 'uf' and v.a[0] in ('fneg', 'fabs'): v = v.a[1]
    return mk_fl('uf', 'fabs', v)

def op_new(eng, st, a, i):
    n = a[0]
    if isinstance(n, Poly) and n.is_const(): n = int(n.const())
    if isinstance(n, int):
        if n < 0: return throw_std(eng, st, '_ZTISt9bad_alloc')
        return Ptr(st.new(Cells('new%d' % n, n)), 0)
    if n is UNDEF: raise MemErr('allocation of uninitialised size')
    ar = Arr('new', 1, (n,), (ONE,), Bottom('undef')); ar.raw = True
    return Ptr(st.new(ar), 0)
def op_delete(eng, st, a, i):
    p = a[0]
    if isinstance(p, Ptr) and p.o != 0:
        o = st.mem.get(p.o)
        if o is None: raise ToolLimit('delete of unknown')
        if o.freed: raise MemErr('double free')
        if p.off != 0: raise MemErr('free of an interior pointer')
        o = st.wobj(p.o); o.freed = True
    return None

def memset(eng, st, a, i):
    p, v, n = a[0], a[1], a[2]
    if isinstance(n, int):
        if n == 0: return p
        o = eng.obj_of(st, p, 'write')
        if isinstance(o, Cells):
            if o.size is not None and p.off + n > o.size: raise MemErr('memset past the end of %s' % o.name)
            o = st.wobj(p.o)
            if v == 0 and p.off % 8 == 0:
                k = 0
                while k + 8 <= n: eng.cells_put(o, p.off + k, 8, 0); k += 8
                while k < n: eng.cells_put(o, p.off + k, 1, 0); k += 1
            else:
                for k in range(n): eng.cells_put(o, p.off + k, 1, v)
            return p
    o = eng.obj_of(st, p, 'write')
    if isinstance(o, Arr) and v == 0:
        if o.raw:
            n_ = P(n)
            k = fresh('l', 'I')
            o = eng._type_raw(st, p.o, 8, p.off)
        idx, part = decode(o, p.off, st)
        if len(o.shape) == 1:
            cnt = scale(P(n), Fraction(1, o.esz)); k = fresh('l', 'I')
            (m, c), = k.m.items()
            o = st.wobj(p.o)
            for pt in ((0, 8) if o.esz == 16 else (0,)):
                o.layers = o.layers + (Layer(((m[0][0], cnt),), (add(idx[0], k),), pt, TRUE, ZERO),)
            return p
    raise ToolLimit('memset')
def memcpy_h(eng, st, a, i):
    eng.memcpy(st, a[0], a[1], a[2]); return a[0]
def memcmp_h(eng, st, a, i):
    n = a[2]
    if not isinstance(n, int): raise ToolLimit('memcmp')
    for k in range(n):
        x = eng.load(st, ir.I8, Ptr(a[0].o, a[0].off + k)); y = eng.load(st, ir.I8, Ptr(a[1].o, a[1].off + k))
        if not isinstance(x, int) or not isinstance(y, int): raise ToolLimit('memcmp symbolic')
        if x != y: return -1 if (x & 255) < (y & 255) else 1
    return 0
def getenv_h(eng, st, a, i):
    v = getattr(eng, 'env', {}).get(cstr(eng, st, a[0]))
    if v is None: return NULL
    o = st.new(Cells('environment', len(v) + 1))
    for k, ch in enumerate(v + '\0'): st.mem[o].c[k] = (1, ord(ch))
    return Ptr(o, 0)
def strcmp_h(eng, st, a, i):
    x, y = cstr(eng, st, a[0]), cstr(eng, st, a[1]); return (x > y) - (x < y)
def strlen_h(eng, st, a, i): return len(cstr(eng, st, a[0]))

# ---- exceptions
def cxa_alloc(eng, st, a, i): return Ptr(st.new(Cells('exception', max(a[0], 16))), 0)
def cxa_throw(eng, st, a, i):
    st.exc = (a[0], eng.ti_name(a[1])); return Thrown()
def cxa_begin(eng, st, a, i):
    st.caught = st.caught + (st.exc,); return a[0]
def cxa_end(eng, st, a, i):
    st.caught = st.caught[:-1]; return None
def cxa_rethrow(eng, st, a, i):
    st.exc = st.caught[-1]; return Thrown()
def typeid_for(eng, st, a, i):
    return eng.typeid(None if a[0] == NULL else eng.ti_name(a[0]))
def terminate(eng, st, a, i):
    st.done = ('abort', 'terminate/abort'); return None
def exc_ctor(ti):
    def h(eng, st, a, i):
        return None
    return h

def guard_acquire(eng, st, a, i):
    v = eng.load(st, ir.I8, a[0])
    return 0 if (isinstance(v, int) and v != 0) else 1
def guard_release(eng, st, a, i):
    eng.store(st, ir.I8, 1, a[0]); return None

def noop(eng, st, a, i): return None
def ret0(eng, st, a, i): return 0
def retarg0(eng, st, a, i): return a[0]
def zero_result(eng, st, a, i):
    t = i.ty
    if t is None or t.k == 'void': return None
    return eng.zero_of(t)

# ---- ghosts
def g_real(eng, st, a, i):
    n = inp(eng, st, a[0])
    return var(n) if eng.mode == 'R' else fl_var(n)
def g_int(eng, st, a, i): return var(cstr(eng, st, a[0]), 'I')
def g_bool(eng, st, a, i): return bvar(cstr(eng, st, a[0]))
def asform(c):
    if isinstance(c, Form): return c
    if isinstance(c, (bool, int)): return B(bool(c))
    if isinstance(c, Poly): return ne(c, ZERO)
    raise ToolLimit('condition %r' % (c,))
def g_assume(eng, st, a, i):
    f = asform(a[0])
    if f is FALSE or not st.feasible(f): st.done = ('dead', None); return None
    st.assume(f); return None
def g_assert(eng, st, a, i):
    name = cstr(eng, st, a[1])
    c = a[0]
    if c is UNDEF: eng.obligations.append((name, tuple(st.pc), FALSE, 'uninitialised', st.events)); return None
    eng.obligations.append((name, tuple(st.pc), asform(c), None, st.events)); return None
def g_eq(eng, st, a, i):
    eng.eqs.append((cstr(eng, st, a[2]), tuple(st.pc), a[0], a[1], st)); return None
def g_arsum(eng, st, a, i): return reduce_val(eng, st, 'sum', 'ompi_mpi_comm_world', a[0])
def g_throws(eng, st, a, i):
    st.ghost['throws_ok'] = True; return None
def g_alloc(eng, st, a, i):
    esz, rank, n0, n1, init = a
    shape = (n0,) if rank == 1 else (n0, n1)
    tot = esz
    if all(isinstance(n, int) for n in shape):
        for n in shape: tot *= n
        o = Cells('view', tot, 'zero' if init else 'undef')
        return Ptr(st.new(o), 0)
    for n in shape:
        if n is UNDEF: raise MemErr('view with an uninitialised extent')
    shape = tuple(P(n) for n in shape)
    ar = Arr('view', esz, shape, row_layout(shape, esz), Bottom('zero' if init else 'undef'))
    return Ptr(st.new(ar), 0)
def g_host(eng, st, a, i):
    """nlv_host(name, esz, rank, n0, n1, s0, s1): memory owned by the host code, described by extents and strides"""
    n = inp(eng, st, a[0]); esz, rank = a[1], a[2]
    ar = Arr(n, esz, tuple(P(x) for x in a[3:3 + rank]), tuple(scale(P(x), esz) for x in a[5:5 + rank]), Bottom('atom', n), kind='host')
    ar.gen = True
    return Ptr(st.new(ar), 0)
def g_input(eng, st, a, i):
    """nlv_input(ptr, name): contents become the named input array"""
    p = a[0]; n = inp(eng, st, a[1])
    o = st.wobj(p.o); o.name = n
    if isinstance(o, Cells): raise ToolLimit('input array of concrete shape')
    o.bottom = Bottom('atom', n) if o.esz != 4 else Bottom('iatom', n); o.layers = ()
    return None
def g_out_d(eng, st, a, i):
    st.ghost['out:' + cstr(eng, st, a[0])] = a[1]; return None
def g_out_view(eng, st, a, i):
    st.ghost['out:' + cstr(eng, st, a[0])] = ('view',) + tuple(a[1:]); return None
def g_event(eng, st, a, i):
    st.events = st.events + ((cstr(eng, st, a[0]),) + tuple(a[1:]),); return None
def g_limit(eng, st, a, i): raise ToolLimit('contract does not cover: ' + cstr(eng, st, a[0]))
def g_uf(eng, st, a, i):
    """nlv_uf(name, x): uninterpreted function of a double"""
    n = cstr(eng, st, a[0])
    if eng.mode == 'R': return fn(n, *[P(x) for x in a[1:]])
    return mk_fl('uf', n, *a[1:])
def g_fresh(eng, st, a, i):
    n = cstr(eng, st, a[0])
    return fresh(n) if eng.mode == 'R' else fl_fresh(n)
def g_fresh_int(eng, st, a, i): return fresh(cstr(eng, st, a[0]), 'I')
def g_fresh_bool(eng, st, a, i): return fresh_bool(cstr(eng, st, a[0]))
def g_cover(eng, st, a, i):
    eng.covers.setdefault(cstr(eng, st, a[0]), []).append(tuple(st.pc)); return None

# ---- MPI (contracts): comm size/rank symbolic or configured; collectives as uninterpreted reductions
class MPI:
    pass

def mpi_comm_size(eng, st, a, i):
    t = comm_tag(eng, st, a[0])
    if t == 'ompi_mpi_comm_null': raise MemErr('MPI_Comm_size of MPI_COMM_NULL')
    eng.store(st, ir.I32, 1 if t == 'ompi_mpi_comm_self' else eng.cfg.get('comm_size', 1), a[1]); return 0
def mpi_comm_rank(eng, st, a, i):
    t = comm_tag(eng, st, a[0])
    if t == 'ompi_mpi_comm_null': raise MemErr('MPI_Comm_rank of MPI_COMM_NULL')
    eng.store(st, ir.I32, 0 if t == 'ompi_mpi_comm_self' else eng.cfg.get('comm_rank', 0), a[1]); return 0

def elem_type(eng, st, dt):
    """name of an MPI datatype handle"""
    for n, i in eng.gobj.items():
        if isinstance(dt, Ptr) and dt.o == i: return n
    if isinstance(dt, Ptr):
        o = st.mem.get(dt.o)
        if o is not None and o.name.startswith('mpi_dt'): return ('derived', dt.o)
    return None
DT = {'ompi_mpi_double': 8, 'ompi_mpi_int': 4, 'ompi_mpi_c_double_complex': 16, 'ompi_mpi_cxx_dblcplex': 16, 'ompi_mpi_cxx_double_complex': 16, 'ompi_mpi_unsigned_long': 8, 'ompi_mpi_long': 8, 'ompi_mpi_char': 1, 'ompi_mpi_cxx_bool': 1}
def opname(eng, st, h):
    for n, i in eng.gobj.items():
        if isinstance(h, Ptr) and h.o == i: return {'ompi_mpi_op_sum': 'sum', 'ompi_mpi_op_max': 'max', 'ompi_mpi_op_min': 'min'}.get(n, n)
    return '?'

def comm_tag(eng, st, c):
    for n, i in eng.gobj.items():
        if isinstance(c, Ptr) and c.o == i: return n
    if isinstance(c, Ptr):
        o = st.mem.get(c.o)
        if o is not None: return o.name
    return str(c)

def mpi_allreduce(eng, st, a, i):
    sbuf, rbuf, cnt, dt, op, comm = a
    dn = elem_type(eng, st, dt)
    if dn not in DT: raise ToolLimit('allreduce of %s' % (dn,))
    if not isinstance(cnt, int): raise ToolLimit('allreduce count')
    o = opname(eng, st, op)
    inplace = isinstance(sbuf, int) or (isinstance(sbuf, Ptr) and sbuf.o == 0)
    if inplace: sbuf = rbuf
    sz = DT[dn]; tag = comm_tag(eng, st, comm)
    if tag == 'ompi_mpi_comm_null': raise MemErr('collective on MPI_COMM_NULL')
    st.ghost['colls'] = st.ghost.get('colls', ()) + (('allreduce', o, tag),)
    et = ir.DBL if sz >= 8 else ir.I32
    per = 2 if sz == 16 else 1
    for k in range(cnt * per):
        off = k * (8 if sz >= 8 else sz)
        if sz == 8 and dn in ('ompi_mpi_unsigned_long', 'ompi_mpi_long'): et = ir.I64
        if sz == 1: et = ir.I8
        v = eng.load(st, et, Ptr(sbuf.o, eng._addoff(sbuf.off, off, 1)))
        eng.store(st, et, reduce_val(eng, st, o, tag, v), Ptr(rbuf.o, eng._addoff(rbuf.off, off, 1)))
    return 0

def reduce_val(eng, st, o, tag, v):
    if v is UNDEF: raise MemErr('reduction of an uninitialised value')
    if tag == 'ompi_mpi_comm_self': return v
    if eng.mode == 'R':
        srt = 'I' if isinstance(v, int) else 'R'
        if isinstance(v, Form): v = ite(v, ONE, ZERO)
        v = P(v)
        if o == 'sum':
            # reduction is additive: AR(sum c_i m_i) = sum c_i AR(m_i) with rational c_i
            r = ZERO
            for mono, c in v.m.items():
                r = add(r, scale(ar_mono('ar_sum', tag, mono), c))
            return r
        return fn('ar_' + o, comm_var(tag), v, sort=srt)
    return mk_fl('uf', 'ar_' + o + tag, v)
def comm_var(tag): return var('comm:' + tag, 'I')
def ar_mono(nm, tag, mono):
    # quantities that are the same on every rank (already reduced) factor out of a sum
    glob = []; loc = []
    for a, e in mono: (glob if is_global(a) else loc).append((a, e))
    g = mk_poly({tuple(glob): 1}); l = mk_poly({tuple(loc): 1})
    return mul(g, fn(nm, comm_var(tag) if isinstance(tag, str) else tag, l))
def is_global(a):
    if a.kind == 'fn' and a.data[0].startswith('ar_'): return True
    if a.kind == 'var': return a.data[0].startswith('G_') or a.data[0] == 'pi'
    if a.kind == 'fn' and all(isinstance(x, Poly) for x in a.data[1:]) and not a.data[0].startswith('@'):
        return a.data[0] in ('exp', 'sqrt', 'inv', 'log', 'erf') and all(is_global(b) for x in a.data[1:] for mo in x.m for b, _ in mo)
    return False

# ---- datatypes and gathers.  Ranks are run one after the other; a collective whose other contributions are not
# known yet suspends the run (final kind 'suspend'), the caller reruns all ranks with the matched contributions.
BASIC = {'ompi_mpi_double': (8, 8), 'ompi_mpi_int': (4, 4), 'ompi_mpi_c_double_complex': (16, 8), 'ompi_mpi_unsigned_long': (8, 8), 'ompi_mpi_long': (8, 8), 'ompi_mpi_char': (1, 1), 'ompi_mpi_cxx_bool': (1, 1)}
def dt_layout(eng, st, dt):
    """(extent, [(off, size)], align)"""
    n = elem_type(eng, st, dt)
    if isinstance(n, tuple):
        r = st.ghost.get(('dt', n[1]))
        if r is None: raise MemErr('use of an undefined MPI datatype')
        if r[3] == 0: raise MemErr('communication with an uncommitted or freed MPI datatype')
        return r[:3]
    if n not in BASIC: raise ToolLimit('datatype %s' % (n,))
    z, al = BASIC[n]
    return (z, ((0, z),) if z != 16 else ((0, 8), (8, 8)), al)
def mpi_type_struct(eng, st, a, i):
    cnt = a[0]
    if not isinstance(cnt, int): raise ToolLimit('datatype count')
    parts = []; al = 1; ub = 0
    for k in range(cnt):
        bl = eng.load(st, ir.I32, Ptr(a[1].o, eng._addoff(a[1].off, 4 * k, 1))); d = eng.load(st, ir.I64, Ptr(a[2].o, eng._addoff(a[2].off, 8 * k, 1)))
        t = eng.load(st, ir.PTR, Ptr(a[3].o, eng._addoff(a[3].off, 8 * k, 1)))
        n = elem_type(eng, st, t)
        ext, ps, al2 = st.ghost[('dt', n[1])][:3] if isinstance(n, tuple) else dt_layout(eng, st, t)
        for j in range(bl):
            for o, z in ps: parts.append((d + j * ext + o, z))
            ub = max(ub, d + (j + 1) * ext)
        al = max(al, al2)
    ext = (ub + al - 1) // al * al
    o = st.new(Cells('mpi_dt', 8)); st.ghost[('dt', o)] = (ext, tuple(parts), al, 0)
    eng.store(st, ir.PTR, Ptr(o, 0), a[4]); return 0
def mpi_type_contig(eng, st, a, i):
    n = elem_type(eng, st, a[1])
    ext, ps, al = st.ghost[('dt', n[1])][:3] if isinstance(n, tuple) else dt_layout(eng, st, a[1])
    if not isinstance(a[0], int): raise ToolLimit('datatype count')
    o = st.new(Cells('mpi_dt', 8)); st.ghost[('dt', o)] = (ext * a[0], tuple((k * ext + x, z) for k in range(a[0]) for x, z in ps), al, 0)
    eng.store(st, ir.PTR, Ptr(o, 0), a[2]); return 0
def mpi_type_commit(eng, st, a, i):
    t = eng.load(st, ir.PTR, a[0]); k = ('dt', t.o)
    if k not in st.ghost: raise MemErr('commit of an undefined datatype')
    st.ghost[k] = st.ghost[k][:3] + (1,); return 0
def mpi_type_free(eng, st, a, i):
    t = eng.load(st, ir.PTR, a[0]); k = ('dt', t.o)
    if k not in st.ghost: raise MemErr('free of an undefined datatype')
    st.ghost[k] = st.ghost[k][:3] + (0,); return 0

def take(eng, st, buf, ext, parts, disp, cnt):
    """snapshot of cnt elements at element displacement disp"""
    if isinstance(cnt, int) and cnt == 0: return ('none', 0)
    o = eng.obj_of(st, buf, 'read')
    if isinstance(o, Cells):
        if not isinstance(cnt, int) or not isinstance(disp, int): raise ToolLimit('gather of a symbolic number of cells')
        out = []
        for k in range(cnt):
            for po, pz in parts:
                t = ir.I8 if pz == 1 else ir.I32 if pz == 4 else ir.DBL
                off = eng._addoff(buf.off, (disp + k) * ext + po, 1)
                c = o.c.get(off)
                v = c[1] if c is not None and c[0] == pz else eng.load(st, t if pz != 8 else ir.I64, Ptr(buf.o, off))
                out.append((k * ext + po, pz, v))
        return ('cells', cnt, out)
    if o.raw: o = eng._type_raw(st, buf.o, ext, buf.off)
    if o.esz != ext or len(o.shape) != 1: raise ToolLimit('gather element size')
    idx, part = decode(o, buf.off, st)
    return ('arr', cnt, o.copy(), add(idx[0], P(disp)))
def give(eng, st, buf, ext, disp, cnt, con, who):
    if con[0] == 'none' and isinstance(cnt, int) and cnt == 0: return
    if not (same_count(st, cnt, con[1])): raise MemErr('allgather: count %s for rank %d does not match what it sends (%s)' % (cnt, who, con[1]))
    o = eng.obj_of(st, buf, 'write')
    if con[0] == 'none': return
    if con[0] == 'cells':
        for off, z, v in con[2]:
            t = ir.I8 if z == 1 else ir.I32 if z == 4 else ir.I64
            eng.store(st, t, v, Ptr(buf.o, eng._addoff(buf.off, disp * ext + off, 1)))
        return
    if isinstance(o, Cells): raise ToolLimit('gather into cells')
    if o.raw: o = eng._type_raw(st, buf.o, ext, buf.off)
    idx, part = decode(o, buf.off, st)
    k = fresh('g', 'I'); ka = next(iter(free_vars(k))); cnt = P(cnt)
    t = st.fork(); t.assume(And(ge(k, ZERO), lt(k, cnt)))
    j = add(add(idx[0], P(disp)), k)
    eng.bounds(t, o, (j,), 'write')
    o = st.wobj(buf.o)
    for pt in ((0, 8) if ext == 16 else (0,)):
        v = read_array(con[2], (add(con[3], k),), pt, t)
        o.layers = o.layers + (Layer(((ka, cnt),), (j,), pt, TRUE, v),)
def same_count(st, a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return st.entails(eq(P(a), P(b)))
def gather(eng, st, sig, buf, ext, parts, disps, cnts, tag):
    P_ = eng.cfg.get('comm_size', 1) if tag != 'ompi_mpi_comm_self' else 1; r = eng.cfg.get('comm_rank', 0)
    st.ghost['colls'] = st.ghost.get('colls', ()) + ((sig, tag),)
    if tag == 'ompi_mpi_comm_null': raise MemErr('collective on MPI_COMM_NULL')
    if P_ == 1: return 0
    n = st.ghost.get('ngather', 0); known = eng.cfg.get('gathers', [])
    con = take(eng, st, buf, ext, parts, disps[r], cnts[r])
    if n >= len(known):
        st.done = ('suspend', (sig, ext, con)); return None
    st.ghost['ngather'] = n + 1
    for q in range(P_):
        if q == r: continue
        s2, e2, c2 = known[n][q]
        if s2 != sig or e2 != ext: raise MemErr('ranks disagree on the collective: %s / %s' % (sig, s2))
        give(eng, st, buf, ext, disps[q], cnts[q], c2, q)
    return 0
def mpi_allgather(eng, st, a, i):
    sbuf, sc, sdt, rbuf, rc, rdt, comm = a
    if not (isinstance(sbuf, int) or isinstance(sbuf, Ptr) and sbuf.o == 0): raise ToolLimit('allgather not in place')
    ext, parts, al = dt_layout(eng, st, rdt)
    if not isinstance(rc, int): raise ToolLimit('allgather count')
    P_ = eng.cfg.get('comm_size', 1)
    return gather(eng, st, 'allgather', rbuf, ext, parts, [q * rc for q in range(P_)], [rc] * P_, comm_tag(eng, st, comm))
def mpi_allgatherv(eng, st, a, i):
    sbuf, sc, sdt, rbuf, rcs, rds, rdt, comm = a
    if not (isinstance(sbuf, int) or isinstance(sbuf, Ptr) and sbuf.o == 0): raise ToolLimit('allgatherv not in place')
    ext, parts, al = dt_layout(eng, st, rdt)
    P_ = eng.cfg.get('comm_size', 1)
    ld = lambda p, q: eng.load(st, ir.I32, Ptr(p.o, eng._addoff(p.off, 4 * q, 1)))
    return gather(eng, st, 'allgatherv', rbuf, ext, parts, [ld(rds, q) for q in range(P_)], [ld(rcs, q) for q in range(P_)], comm_tag(eng, st, comm))
def mpi_comm_compare(eng, st, a, i):
    x, y = comm_tag(eng, st, a[0]), comm_tag(eng, st, a[1])
    if 'ompi_mpi_comm_null' in (x, y): raise MemErr('MPI_Comm_compare of MPI_COMM_NULL')
    eng.store(st, ir.I32, 0 if x == y else 3, a[2]); return 0
def mpi_abort(eng, st, a, i):
    st.done = ('abort', 'MPI_Abort'); return None

def mpi_barrier(eng, st, a, i):
    return 0
def mpi_initialized(eng, st, a, i):
    eng.store(st, ir.I32, 1, a[0]); return 0

def string_fn(eng, st, a, i):
    if i.ty is not None and i.ty.k == 'ptr': return a[0]
    if i.ty is None or i.ty.k == 'void': return None
    raise ToolLimit('string function')
def install(eng):
    eng.ext_overrides.append((re.compile(r'basic_string<char.*::_M_create\('), string_create))
    eng.ext_overrides.append((re.compile(r'basic_string<char.*::(_M_replace|_M_append|_M_assign|_M_mutate|_M_replace_aux|append|assign|_M_replace_cold|reserve|operator=|operator\+=)\('), string_fn))
    # libstdc++ copies of trivially copyable ranges are a memmove of last-first bytes
    eng.overrides.append((re.compile(r'std::__copy_move<(true|false), true, std::random_access_iterator_tag>::__copy_m<'), copy_m))
    from . import mat
    mat.install(eng)
    b = eng.builtins
    eng.cfg = {}; eng.covers = {}; eng.eqs = []
    b.update({
        'exp': real1('exp', exp), 'log': real1('log', log), 'sqrt': real1('sqrt', sqrt), 'erf': real1('erf', erf), 'erfc': real1('erfc', erfc),
        'fabs': fabs_h, 'llvm.fabs': fabs_h, 'llvm.sqrt': real1('sqrt', sqrt), 'llvm.exp': real1('exp', exp), 'llvm.log': real1('log', log), 'pow': real2('pow', rpow), 'llvm.pow': real2('pow', rpow),
        'llvm.maxnum': fmax, 'llvm.minnum': fmin, 'fmax': fmax, 'fmin': fmin,
        'cosh': real1('cosh', lambda x: scale(add(exp(x), exp(scale(x, -1))), Fraction(1, 2))),
        'sinh': real1('sinh', lambda x: scale(sub(exp(x), exp(scale(x, -1))), Fraction(1, 2))),
        'tanh': real1('tanh', lambda x: sub(ONE, div(const(2), add(exp(scale(x, 2)), ONE)))),
        'log1p': real1('log1p', lambda x: log(add(x, ONE))), 'expm1': real1('expm1', lambda x: sub(exp(x), ONE)),
        'hypot': real2('hypot', lambda x, y: sqrt(add(mul(x, x), mul(y, y)))),
        'cabs': real2('cabs', lambda x, y: sqrt(add(mul(x, x), mul(y, y)))),
        'llvm.fmuladd': lambda eng, st, a, i: eng.fbin('fadd', eng.fbin('fmul', a[0], a[1]), a[2]),
        'fma': lambda eng, st, a, i: eng.fbin('fadd', eng.fbin('fmul', a[0], a[1]), a[2]),
        'llvm.is': lambda eng, st, a, i: isfpclass(eng, st, a, i),
        'llvm.memcpy': memcpy_h, 'llvm.memmove': memcpy_h, 'memcpy': memcpy_h, 'memmove': memcpy_h, 'llvm.memset': memset, 'memset': memset, 'memcmp': memcmp_h, 'bcmp': memcmp_h, 'strlen': strlen_h,
        '_Znwm': op_new, '_Znam': op_new, 'malloc': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete, '_ZdlPvm': op_delete, '_ZdaPvm': op_delete, 'free': op_delete,
        '_ZnwmSt11align_val_t': op_new, '_ZdlPvSt11align_val_t': op_delete, '_ZdlPvmSt11align_val_t': op_delete,
        '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': noop, '__cxa_throw': cxa_throw, '__cxa_begin_catch': cxa_begin, '__cxa_end_catch': cxa_end,
        '__cxa_rethrow': cxa_rethrow, 'llvm.eh.typeid': typeid_for, 'llvm.eh.typeid.for': typeid_for, '_ZSt9terminatev': terminate, 'abort': terminate, '__clang_call_terminate': terminate, '__cxa_pure_virtual': terminate, '__assert_fail': terminate,
        '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release, '__cxa_guard_abort': noop, '__cxa_atexit': ret0,
        'llvm.expect': retarg0, 'llvm.stacksave': lambda e, s, a, i: NULL, 'llvm.stackrestore': noop, 'llvm.trap': terminate, 'llvm.launder': retarg0, 'llvm.invariant': noop, 'llvm.va_start': noop, 'llvm.va_end': noop,
        'nlv_real': g_real, 'nlv_int': g_int, 'nlv_bool': g_bool, 'nlv_assume': g_assume, 'nlv_assert': g_assert, 'nlv_alloc': g_alloc, 'nlv_host': g_host, 'nlv_eq': g_eq, 'nlv_ar_sum': g_arsum, 'nlv_input': g_input, 'nlv_out_d': g_out_d, 'nlv_out_i': g_out_d, 'nlv_out_p': g_out_d,
        'nlv_out_view': g_out_view, 'nlv_event': g_event, 'nlv_uf': g_uf, 'nlv_uf2': g_uf, 'nlv_fresh': g_fresh, 'nlv_fresh_int': g_fresh_int, 'nlv_fresh_bool': g_fresh_bool, 'nlv_cover': g_cover, 'nlv_limit': g_limit, 'remove': lambda e, st, a, i: 0,
        'MPI_Comm_size': mpi_comm_size, 'MPI_Comm_rank': mpi_comm_rank, 'MPI_Allreduce': mpi_allreduce, 'MPI_Barrier': mpi_barrier, 'MPI_Allgather': mpi_allgather, 'MPI_Allgatherv': mpi_allgatherv, 'MPI_Type_create_struct': mpi_type_struct, 'MPI_Type_contiguous': mpi_type_contig, 'MPI_Type_commit': mpi_type_commit, 'MPI_Type_free': mpi_type_free, 'MPI_Comm_compare': mpi_comm_compare, 'MPI_Abort': mpi_abort, 'MPI_Initialized': mpi_initialized, 'MPI_Finalized': lambda e, s, a, i: (e.store(s, ir.I32, 0, a[0]), 0)[1],
        'getenv': getenv_h, 'strcmp': strcmp_h, '_ZNSt6chrono3_V212steady_clock3nowEv': lambda e, s, a, i: 0, '_ZNSt6chrono3_V212system_clock3nowEv': lambda e, s, a, i: 0, '_ZNSt6chrono3_V212high_resolution_clock3nowEv': lambda e, s, a, i: 0,
        'pthread_mutex_lock': ret0, 'pthread_mutex_unlock': ret0, '__gthread_active_p': ret0,
        'puts': ret0, 'printf': ret0, 'fflush': ret0, 'usleep': ret0, 'backtrace': ret0, 'fprintf': ret0,
    })
    for f, ti in (('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                  ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
                  ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')):
        b[f] = (lambda ti: lambda eng, st, a, i: throw_std(eng, st, ti))(ti)
    for rx in (r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error|bad_alloc|exception|bad_cast)::(~?\w+)\(',):
        eng.overrides.append((re.compile(rx), noop))
    eng.overrides.append((re.compile(r'^std::(basic_ostream|basic_ios|ios_base|basic_istream|locale|basic_filebuf|basic_streambuf|__cxx11::basic_stringbuf|__cxx11::basic_ostringstream|__cxx11::basic_stringstream|basic_ofstream|basic_ifstream|basic_fstream|ctype|ostream)\b.*::|^(std::basic_ostream<.*>& )?std::(operator<<|endl|flush|__ostream_insert)\b|^std::basic_ostream<.*>& std::(operator<<|endl|flush|__ostream_insert)'), stream_noop))
    eng.overrides.append((re.compile(r'^std::__cxx11::to_string\(|^std::to_string\('), sret_empty_string))
    eng.overrides.append((re.compile(r'stringstream.*::str\(\) const|stringbuf.*::str\(\) const'), sret_empty_string))

def copy_m(eng, st, a, i):
    f, l, r = a
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.o == l.o): raise ToolLimit('copy of a range over two objects')
    n = sub(P(l.off), P(f.off)); n = int(n.const()) if n.is_const() else n
    if not (isinstance(n, int) and n == 0): memcpy_h(eng, st, [r, f, n, False], i)
    return Ptr(r.o, eng._addoff(r.off, n, 1))
def string_create(eng, st, a, i):
    n = eng.load(st, ir.I64, a[1])
    return Ptr(st.new(Cells('string', (n if isinstance(n, int) else 4096) + 1)), 0)
def sret_empty_string(eng, st, a, i):
    p = a[0]
    eng.store(st, ir.PTR, Ptr(p.o, eng._addoff(p.off, 16, 1)), p); eng.store(st, ir.I64, 0, Ptr(p.o, eng._addoff(p.off, 8, 1)))
    eng.store(st, ir.I8, 0, Ptr(p.o, eng._addoff(p.off, 16, 1)))
    return None

def stream_noop(eng, st, a, i):
    if i.ty is None or i.ty.k == 'void':
        # std::stringstream::str() with sret
        return None
    if i.ty.k == 'ptr': return a[0] if a else NULL
    return eng.zero_of(i.ty)

def isfpclass(eng, st, a, i):
    mask = a[1]; v = a[0]
    if eng.mode == 'R': return bool(mask & 0x1f8 and False) if mask == 3 else (False if mask & 3 else fresh_bool('fpclass'))
    if mask == 3: return mk_form('fcmp', 'uno', v, v)
    return fresh_bool('fpclass')
