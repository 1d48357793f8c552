"""Symbolic executor / VC generator over LLVM IR of the real sources."""
import re, sys, math
from .terms import *
from .mem import *
from . import smt, ir
from .ir import Inst, loops_of, succs

MASK = {1: 1, 8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}
def wrap(v, bits):
    if bits == 1: return v & 1
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

# doubles that stand for exact reals in R mode
_KNOWN = {}
def _known():
    if _KNOWN: return _KNOWN
    s2 = sqrt(const(2)); sp = sqrt(PI)
    for v, t in [(math.sqrt(2), s2), (1 / math.sqrt(2), inv(s2)), (math.pi, PI), (1 / math.pi, inv(PI)), (math.sqrt(math.pi), sp),
                 (1 / math.sqrt(math.pi), inv(sp)), (2 / math.sqrt(math.pi), scale(inv(sp), 2)), (math.exp(0.5), exp(const(Fraction(1, 2)))),
                 (math.exp(-0.5), exp(const(Fraction(-1, 2)))), (math.sqrt(2 * math.pi), mul(s2, sp)), (1 / math.sqrt(2 * math.pi), inv(mul(s2, sp))),
                 (math.e, exp(ONE)), (math.pi / 2, scale(PI, Fraction(1, 2))), (math.sqrt(2 / math.pi), div(s2, sp)), (math.sqrt(0.5 * math.e), None)]:
        if t is not None:
            for w in (v, math.nextafter(v, 9), math.nextafter(v, -9)): _KNOWN.setdefault(w, t)
    return _KNOWN
def real_const(x):
    k = _known().get(x)
    if k is not None: return k
    k = _known().get(-x)
    if k is not None: return scale(k, -1)
    # decimal literals denote the decimal number
    if x != x or x in (float('inf'), float('-inf')): return fn('nan') if x != x else (fn('inf') if x > 0 else scale(fn('inf'), -1))
    f = Fraction(repr(x))
    return const(f)

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'dst', 'cont', 'loops', 'iters', 'allocas')
    # cont: None (call) or (normal,unwind)
    def copy(self):
        f = Frame(); f.fn = self.fn; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.regs = dict(self.regs); f.dst = self.dst; f.cont = self.cont; f.loops = dict(self.loops); f.iters = dict(self.iters); f.allocas = list(self.allocas)
        return f

class State:
    def __init__(self, eng):
        self.eng = eng; self.frames = []; self.mem = {}; self.own = set(); self.pc = []; self.pcset = set()
        self.ghost = {}; self.events = (); self.exc = None; self.stops = (); self.done = None; self.rlog = None; self.caught = ()
        self.steps = 0
    def fork(self):
        s = State.__new__(State)
        s.eng = self.eng; s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem)
        self.own = set(); s.own = set()
        s.pc = list(self.pc); s.pcset = set(self.pcset); s.ghost = dict(self.ghost); s.events = self.events
        s.exc = self.exc; s.stops = self.stops; s.done = self.done; s.rlog = None if self.rlog is None else list(self.rlog); s.caught = self.caught
        s.steps = self.steps
        return s
    def assume(self, f):
        f = B(f)
        if f is TRUE or f in self.pcset: return
        if f.k == 'and':
            for x in f.a: self.assume(x)
            return
        self.pc.append(f); self.pcset.add(f)
    def entails(self, f):
        f = B(f)
        if f is TRUE or f in self.pcset: return True
        if f is FALSE: return False
        return smt.entails(self.pc, f)
    def feasible(self, f):
        f = B(f)
        if f is FALSE: return False
        if f is TRUE: return True
        if f in self.pcset: return True
        if Not(f) in self.pcset: return False
        return smt.feasible(self.pc, f)
    def wobj(self, o):
        x = self.mem[o]
        if o not in self.own:
            x = x.copy(); self.mem[o] = x; self.own.add(o)
        return x
    def new(self, obj):
        i = self.eng.newid(); self.mem[i] = obj; self.own.add(i); return i
    @property
    def top(self): return self.frames[-1]

class Final:
    def __init__(self, st, kind, val=None): self.st = st; self.kind = kind; self.val = val

class Engine:
    def __init__(self, mod, mode='R', verbose=False):
        self.m = mod; self.mode = mode; self.verbose = verbose
        self._id = 1
        self.gobj = {}            # global name -> obj id
        self.gl0 = {}             # initial global objects
        self.typeids = {}
        self.builtins = {}
        self.ext_overrides = []   # for functions without a body
        self.overrides = []       # (regex on demangled, fn)
        self.ov_cache = {}
        self.obligations = []     # (name, kind, st/pc, formula) recorded by asserts
        self.max_steps = 4_000_000
        self.max_unroll = 3000
        self.prune = None; self.cut_ok = False; self.induct = None; self.abstracted = False
        self.fn_seen = set()
        self.loops_summarised = 0; self.loops_cut = 0
        self.stepcount = 0
        self.deadline = None; self.lenient = 0
        self.int_names = {}
        from . import builtins as bi
        bi.install(self)
        self._init_globals()

    def newid(self):
        self._id += 1; return self._id

    # ---------------------------------------------------------------- globals
    def _init_globals(self):
        for n in self.m.globals:
            if n.startswith('llvm.'): continue
            self.gobj[n] = self.newid()
        self._ginit = {}
    def global_obj(self, st, name):
        """object id of a global, materialising its contents"""
        i = self.gobj.get(name)
        if i is None: raise ToolLimit('unknown global ' + name)
        if i not in st.mem:
            o = self.gl0.get(i)
            if o is None:
                r = ir.parse_global(self.m, self.m.globals[name])
                if r[0] == 'alias':
                    raise ToolLimit('alias data ' + name)
                if r[0] == 'ext':
                    o = Cells('@' + name, None, 'undef', 'global')
                    if name == '__libc_single_threaded': o.c[0] = (1, 1)
                else:
                    o = Cells('@' + name, self.m.size(r[1]), 'undef', 'global')
                    self._init_into(st, o, 0, r[1], r[2])
                self.gl0[i] = o
            st.mem[i] = o
        return i
    def _init_into(self, st, o, off, t, v):
        t0 = self.m.resolve(t)
        k = v[0]
        if k == 'zero' or k == 'null' and t0.k != 'ptr':
            self._zero(o, off, t0); return
        if k == 'bytes':
            for i, b in enumerate(v[1]): o.c[off + i] = (1, wrap(b, 8))
            return
        if k == 'agg':
            if t0.k == 'arr':
                es = self.m.size(t0.a[1])
                for i, (et, ev) in enumerate(v[2]): self._init_into(st, o, off + i * es, et, ev)
            else:
                offs = self.m.offs(t0)
                for fo, (et, ev) in zip(offs, v[2]): self._init_into(st, o, off + fo, et, ev)
            return
        if k == 'undef': return
        o.c[off] = (self.m.size(t0), self.const(st, v, t0))
    def _zero(self, o, off, t):
        t = self.m.resolve(t)
        if t.k == 'arr':
            es = self.m.size(t.a[1])
            if t.a[0] > 100000: raise ToolLimit('large global')
            for i in range(t.a[0]): self._zero(o, off + i * es, t.a[1])
        elif t.k in ('struct', 'packed'):
            for fo, et in zip(self.m.offs(t), t.a[0]): self._zero(o, off + fo, et)
        else:
            o.c[off] = (self.m.size(t), NULL if t.k == 'ptr' else self.fconst(0.0) if t.k == 'double' else 0)

    def fconst(self, x):
        if self.mode == 'R': return real_const(x)
        return fl_const(x)

    def fname(self, name):
        """follow aliases"""
        while name in self.m.globals and name not in self.m.fn_src and ' alias ' in self.m.globals[name]:
            r = ir.parse_global(self.m, self.m.globals[name])
            name = r[1][1]
        return name

    def const(self, st, v, t=None):
        k = v[0]
        if k == 'i':
            return v[1]
        if k == 'f': return self.fconst(v[1])
        if k == 'null': return NULL
        if k == 'g':
            n = v[1]
            if n in self.m.fn_src or n in self.m.decl: return Fn(n)
            if n in self.m.globals:
                if ' alias ' in self.m.globals[n]:
                    return Fn(self.fname(n))
                return Ptr(self.gobj[n], 0)
            return Fn(n)
        if k == 'gep':
            b = self.const(st, v[2])
            return self.gep(st, v[1], b, [self.const(st, x[1]) for x in v[3]])
        if k == 'cast': return self.const(st, v[3])
        if k == 'undef':
            return self.undef_of(v[1])
        if k == 'zero': return self.zero_of(v[1])
        if k == 'agg':
            return tuple(self.const(st, x[1]) for x in v[2])
        if k == 'bin':
            a = self.const(st, v[3]); b = self.const(st, v[4])
            return self.binop(st, v[1], v[2], a, b)
        raise ToolLimit('const %r' % (v,))
    def undef_of(self, t):
        t = self.m.resolve(t)
        if t.k in ('struct', 'packed'): return tuple(self.undef_of(x) for x in t.a[0])
        if t.k == 'arr': return tuple(self.undef_of(t.a[1]) for _ in range(t.a[0]))
        return UNDEF
    def zero_of(self, t):
        t = self.m.resolve(t)
        if t.k in ('struct', 'packed'): return tuple(self.zero_of(x) for x in t.a[0])
        if t.k == 'arr': return tuple(self.zero_of(t.a[1]) for _ in range(t.a[0]))
        if t.k == 'ptr': return NULL
        if t.k == 'double': return self.fconst(0.0)
        return 0

    def ev(self, st, v):
        if v[0] == 'r':
            try: return st.frames[-1].regs[v[1]]
            except KeyError: raise ToolLimit('undefined register %s in %s' % (v[1], st.top.fn.name))
        return self.const(st, v)

    # ---------------------------------------------------------------- memory
    def gep(self, st, t, base, idx):
        if base is UNDEF: return UNDEF
        if isinstance(base, Fn):
            if all(i == 0 for i in idx): return base
            raise ToolLimit('gep on function')
        if not isinstance(base, Ptr): raise ToolLimit('gep on %r' % (base,))
        off = base.off
        i0 = idx[0]
        sz = self.m.size(t) if not (i0 == 0 and isinstance(i0, int)) else 0
        if sz: off = self._addoff(off, i0, sz)
        for i in idx[1:]:
            t = self.m.resolve(t)
            if t.k in ('struct', 'packed'):
                off = self._addoff(off, self.m.offs(t)[i], 1); t = t.a[0][i]
            elif t.k in ('arr', 'vec'):
                t = t.a[1]; off = self._addoff(off, i, self.m.size(t))
            else: raise ToolLimit('gep type')
        return Ptr(base.o, off)
    def _addoff(self, off, i, sz):
        if isinstance(i, int) and isinstance(off, int): return off + i * sz
        if isinstance(i, Ptr) or i is UNDEF: raise ToolLimit('gep index %r' % (i,))
        if isinstance(i, Form): i = ite(i, ONE, ZERO)
        return add(P(off), scale(P(i), sz))

    def obj_of(self, st, p, what='access'):
        if p is UNDEF:
            raise MemErr('%s through an uninitialised pointer' % what)
        if not isinstance(p, Ptr): raise ToolLimit('%s via %r' % (what, p))
        if p.o == 0: raise MemErr('null pointer %s' % what)
        o = st.mem.get(p.o)
        if o is None:
            for n, i in self.gobj.items():
                if i == p.o:
                    self.global_obj(st, n); return st.mem[p.o]
            raise ToolLimit('dangling %r' % p)
        return o

    def load(self, st, t, p):
        t = self.m.resolve(t)
        if t.k in ('struct', 'packed'):
            return tuple(self.load(st, x, Ptr(p.o, self._addoff(p.off, o, 1))) for x, o in zip(t.a[0], self.m.offs(t)))
        if t.k == 'arr':
            es = self.m.size(t.a[1])
            return tuple(self.load(st, t.a[1], Ptr(p.o, self._addoff(p.off, i * es, 1))) for i in range(t.a[0]))
        o = self.obj_of(st, p, 'read')
        sz = self.m.size(t)
        if o.freed: raise MemErr('use after free of %s' % o.name)
        if isinstance(o, Cells):
            return self.cells_load(st, o, p.off, sz, t)
        if o.raw: o = self._type_raw(st, p.o, sz, p.off)
        return self.arr_load(st, p, o, sz, t)
    def fixed_off(self, st, o, off, sz):
        # an offset that looks symbolic but has one value on this path
        if isinstance(off, Poly) and o.size is not None and o.size <= 256:
            for c in range(0, o.size - sz + 1, min(sz, 8)):
                f = eq(off, const(c))
                if st.feasible(f):
                    if st.entails(f): return c
                    break
        raise ToolLimit('symbolic offset into %s: %s' % (o.name, off))
    def cells_load(self, st, o, off, sz, t):
        if not isinstance(off, int): off = self.fixed_off(st, o, off, sz)
        if o.size is not None and (off < 0 or off + sz > o.size): raise MemErr('out-of-bounds read of %s at %s' % (o.name, off))
        c = o.c.get(off)
        if c is not None and c[0] == sz: return self.retype(c[1], t)
        if c is not None and c[0] > sz and isinstance(c[1], int):
            return wrap(c[1], 8 * sz)
        # compose from smaller pieces / bytes
        pieces = [(a, x) for a, x in o.c.items() if a < off + sz and a + x[0] > off]
        if len(pieces) == 1 and sz == 4 and pieces[0][1][0] == 8 and isinstance(pieces[0][1][1], Poly) and t.k == 'i' and off - pieces[0][0] in (0, 4):
            return self.split32(st, pieces[0][1][1])[(off - pieces[0][0]) // 4]
        if sz == 8 and t.k == 'i' and any(isinstance(x[1], Poly) for a, x in pieces) and all(x[0] == 4 for a, x in pieces):
            d = {a - off: x[1] for a, x in pieces}
            if set(d) == {0, 4} and all(isinstance(x, (int, Poly)) for x in d.values()):
                lo, hi = P(d[0]), P(d[4])
                if st.entails(And(ge(lo, ZERO), lt(lo, const(1 << 31)))): return self.nint(add(lo, scale(hi, 1 << 32)))
        if not pieces:
            if o.fill == 'zero': return NULL if t.k == 'ptr' else self.fconst(0.0) if t.k == 'double' else 0
            return UNDEF
        bs = [None] * sz
        for a, (n, v) in pieces:
            if not isinstance(v, int):
                if v is UNDEF: continue
                if v == NULL: v = 0
                elif isinstance(v, Poly) and v is ZERO: v = 0
                else:
                    if sz == 4 and n == 8: pass
                    raise ToolLimit('partial read of %r in %s at %s size %s' % (v, o.name, off, sz))
            vb = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
            for k in range(n):
                if 0 <= a + k - off < sz: bs[a + k - off] = vb[k]
        if o.fill == 'zero': bs = [0 if b is None else b for b in bs]
        if any(b is None for b in bs): return UNDEF
        v = int.from_bytes(bytes(bs), 'little')
        if t.k == 'double' :
            import struct
            return self.fconst(struct.unpack('<d', struct.pack('<Q', v))[0])
        if t.k == 'ptr': return NULL if v == 0 else UNDEF
        return wrap(v, 8 * sz)
    def retype(self, v, t):
        if t.k == 'double' and isinstance(v, int):
            import struct
            return self.fconst(struct.unpack('<d', struct.pack('<q', v))[0])
        if t.k == 'ptr' and isinstance(v, int) and v == 0: return NULL
        return v
    def arr_load(self, st, p, o, sz, t):
        idx, part = decode(o, p.off, st)
        self.bounds(st, o, idx, 'read')
        if st.rlog is not None: st.rlog.append((p.o, idx, part, len(st.pc), tuple(st.pc)))
        if part % 8 and o.esz != 4: raise ToolLimit('partial element read')
        return read_array(o, idx, part, st)
    def bounds(self, st, o, idx, what):
        if self.lenient: return
        conds = []
        for i, n in zip(idx, o.shape):
            conds.append(And(ge(i, ZERO), lt(i, n)))
        c = And(*conds)
        if c is TRUE: return
        if not st.entails(c):
            if c is FALSE or not st.feasible(c): raise MemErr('out-of-bounds %s of %s at %s (extent %s)' % (what, o.name, idx, o.shape))
            r = smt.check(smt.relevant(st.pc, Not(c)) + [Not(c)])
            if r == 'sat': raise MemErr('out-of-bounds %s of %s at %s (extent %s)' % (what, o.name, idx, o.shape))
            raise ToolLimit('bounds undecided for %s at %s' % (o.name, idx))
    def _type_raw(self, st, oid, sz, off):
        o = st.wobj(oid)
        nbytes = o.shape[0]
        n = scale(nbytes, Fraction(1, sz))
        if not is_int(n): raise ToolLimit('raw array element size')
        o.esz = sz; o.shape = (n,); o.strides = (const(sz),); o.raw = False
        return o
    def store(self, st, t, v, p):
        t = self.m.resolve(t)
        if t.k in ('struct', 'packed'):
            for x, o, e in zip(t.a[0], self.m.offs(t), v): self.store(st, x, e, Ptr(p.o, self._addoff(p.off, o, 1)))
            return
        if t.k == 'arr':
            es = self.m.size(t.a[1])
            for i, e in enumerate(v): self.store(st, t.a[1], e, Ptr(p.o, self._addoff(p.off, i * es, 1)))
            return
        o = self.obj_of(st, p, 'write')
        if o.freed: raise MemErr('write after free of %s' % o.name)
        sz = self.m.size(t)
        if isinstance(o, Cells):
            off = p.off
            if not isinstance(off, int): off = self.fixed_off(st, o, off, sz)
            if o.size is not None and (off < 0 or off + sz > o.size): raise MemErr('out-of-bounds write of %s at %s' % (o.name, off))
            o = st.wobj(p.o)
            self.cells_put(o, off, sz, v)
            return
        if o.raw: o = self._type_raw(st, p.o, sz, p.off)
        idx, part = decode(o, p.off, st)
        self.bounds(st, o, idx, 'write')
        o = st.wobj(p.o)
        if isinstance(v, int) and not isinstance(v, bool): v = const(v)
        if isinstance(v, Form): v = ite(v, ONE, ZERO)
        if not isinstance(v, (Poly, Fl)) and v is not UNDEF: raise ToolLimit('array of %r' % (v,))
        o.layers = o.layers + (Layer((), idx, part, TRUE, v),)
    def cells_put(self, o, off, sz, v):
        c = o.c
        x = c.get(off)
        if x is None or x[0] != sz:
            for a in [a for a in range(off - 15, off + sz) if a in c and a + c[a][0] > off]:
                n, old = c.pop(a)
                if a < off or a + n > off + sz:
                    # keep the uncovered bytes of concrete values
                    if isinstance(old, int):
                        b = (old & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
                        for k in range(n):
                            if not off <= a + k < off + sz: c[a + k] = (1, wrap(b[k], 8))
        c[off] = (sz, v)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if isinstance(n, Poly) and n.is_const(): n = int(n.const())
        so = self.obj_of(st, s, 'read'); do = self.obj_of(st, d, 'write')
        if so.freed or do.freed: raise MemErr('memcpy with freed object')
        if isinstance(n, int) and isinstance(so, Cells) and isinstance(do, Cells):
            if not isinstance(s.off, int) or not isinstance(d.off, int): raise ToolLimit('memcpy offset')
            if so.size is not None and s.off + n > so.size: raise MemErr('memcpy reads past %s' % so.name)
            if do.size is not None and d.off + n > do.size: raise MemErr('memcpy writes past %s' % do.name)
            items = []
            for a, (z, v) in so.c.items():
                if s.off <= a and a + z <= s.off + n: items.append((a - s.off, z, v))
                elif a < s.off + n and a + z > s.off:
                    if isinstance(v, int):
                        b = (v & ((1 << (8 * z)) - 1)).to_bytes(z, 'little')
                        for k in range(z):
                            if s.off <= a + k < s.off + n: items.append((a + k - s.off, 1, wrap(b[k], 8)))
                    elif v is not UNDEF: raise ToolLimit('memcpy splits a cell')
            do = st.wobj(d.o)
            if so.fill == 'zero' or do.fill == 'zero':
                # materialise unknown bytes as zero/undef
                cov = set()
                for a, z, v in items: cov.update(range(a, a + z))
                miss = [k for k in range(n) if k not in cov]
                if miss and len(miss) <= 4096:
                    for k in miss: items.append((k, 1, 0 if so.fill == 'zero' else UNDEF))
            else:
                for a in [a for a in do.c if d.off <= a < d.off + n]: 
                    if a + do.c[a][0] <= d.off + n: del do.c[a]
            for a, z, v in items: self.cells_put(do, d.off + a, z, v)
            return
        arrs = [o for o in (so, do) if isinstance(o, Arr)]
        if isinstance(n, int) and n <= 64 and n % 8 == 0 and arrs and all(not o.raw and o.esz % 8 == 0 for o in arrs):
            # one element (assignment of a complex number)
            D = ir.DBL
            vs = [self.load(st, D, Ptr(s.o, self._addoff(s.off, k, 1))) for k in range(0, n, 8)]
            for k, v in zip(range(0, n, 8), vs): self.store(st, D, v, Ptr(d.o, self._addoff(d.off, k, 1)))
            return
        # array copies element-wise
        self.arr_copy(st, d, s, n)
    def arr_copy(self, st, d, s, n):
        so = self.obj_of(st, s); do = self.obj_of(st, d)
        esz = None
        for o in (so, do):
            if isinstance(o, Arr) and not o.raw: esz = o.esz
        if esz is None: raise ToolLimit('raw to raw copy')
        for o, p in ((so, s), (do, d)):
            if isinstance(o, Arr) and o.raw: self._type_raw(st, p.o, esz, p.off)
        so = st.mem[s.o]; do = st.mem[d.o]
        if not (isinstance(so, Arr) and isinstance(do, Arr)) or len(so.shape) != 1 or len(do.shape) != 1 or so.esz != do.esz:
            raise ToolLimit('memcpy between array kinds')
        cnt = scale(P(n), Fraction(1, esz))
        if not is_int(cnt): raise ToolLimit('memcpy size')
        i0, p0 = decode(so, s.off, st); j0, p1 = decode(do, d.off, st)
        if p0 or p1: raise ToolLimit('memcpy alignment')
        # the bytes copied are contiguous: elements of a strided array are not
        dense = lambda o: eq(o.strides[0], P(esz))
        if not st.entails(Or(dense(do), eq(cnt, ONE))): raise ToolLimit('contiguous copy into a strided array')
        sd = dense(so); sd = TRUE if st.entails(sd) else sd
        k = fresh('c', 'I'); ka = next(iter(free_vars(k)))
        t = st.fork(); t.assume(And(ge(k, ZERO), lt(k, cnt)))
        self.bounds(t, so, (add(i0[0], k),), 'read'); self.bounds(t, do, (add(j0[0], k),), 'write')
        if st.rlog is not None: st.rlog.append((s.o, (add(i0[0], k),), 0, len(t.pc), tuple(t.pc)))
        do = st.wobj(d.o)
        for part in ((0, 8) if esz == 16 else (0,)):
            v = read_array(so, (add(i0[0], k),), part, t)
            if sd is not TRUE: v = ite(Or(sd, eq(k, ZERO)), v, fn('gap:%s:%d' % (so.name, part), add(i0[0], k)))   # what lies between the elements is not specified
            do.layers = do.layers + (Layer(((ka, cnt),), (add(j0[0], k),), part, TRUE, v),)

    # ---------------------------------------------------------------- arithmetic
    def binop(self, st, op, t, a, b):
        if op[0] == 'f' and op != 'freeze': return self.fbin(op, a, b)
        bits = t.a[0] if t.k == 'i' else 64
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 if isinstance(a, int) else False or (isinstance(b, int) and b == 0)): return 0
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'sdiv':
                if b == 0: raise MemErr('division by zero')
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == 'srem':
                if b == 0: raise MemErr('division by zero')
                r = abs(a) % abs(b) * (-1 if a < 0 else 1)
            elif op in ('udiv', 'urem'):
                ua = a & MASK[bits]; ub = b & MASK[bits]
                if ub == 0: raise MemErr('division by zero')
                r = ua // ub if op == 'udiv' else ua % ub
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b
            elif op == 'lshr': r = (a & MASK[bits]) >> b
            elif op == 'ashr': r = a >> b
            else: raise ToolLimit(op)
            return wrap(r, bits)
        if isinstance(a, Form) or isinstance(b, Form):
            if bits == 1 or op in ('and', 'or', 'xor'):
                fa = a if isinstance(a, Form) else B(bool(a & 1)); fb = b if isinstance(b, Form) else B(bool(b & 1))
                if op == 'and': return And(fa, fb)
                if op == 'or': return Or(fa, fb)
                if op == 'xor': return Or(And(fa, Not(fb)), And(Not(fa), fb))
            if isinstance(a, Form): a = ite(a, ONE, ZERO)
            if isinstance(b, Form): b = ite(b, ONE, ZERO)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == 'sub' and a.o == b.o:
                    return self.nint(sub(P(a.off), P(b.off)))
            elif op in ('add', 'sub') and isinstance(a, Ptr):
                return Ptr(a.o, self._addoff(a.off, b if op == 'add' else self.nint(scale(P(b), -1)), 1))
            elif op == 'and' and isinstance(a, Ptr) and isinstance(b, int): return 0 if b in (1, 3, 7) else a
            raise ToolLimit('pointer arithmetic %s %r %r' % (op, a, b))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op == 'and' and b == 1: return 0
            raise ToolLimit('function pointer arithmetic')
        a = P(a); b = P(b)
        if op == 'add': return self.nint(add(a, b))
        if op == 'sub': return self.nint(sub(a, b))
        if op == 'mul': return self.nint(mul(a, b))
        if op in ('sdiv', 'udiv') and b.is_const():
            c = b.const(); q = scale(a, Fraction(1, c))
            if is_int(q): return self.nint(q)
            q = fn('idiv', a, b, sort='I')
            # truncation towards zero; operands are non-negative by precondition when it matters
            st.assume(Implies(ge(a, ZERO), And(le(scale(q, c), a), lt(a, add(scale(q, c), const(c))), ge(q, ZERO))))
            return q
        if op in ('srem', 'urem') and b.is_const():
            c = b.const()
            if is_int(scale(a, Fraction(1, c))): return 0
            q = fn('idiv', a, b, sort='I'); 
            st.assume(Implies(ge(a, ZERO), And(le(scale(q, c), a), lt(a, add(scale(q, c), const(c))), ge(q, ZERO))))
            return self.nint(sub(a, scale(q, c)))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if not st.entails(ne(b, ZERO)):
                st2 = smt.check(smt.relevant(st.pc, eq(b, ZERO)) + [eq(b, ZERO)])
                if st2 == 'sat': raise MemErr('division by zero possible')
            # exact division when the divisor is a factor
            q, r = poly_divmod(a, b)
            if r is ZERO: return self.nint(q) if op[1:] == 'div' else 0
            q = fn('idiv', a, b, sort='I'); r = sub(a, mul(q, b))
            st.assume(Implies(And(ge(a, ZERO), gt(b, ZERO)), And(ge(r, ZERO), lt(r, b), ge(q, ZERO))))
            # truncation towards zero also for a negative divisor
            st.assume(Implies(And(ge(a, ZERO), lt(b, ZERO)), And(ge(r, ZERO), lt(r, scale(b, -1)), le(q, ZERO))))
            return q if op in ('sdiv', 'udiv') else r
        if op == 'shl' and b.is_const(): return self.nint(scale(a, 1 << int(b.const())))
        if op in ('ashr', 'lshr') and b.is_const():
            q = scale(a, Fraction(1, 1 << int(b.const())))
            if is_int(q): return self.nint(q)
            if b.const() == 32: return self.split32(st, a)[1]
        if op == 'or':
            # two 32-bit halves packed into one register (coerced struct arguments)
            for x, y in ((a, b), (b, a)):
                if x.m and all(c % (1 << 32) == 0 for c in x.m.values()) and st.entails(And(ge(y, ZERO), lt(y, const(1 << 32)))): return self.nint(add(x, y))
        if op == 'and' and b.is_const():
            if b.const() == 0: return 0
            c = int(b.const())
            if c & (c + 1) == 0:  # low mask
                return self.binop(st, 'srem', t, a, const(c + 1))
        raise ToolLimit('int op %s on %s, %s' % (op, a, b))
    def split32(self, st, v):
        """the two 32-bit halves of a packed register"""
        hi = mk_poly({m: c // (1 << 32) for m, c in v.m.items() if m != () and c % (1 << 32) == 0})
        lo = mk_poly({m: c for m, c in v.m.items() if m == () or c % (1 << 32)})
        if lo.is_const() : hi = add(hi, const(lo.const() >> 32)); lo = const(lo.const() & 0xffffffff)
        if not st.entails(And(ge(lo, ZERO), lt(lo, const(1 << 31)))) : raise ToolLimit('splitting a packed register %s' % v)
        return self.nint(lo), self.nint(hi)
    def nint(self, p):
        if p.is_const():
            c = p.const()
            return int(c) if not isinstance(c, Fraction) else p
        return p

    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if self.mode == 'R':
            a = P(a) if not isinstance(a, Form) else ite(a, ONE, ZERO); b = P(b)
            if op == 'fadd': return add(a, b)
            if op == 'fsub': return sub(a, b)
            if op == 'fmul': return mul(a, b)
            if op == 'fdiv':
                return div(a, b)
            raise ToolLimit(op)
        if a.k == 'c' and b.k == 'c':
            x, y = a.a[0], b.a[0]
            try:
                if op == 'fadd': return fl_const(x + y)
                if op == 'fsub': return fl_const(x - y)
                if op == 'fmul': return fl_const(x * y)
                if op == 'fdiv' and y != 0: return fl_const(x / y)
            except OverflowError: pass
        return self.fl_op(op, a, b)
    def fl_op(self, op, a, b):
        # exact identities of IEEE arithmetic used: commutativity of + and *, a-b = -(b-a), signs of products
        if op == 'fsub' and b.k == 'uf' and b.a[0] == 'fneg': return self.fl_op('fadd', a, b.a[1])
        if op == 'fadd' and b.k == 'uf' and b.a[0] == 'fneg': return self.fl_op('fsub', a, b.a[1])
        if op == 'fadd' and a.k == 'uf' and a.a[0] == 'fneg': return self.fl_op('fsub', b, a.a[1])
        if op == 'fsub' and id(a) > id(b): return fl_neg(mk_fl('op', 'fsub', b, a))
        if op in ('fmul', 'fdiv'):
            neg = 0
            if a.k == 'uf' and a.a[0] == 'fneg': a = a.a[1]; neg ^= 1
            if b.k == 'uf' and b.a[0] == 'fneg': b = b.a[1]; neg ^= 1
            if a.k == 'c' and a.a[0] < 0: a = fl_const(-a.a[0]); neg ^= 1
            if b.k == 'c' and b.a[0] < 0: b = fl_const(-b.a[0]); neg ^= 1
            if a.k == 'c' and a.a[0] == 1.0 and op == 'fmul': r = b
            elif b.k == 'c' and b.a[0] == 1.0: r = a
            else:
                if op == 'fmul' and id(a) > id(b): a, b = b, a
                r = mk_fl('op', op, a, b)
            return fl_neg(r) if neg else r
        if op in ('fadd', 'fmul') and id(a) > id(b): a, b = b, a
        return mk_fl('op', op, a, b)

    def icmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 'u':
                a &= MASK[64]; b &= MASK[64]; pred = 's' + pred[1:]
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                x, y = P(a.off), P(b.off)
                return self._pcmp(pred, x, y)
            if pred in ('eq', 'ne'):
                if isinstance(a, Fn) and isinstance(b, Fn): r = a.name == b.name
                else: r = False
                return r if pred == 'eq' else not r
            if isinstance(a, Ptr) and isinstance(b, Ptr): return {'ult': a.o < b.o, 'ule': a.o < b.o, 'ugt': a.o > b.o, 'uge': a.o > b.o}[pred]
            if isinstance(b, int): return {'ult': False, 'ugt': True, 'uge': True, 'ule': False}.get(pred, False)
            raise ToolLimit('icmp %s %r %r' % (pred, a, b))
        if isinstance(a, (Form, bool)) and isinstance(b, (Form, bool, int)) or isinstance(b, (Form, bool)) and isinstance(a, (int, bool)):
            fa = B(a) if isinstance(a, (Form, bool)) else (B(bool(a)) if a in (0, 1) else None)
            fb = B(b) if isinstance(b, (Form, bool)) else (B(bool(b)) if b in (0, 1, -1) else None)
            if fa is not None and fb is not None:
                if pred == 'eq': return self.nb(Iff(fa, fb))
                if pred == 'ne': return self.nb(Not(Iff(fa, fb)))
            if isinstance(a, Form): a = ite(a, ONE, ZERO)
            if isinstance(b, Form): b = ite(b, ONE, ZERO)
        if isinstance(a, (Fl,)) or isinstance(b, Fl): raise ToolLimit('integer view of a float')
        x, y = P(a), P(b)
        return self._pcmp(pred, x, y)
    def nb(self, f):
        if f is TRUE: return True
        if f is FALSE: return False
        return f
    def _pcmp(self, pred, x, y):
        # integers are mathematical; unsigned compares with large constants mean "negative"
        p = pred[1:] if pred[0] in 'su' and pred not in ('slt',) or pred == 'slt' else pred
        if pred in ('eq', 'ne'): f = eq(x, y) if pred == 'eq' else ne(x, y)
        else:
            if pred[0] == 'u' and y.is_const() and y.const() < 0: return True if p in ('lt', 'le') else False
            f = {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](x, y)
        if f.k == 'lt':   # integers: p<0  <=>  p+1<=0 ; keep lt
            pass
        return self.nb(f)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if self.mode == 'R':
            a = P(a); b = P(b)
            if pred == 'ord': return True
            if pred == 'uno': return False
            k = pred[1:]
            return self.nb({'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[k](a, b))
        if a.k == 'c' and b.k == 'c':
            x, y = a.a[0], b.a[0]; un = x != x or y != y
            if pred == 'ord': return not un
            if pred == 'uno': return un
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
            return (r and not un) if pred[0] == 'o' else (r or un)
        return mk_form('fcmp', pred, a, b)

    # ---------------------------------------------------------------- control
    def call_fn(self, st, name, args, dst=None, cont=None):
        f = self.m.fn(name)
        fr = Frame(); fr.fn = f; fr.blk = f.order[0]; fr.ip = 0; fr.prev = None; fr.regs = {}; fr.dst = dst; fr.cont = cont; fr.loops = {}; fr.iters = {}; fr.allocas = []
        self.fn_seen.add(name)
        for (pn, pt, bv), v in zip(f.params, args):
            if bv is not None:
                o = st.new(Cells('byval', self.m.size(bv), kind='stack'))
                self.memcpy(st, Ptr(o, 0), v, self.m.size(bv)); v = Ptr(o, 0)
                fr.allocas.append(o)
            fr.regs[pn] = v
        st.frames.append(fr)
        if len(st.frames) > 400: raise ToolLimit('recursion depth')

    def run(self, st):
        """explore from st; list of Final"""
        out = []; work = [st]
        while work:
            s = work.pop()
            r = self.run_one(s)
            for x in r:
                if isinstance(x, Final): out.append(x)
                else: work.append(x)
        return out

    def run_one(self, st):
        """run until the state finishes or forks"""
        while True:
            if st.done is not None: return [Final(st, *st.done)]
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.blk]
            if fr.ip >= len(b.insts): raise ToolLimit('fell off block')
            ins = b.insts[fr.ip]
            fr.ip += 1
            self.stepcount += 1
            if self.stepcount > self.max_steps: raise ToolLimit('step limit')
            if self.deadline and not (self.stepcount & 1023):
                import time
                if time.time() > self.deadline: raise ToolLimit('time limit')
            try:
                h = self.H.get(ins.op)
                if h is None: raise ToolLimit('instruction ' + ins.op)
                r = h(self, st, fr, ins)
            except MemErr as e:
                st.done = ('error', str(e) + ' in ' + ir.demangle(fr.fn.name)[:200]); return [Final(st, *st.done)]
            except ToolLimit as e:
                if not getattr(e, 'where', None):
                    e.where = [ir.demangle(f.fn.name)[:150] + ' / ' + str(f.blk) for f in st.frames[::-1]]
                raise
            if r is not None:
                return r

    def goto(self, st, fr, target):
        """transfer control; may finish the state for the innermost stop"""
        if st.stops:
            d, hdr, blocks = st.stops[-1]
            if len(st.frames) == d:
                if target == hdr:
                    st.done = ('back', fr.blk); return
                if target not in blocks:
                    st.done = ('exit', (fr.blk, target)); return
        self.enter(st, fr, target)
    def enter(self, st, fr, target):
        lp = loops_of(fr.fn)
        if target in lp:
            if fr.blk not in lp[target]:
                fr.iters[target] = 0
                fr.loops.pop(target, None)
                snap = st.fork()
                fr.loops[target] = (snap, fr.blk)
            else:
                fr.iters[target] = fr.iters.get(target, 0) + 1
                if self.prune and fr.iters[target] >= self.prune[1] and ('sym', target) in fr.iters and self.prune[0](ir.demangle(fr.fn.name)): st.done = ('dead', 'unrolled')
                if fr.iters[target] > self.max_unroll: raise ToolLimit('unroll limit in ' + ir.demangle(fr.fn.name)[:120])
        b = fr.fn.blocks[target]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.a:
                    if lab == fr.blk: vals.append((ph.dst, self.ev(st, v))); break
                else: raise ToolLimit('phi edge')
            for d, v in vals: fr.regs[d] = v
        fr.prev = fr.blk; fr.blk = target; fr.ip = 0

    def branch(self, st, fr, cond, ta, tb):
        if cond is True or isinstance(cond, int) and cond: self.goto(st, fr, ta); return None
        if cond is False or isinstance(cond, int): self.goto(st, fr, tb); return None
        if cond is UNDEF:
            raise MemErr('branch on an uninitialised value')
        if isinstance(cond, Poly): cond = ne(cond, ZERO)
        if cond is TRUE: self.goto(st, fr, ta); return None
        if cond is FALSE: self.goto(st, fr, tb); return None
        # loop exits with symbolic conditions
        r = self.try_loop(st, fr, cond, ta, tb)
        if r is not None: return r
        fa = st.feasible(cond); fb = st.feasible(Not(cond))
        if fa and fb:
            if self.prune:
                for h, bl in loops_of(fr.fn).items():
                    if fr.blk in bl and ((ta in bl) != (tb in bl)): fr.iters[('sym', h)] = 1
            s2 = st.fork()
            st.assume(cond); self.goto(st, st.frames[-1], ta)
            s2.assume(Not(cond)); self.goto(s2, s2.frames[-1], tb)
            return [st, s2]
        if fa: st.assume(cond); self.goto(st, fr, ta); return None
        if fb: st.assume(Not(cond)); self.goto(st, fr, tb); return None
        return []   # dead path

    def try_loop(self, st, fr, cond, ta, tb):
        lp = loops_of(fr.fn)
        best = None
        for h, bl in lp.items():
            if fr.blk in bl and ((ta in bl) != (tb in bl)) and h in fr.loops:
                if best is None or len(bl) < len(lp[best]): best = h
        if best is None: return None
        bl = lp[best]
        hterm = fr.fn.blocks[best].insts[-1]
        hdr_exit = any(s not in bl for s in succs(fr.fn.blocks[best]))
        if fr.blk != best and hdr_exit:
            # header test was concrete for this iteration: ordinary branch, unless this is the latch
            if best not in succs(fr.fn.blocks[fr.blk]):
                if not self.cut_ok or st.stops and st.stops[-1][0] == len(st.frames) and st.stops[-1][1] == best: return None
                if not (st.feasible(cond) and st.feasible(Not(cond))): return None
                k = fr.iters[('brk', best)] = fr.iters.get(('brk', best), 0) + 1
                if k < 4: return None
                # a counted loop with a data dependent break: cut from its entry (the exits already forked off
                # are among those the cut covers)
                from . import loops
                snap, prev = fr.loops[best]
                r = loops.cut(self, snap.fork(), best, bl, prev)
                self.loops_cut += 1
                return r
        # do not interfere when we are inside a sub-run of this very loop
        if st.stops and st.stops[-1][0] == len(st.frames) and st.stops[-1][1] == best: return None
        if best in fr.iters and ('nosum', best) in fr.iters: return None
        both = None
        if fr.iters.get(best, 0) or fr.blk != best:
            both = st.feasible(cond) and st.feasible(Not(cond))
            if not both: return None
        if self.prune and self.prune[0](ir.demangle(fr.fn.name)): return None
        snap, prev = fr.loops[best]
        from . import loops
        if self.induct is not None and self.induct(ir.demangle(fr.fn.name)):
            from . import induct
            return induct.induct(self, snap.fork(), best, bl, prev)
        try:
            r = loops.summarise(self, snap.fork(), best, bl, prev)
            self.loops_summarised += 1
            return r
        except loops.CannotSummarise as e:
            if self.verbose: print('  [loop %s in %s: %s]' % (best, ir.demangle(fr.fn.name)[:90], e), file=sys.stderr)
            self.last_loop_fail = (ir.demangle(fr.fn.name)[:160], str(e))
        if both is None: both = st.feasible(cond) and st.feasible(Not(cond))
        if not both: return None
        if self.cut_ok:
            r = loops.cut(self, snap.fork(), best, bl, prev)
            self.loops_cut += 1
            return r
        fr.iters[('nosum', best)] = 1
        return None

    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        self.unwind(st)
    def unwind(self, st):
        """pop frames until a landing pad; the current top frame is the throwing one"""
        while True:
            fr = st.frames[-1]
            # is the current frame executing an invoke?
            b = fr.fn.blocks[fr.blk]; ins = b.insts[fr.ip - 1] if fr.ip else None
            if ins is not None and ins.op == 'invoke':
                tgt = ins.x[1]
                lpb = fr.fn.blocks[tgt]
                lpi = next(i for i in lpb.insts if i.op == 'landingpad')
                if self.lp_match(st, lpi) is not None:
                    self.goto(st, fr, tgt); return
            self.pop_frame(st)
            if st.stops and len(st.frames) < st.stops[-1][0]:
                st.done = ('throw', st.exc); return
            if not st.frames:
                st.done = ('throw', st.exc); return
    def lp_match(self, st, ins):
        ti = st.exc[1]
        for k, v in ins.x:
            if k == 'catch':
                c = self.const(st, v)
                if c == NULL: return (self.typeid(None),)
                if self.ti_derives(st, ti, self.ti_name(c)): return (self.typeid(self.ti_name(c)),)
            elif k == 'filter': return (0,)
        if any(k == 'cleanup' for k, _ in ins.x): return (0,)
        return None
    def ti_name(self, c):
        if isinstance(c, Ptr):
            for n, i in self.gobj.items():
                if i == c.o: return n
        if isinstance(c, Fn): return c.name
        return str(c)
    def typeid(self, n):
        return self.typeids.setdefault(n, len(self.typeids) + 1)
    STD_BASE = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error',
                '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
                '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt17bad_function_call': '_ZTISt9exception'}
    def ti_bases(self, st, n):
        out = []
        if n in self.STD_BASE: out.append(self.STD_BASE[n])
        if n in self.m.globals:
            src = self.m.globals[n]
            for x in re.findall(r'@(_ZTI[\w]+)', src): out.append(x)
        return out
    def ti_derives(self, st, n, base):
        if n == base: return True
        return any(self.ti_derives(st, x, base) for x in self.ti_bases(st, n) if x != n)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for o in fr.allocas: 
            st.mem.pop(o, None)

    # ---------------------------------------------------------------- instruction handlers
    def h_bin(self, st, fr, i): fr.regs[i.dst] = self.binop(st, i.op, i.ty, self.ev(st, i.a[0]), self.ev(st, i.a[1]))
    def h_fneg(self, st, fr, i):
        v = self.ev(st, i.a[0])
        if v is UNDEF: fr.regs[i.dst] = v
        elif self.mode == 'R': fr.regs[i.dst] = scale(P(v), -1)
        else: fr.regs[i.dst] = fl_neg(v)
    def h_icmp(self, st, fr, i): fr.regs[i.dst] = self.icmp(st, i.x, self.ev(st, i.a[0]), self.ev(st, i.a[1]))
    def h_fcmp(self, st, fr, i): fr.regs[i.dst] = self.fcmp(i.x, self.ev(st, i.a[0]), self.ev(st, i.a[1]))
    def h_load(self, st, fr, i): fr.regs[i.dst] = self.load(st, i.ty, self.ev(st, i.a[0]))
    def h_store(self, st, fr, i): self.store(st, i.ty, self.ev(st, i.a[0]), self.ev(st, i.a[1]))
    def h_alloca(self, st, fr, i):
        n = self.ev(st, i.a[0])
        o = st.new(Cells(i.dst, self.m.size(i.ty) * (n if isinstance(n, int) else 1), kind='stack'))
        fr.allocas.append(o); fr.regs[i.dst] = Ptr(o, 0)
    def h_gep(self, st, fr, i):
        fr.regs[i.dst] = self.gep(st, i.ty, self.ev(st, i.a[0]), [self.ev(st, x) for x in i.a[1:]])
    def h_cast(self, st, fr, i):
        v = self.ev(st, i.a[0]); op = i.op
        if isinstance(v, bool): v = int(v)
        if v is UNDEF: pass
        elif op == 'trunc':
            if isinstance(v, int): v = wrap(v, i.ty.a[0])
            elif isinstance(v, Form): pass
            elif i.ty.a[0] == 1 and isinstance(v, Poly): v = self.nb(ne(v, ZERO))
            elif i.ty.a[0] == 32 and isinstance(v, Poly) and any(m != () and c % (1 << 32) == 0 for m, c in v.m.items()): v = self.split32(st, v)[0]
        elif op == 'zext':
            if isinstance(v, int) and not isinstance(v, bool): v = v & MASK.get(i.x.a[0], (1 << i.x.a[0]) - 1)
        elif op == 'sext':
            if isinstance(v, Form): v = ite(v, const(-1), ZERO)
        elif op in ('sitofp', 'uitofp'):
            if self.mode == 'R':
                if isinstance(v, Form): v = ite(v, ONE, ZERO)
                v = P(v)
            else:
                if isinstance(v, int): v = fl_const(float(v))
                else: v = mk_fl('uf', 'itof', v)
        elif op in ('fptosi', 'fptoui'):
            if self.mode == 'R':
                p = P(v)
                if p.is_const(): v = int(p.const())
                elif is_int(p): v = p
                else: v = fn('trunc', p, sort='I')
            else: v = int(v.a[0]) if v.k == 'c' else fn('ftoi%d' % id(v), sort='I')
        fr.regs[i.dst] = v
    def h_select(self, st, fr, i):
        c = self.ev(st, i.a[0]); a = self.ev(st, i.a[1]); b = self.ev(st, i.a[2])
        if c is UNDEF: raise MemErr('select on an uninitialised value')
        if isinstance(c, (bool, int)): fr.regs[i.dst] = a if c else b; return
        if isinstance(c, Poly): c = ne(c, ZERO)
        if c is TRUE or c is FALSE: fr.regs[i.dst] = a if c is TRUE else b; return
        m = self.merge_val(c, a, b)
        if m is not None: fr.regs[i.dst] = m[0]; return
        s2 = st.fork()
        st.assume(c); fr.regs[i.dst] = a
        s2.assume(Not(c)); s2.frames[-1].regs[i.dst] = b
        return [s for s, f in ((st, c), (s2, Not(c)))]
    def merge_val(self, c, a, b):
        """value equal to a if c else b, boxed, or None"""
        if a is b or (type(a) == type(b) and not isinstance(a, tuple) and a == b): return (a,)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool):
            return (ite(c, P(a), P(b)),)
        if isinstance(a, (bool, Form)) and isinstance(b, (bool, Form, int)) or isinstance(b, (bool, Form)) and isinstance(a, (bool, Form, int)):
            if isinstance(a, int) and a in (0, 1): a = bool(a)
            if isinstance(b, int) and b in (0, 1): b = bool(b)
            if isinstance(a, (bool, Form)) and isinstance(b, (bool, Form)): return (self.nb(bite(c, B(a), B(b))),)
        if isinstance(a, Fl) and isinstance(b, Fl): return (fl_ite(c, a, b),)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return (Ptr(a.o, ite(c, P(a.off), P(b.off))),)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = [self.merge_val(c, x, y) for x, y in zip(a, b)]
            if all(x is not None for x in r): return (tuple(x[0] for x in r),)
        return None
    def h_br(self, st, fr, i): self.goto(st, fr, i.x)
    def h_cbr(self, st, fr, i): return self.branch(st, fr, self.ev(st, i.a[0]), i.x[0], i.x[1])
    def h_switch(self, st, fr, i):
        v = self.ev(st, i.a[0])
        if v is UNDEF: raise MemErr('switch on an uninitialised value')
        if isinstance(v, int):
            for c, l in i.x[1]:
                if c == v: self.goto(st, fr, l); return
            self.goto(st, fr, i.x[0]); return
        v = ite(v, ONE, ZERO) if isinstance(v, Form) else P(v)
        outs = []; neg = []
        for c, l in i.x[1]:
            f = eq(v, const(c))
            if st.feasible(f):
                s2 = st.fork(); s2.assume(f); self.goto(s2, s2.frames[-1], l); outs.append(s2)
            neg.append(Not(f))
        f = And(*neg)
        if st.feasible(f):
            st.assume(f); self.goto(st, fr, i.x[0]); outs.append(st)
        return outs
    def h_ret(self, st, fr, i):
        v = self.ev(st, i.a[0]) if i.a else None
        self.pop_frame(st)
        if st.stops and len(st.frames) < st.stops[-1][0]:
            st.done = ('ret', v); return
        if not st.frames:
            st.done = ('ret', v); return
        self.ret_to(st, fr.dst, fr.cont, v)
    def ret_to(self, st, dst, cont, v):
        fr = st.frames[-1]
        if dst is not None: fr.regs[dst] = v
        if cont is not None: self.goto(st, fr, cont[0])
    def h_call(self, st, fr, i):
        cal = i.a[0]
        if cal[0] == 'g': name = cal[1]
        else:
            f = self.ev(st, cal)
            if f is UNDEF: raise MemErr('call through an uninitialised function pointer')
            if isinstance(f, Ptr) and f == NULL: raise MemErr('call through a null function pointer')
            if not isinstance(f, Fn): raise ToolLimit('indirect call %r' % (f,))
            name = f.name
        args = [self.ev(st, a[1]) if a[0].k != 'metadata' else None for a in i.a[1]]
        cont = i.x if i.op == 'invoke' else None
        name = self.fname(name)
        h = self.lookup(name)
        if h is not None:
            r = h(self, st, args, i)
            if isinstance(r, Thrown):
                if st.done is None: self.unwind(st)
                return None
            if isinstance(r, Forked):
                for s, v in r.outs:
                    if s.done is None and not isinstance(v, Thrown): self.ret_to(s, i.dst, cont, v)
                    elif isinstance(v, Thrown) and s.done is None: self.unwind(s)
                return [s for s, v in r.outs]
            if isinstance(r, CallInto):
                self.call_fn(st, r.name, r.args, i.dst, cont); return None
            if st.done is not None: return None
            self.ret_to(st, i.dst, cont, r)
            return None
        if name in self.m.fn_src:
            self.call_fn(st, name, args, i.dst, cont)
            return None
        d = ir.demangle(name)
        for rx, f in self.ext_overrides:
            if rx.search(d):
                r = f(self, st, args, i); self.ret_to(st, i.dst, cont, r); return None
        raise ToolLimit('external function %s' % d)
    def lookup(self, name):
        h = self.ov_cache.get(name, 0)
        if h != 0: return h
        h = self.builtins.get(name)
        if h is None:
            if name.startswith('llvm.'):
                base = '.'.join(name.split('.')[:2]); h = self.builtins.get(base) or self.builtins.get('.'.join(name.split('.')[:3]))
            if h is None:
                d = ir.demangle(name)
                for rx, f in self.overrides:
                    if rx.search(d): h = f; break
        self.ov_cache[name] = h
        return h
    def h_unreachable(self, st, fr, i):
        st.done = ('abort', 'unreachable in ' + ir.demangle(fr.fn.name)[:100])
    def h_resume(self, st, fr, i):
        v = self.ev(st, i.a[0])
        self.pop_frame(st)
        if st.stops and len(st.frames) < st.stops[-1][0] or not st.frames:
            st.done = ('throw', st.exc); return
        self.unwind(st)
    def h_landingpad(self, st, fr, i):
        sel = self.lp_match(st, i)
        fr.regs[i.dst] = (st.exc[0], sel[0] if sel else 0)
    def h_extractvalue(self, st, fr, i):
        v = self.ev(st, i.a[0])
        for k in i.x:
            if v is UNDEF: break
            v = v[k]
        fr.regs[i.dst] = v
    def h_insertvalue(self, st, fr, i):
        v = self.ev(st, i.a[0]); e = self.ev(st, i.a[1])
        def ins(v, idx):
            if not idx: return e
            l = list(v); l[idx[0]] = ins(l[idx[0]], idx[1:]); return tuple(l)
        if v is UNDEF: v = self.undef_of(i.ty)
        fr.regs[i.dst] = ins(v, i.x)
    def h_atomicrmw(self, st, fr, i):
        p = self.ev(st, i.a[0]); v = self.ev(st, i.a[1])
        old = self.load(st, i.ty, p); fr.regs[i.dst] = old
        op = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or'}.get(i.x)
        self.store(st, i.ty, v if i.x == 'xchg' else self.binop(st, op, i.ty, old, v), p)
    def h_cmpxchg(self, st, fr, i):
        p = self.ev(st, i.a[0]); c = self.ev(st, i.a[1]); n = self.ev(st, i.a[2])
        old = self.load(st, i.ty, p); okk = self.icmp(st, 'eq', old, c)
        if okk is True: self.store(st, i.ty, n, p)
        elif okk is not False: raise ToolLimit('cmpxchg')
        fr.regs[i.dst] = (old, okk)
    def h_freeze(self, st, fr, i): fr.regs[i.dst] = self.ev(st, i.a[0])

def fl_neg(v):
    if v.k == 'c': return fl_const(-v.a[0])
    if v.k == 'uf' and v.a[0] == 'fneg': return v.a[1]
    return mk_fl('uf', 'fneg', v)
class MemErr(Exception): pass
class Thrown: pass
class Forked:
    def __init__(self, outs): self.outs = outs
class CallInto:
    def __init__(self, name, args): self.name = name; self.args = args

H = {}
for _o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'): H[_o] = Engine.h_bin
for _o in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): H[_o] = Engine.h_cast
H.update({'fneg': Engine.h_fneg, 'icmp': Engine.h_icmp, 'fcmp': Engine.h_fcmp, 'load': Engine.h_load, 'store': Engine.h_store, 'alloca': Engine.h_alloca,
          'getelementptr': Engine.h_gep, 'select': Engine.h_select, 'br': Engine.h_br, 'cbr': Engine.h_cbr, 'switch': Engine.h_switch, 'ret': Engine.h_ret,
          'call': Engine.h_call, 'invoke': Engine.h_call, 'unreachable': Engine.h_unreachable, 'resume': Engine.h_resume, 'landingpad': Engine.h_landingpad,
          'extractvalue': Engine.h_extractvalue, 'insertvalue': Engine.h_insertvalue, 'atomicrmw': Engine.h_atomicrmw, 'cmpxchg': Engine.h_cmpxchg, 'freeze': Engine.h_freeze})
Engine.H = H
