"""LLVM IR (text, opaque pointers) reader: lazy per-function parsing."""
import re, struct, subprocess

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>!(?:[-\w$.]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<id>[A-Za-z_$.][-\w$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise SyntaxError('token at %r' % s[i:i+40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

# ------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', '_sz', '_al', '_offs')
    def __init__(self, k, a=()): self.k = k; self.a = a; self._sz = None; self._al = None; self._offs = None
    def __repr__(self): return self.k + (str(self.a) if self.a else '')
_tt = {}
def ty(k, *a):
    key = (k, a)
    t = _tt.get(key)
    if t is None: t = Ty(k, a); _tt[key] = t
    return t
PTR = ty('ptr'); VOID = ty('void'); DBL = ty('double'); I1 = ty('i', 1); I8 = ty('i', 8); I32 = ty('i', 32); I64 = ty('i', 64)

class Module:
    def __init__(self, text):
        self.named = {}
        self.fn_src = {}      # name -> (header, body lines)
        self.decl = {}
        self.globals = {}     # name -> (linkage info, type, init tokens or None, is_const)
        self.fns = {}
        self._ntypes_src = {}
        self._scan(text)

    def _scan(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                name = self._fname(l)
                j = i + 1
                while lines[j] != '}': j += 1
                self.fn_src[name] = (l, lines[i+1:j])
                i = j + 1; continue
            if l.startswith('declare '):
                self.decl[self._fname(l)] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, r = l.split(' = type ', 1)
                self._ntypes_src[nm.strip().lstrip('%').strip('"')] = r
            elif l.startswith('@'):
                nm, r = l.split(' = ', 1)
                self.globals[nm[1:].strip('"')] = r
            i += 1

    @staticmethod
    def _fname(l):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l)
        return m.group(1).strip('"')

    def named_type(self, n):
        t = self.named.get(n)
        if t is None:
            src = self._ntypes_src[n]
            if src.strip() == 'opaque': t = ty('opaque', n)
            else:
                self.named[n] = ty('namedrec', n)
                t = Parser(self, tokenize(src)).type()
            self.named[n] = t
        return t

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            src = self.fn_src.get(name)
            if src is None: return None
            f = parse_function(self, name, *src)
            self.fns[name] = f
        return f

    # ---- layout
    def size(self, t):
        if t._sz is not None: return t._sz
        k = t.k
        if k == 'ptr': r = 8
        elif k == 'i': r = max(1, (t.a[0] + 7) // 8); r = {1:1,2:2,3:4,4:4}.get(r, (r + 7)//8*8)
        elif k == 'double': r = 8
        elif k == 'float': r = 4
        elif k == 'x86_fp80': r = 16
        elif k == 'arr': r = t.a[0] * self.size(t.a[1])
        elif k == 'vec': r = t.a[0] * self.size(t.a[1])
        elif k == 'name': r = self.size(self.named_type(t.a[0]))
        elif k in ('struct', 'packed'):
            self.offs(t); return t._sz
        elif k == 'void': r = 0
        else: raise ValueError('size of %r' % t)
        t._sz = r
        return r
    def align(self, t):
        k = t.k
        if k == 'arr': return self.align(t.a[1])
        if k == 'name': return self.align(self.named_type(t.a[0]))
        if k == 'struct': return max([self.align(x) for x in t.a[0]] or [1])
        if k == 'packed': return 1
        return max(1, self.size(t))
    def offs(self, t):
        if t.k == 'name': return self.offs(self.named_type(t.a[0]))
        if t._offs is not None: return t._offs
        o = 0; r = []
        al = 1
        for x in t.a[0]:
            if t.k == 'struct':
                a = self.align(x); al = max(al, a)
                o = (o + a - 1) // a * a
            r.append(o); o += self.size(x)
        if t.k == 'struct': o = (o + al - 1) // al * al
        t._offs = r; t._sz = o
        return r
    def resolve(self, t):
        while t.k == 'name': t = self.named_type(t.a[0])
        return t

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')
    def __init__(self, op, dst, ty, a, x=None): self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x
    def __repr__(self): return '%s = %s %s %s %s' % (self.dst, self.op, self.ty, self.a, self.x)

class Function:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'loops', 'src')
    # params: list of (name, type, byval type or None)

class Block:
    __slots__ = ('name', 'insts', 'phis', 'fn')

VALUE_KW = {'null','true','false','undef','poison','zeroinitializer','none','getelementptr','ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast','sub','add','mul','xor','and','or'}
PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated', 'range', 'nofpclass', 'allocsize', 'memory'}

class Parser:
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('eof', '')
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v: self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
    def is_type(self):
        k, v = self.peek()
        if k == 'loc': return False
        return (k == 'id' and (v in ('ptr', 'void', 'double', 'float', 'half', 'label', 'metadata', 'opaque', 'x86_fp80', 'token') or re.fullmatch(r'i\d+', v))) or v in ('[', '{', '<')
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr': 
                if self.peek()[1] == 'addrspace': self.next(); self.exp('('); self.next(); self.exp(')')
                return PTR
            m = re.fullmatch(r'i(\d+)', v)
            if m: return ty('i', int(m.group(1)))
            return ty(v)
        if k == 'loc': return ty('name', v[1:].strip('"'))
        if v == '[':
            n = int(self.next()[1]); self.exp('x'); t = self.type(); self.exp(']'); return ty('arr', n, t)
        if v == '{': return self._struct('struct', '}')
        if v == '<':
            if self.peek()[1] == '{':
                self.next(); t = self._struct('packed', '}'); self.exp('>'); return t
            n = int(self.next()[1]); self.exp('x'); t = self.type(); self.exp('>'); return ty('vec', n, t)
        raise SyntaxError('type %r' % ((k, v),))
    def _struct(self, kind, close):
        ts = []
        if not self.acc(close):
            while True:
                ts.append(self.type())
                if self.acc(close): break
                self.exp(',')
        return ty(kind, tuple(ts))
    # ---- operands: ('r',name) or ('c',value descriptor)
    def value(self, t):
        k, v = self.next()
        if k == 'loc': return ('r', v[1:].strip('"'))
        if k == 'glob': return ('g', v[1:].strip('"'))
        if k == 'num':
            if t.k in ('double', 'float'): return ('f', float(v))
            return ('i', int(v))
        if k == 'hex':
            if v[2] in 'KLMH': return ('undef', t)
            return ('f', struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0])
        if k == 'str':
            s = v[2:-1]
            b = bytearray(); j = 0
            while j < len(s):
                if s[j] == '\\': b.append(int(s[j+1:j+3], 16)); j += 3
                else: b.append(ord(s[j])); j += 1
            return ('bytes', bytes(b))
        if k == 'id':
            if v == 'null': return ('null',)
            if v == 'true': return ('i', 1)
            if v == 'false': return ('i', 0)
            if v in ('undef', 'poison'): return ('undef', t)
            if v == 'zeroinitializer': return ('zero', t)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                if self.acc('inrange'):
                    self.exp('('); 
                    while not self.acc(')'): self.next()
                self.exp('('); bt = self.type(); self.exp(',')
                pt = self.type(); base = self.value(pt); idx = []
                while self.acc(','):
                    self.acc('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.exp(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); ft = self.type(); x = self.value(ft); self.exp('to'); tt = self.type(); self.exp(')')
                return ('cast', v, ft, x, tt)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or'):
                while self.peek()[1] in ('nuw', 'nsw'): self.next()
                self.exp('('); t1 = self.type(); a = self.value(t1); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('bin', v, t1, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.value(t)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            xs = []
            if not self.acc(close):
                while True:
                    t2 = self.type(); xs.append((t2, self.value(t2)))
                    if self.acc(close): break
                    self.exp(',')
            return ('agg', t, xs)
        if v == '<':
            if self.acc('{'):
                xs = []
                while True:
                    t2 = self.type(); xs.append((t2, self.value(t2)))
                    if self.acc('}'): break
                    self.exp(',')
                self.exp('>')
                return ('agg', t, xs)
            xs = []
            while True:
                t2 = self.type(); xs.append((t2, self.value(t2)))
                if self.acc('>'): break
                self.exp(',')
            return ('agg', t, xs)
        raise SyntaxError('value %r in %s' % ((k, v), ' '.join(x[1] for x in self.t)[:300]))
    def skip_attrs(self):
        """parameter/return attributes; returns byval type if any"""
        bv = None
        while True:
            k, v = self.peek()
            if k == 'id' and not self.is_type() and v not in VALUE_KW:
                self.next()
                if v in PARAM_ATTR_ARG:
                    if self.acc('('):
                        if v in ('byval', 'sret', 'elementtype', 'byref'):
                            t = self.type()
                            if v == 'byval': bv = t
                            self.exp(')')
                        else:
                            d = 1
                            while d:
                                x = self.next()[1]
                                if x == '(': d += 1
                                elif x == ')': d -= 1
                    else: self.next()
                continue
            if k == 'attr' or k == 'str': self.next(); continue
            return bv

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
           'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport', 'dllexport', 'thread_local', 'local_unnamed_addr', 'unnamed_addr',
           'externally_initialized', 'fastcc', 'ccc', 'coldcc', 'noundef', 'define', 'declare', 'zeroext', 'signext', 'nonnull', 'noalias', 'inreg', 'nofree'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds', 'tail', 'musttail', 'notail', 'disjoint', 'nneg', 'volatile', 'samesign', 'nusw', 'atomic'}

def parse_global(m, src):
    p = Parser(m, tokenize(src.split(', comdat')[0].split(', align')[0].split(', section')[0] if '"' not in src else src))
    const = False; ext = False
    while True:
        k, v = p.peek()
        if v in ('external', 'extern_weak'): ext = True
        if v == 'thread_local':
            p.next()
            if p.acc('('): p.next(); p.exp(')')
            continue
        if v in LINKAGE: p.next(); continue
        if v == 'addrspace': p.next(); p.exp('('); p.next(); p.exp(')'); continue
        break
    k, v = p.next()
    if v == 'alias':
        t = p.type()
        if p.acc('('):
            while not p.acc(')'): p.next()
        p.exp(','); p.type(); return ('alias', p.value(PTR))
    const = v == 'constant'
    if v not in ('constant', 'global'): raise SyntaxError('global ' + src[:100])
    t = p.type()
    if ext or p.peek()[1] in (',', ''): return ('ext', t)
    return ('const' if const else 'var', t, p.value(t))

def parse_function(m, name, header, body):
    f = Function(); f.name = name
    toks = tokenize(header[:-1] if header.endswith('{') else header)
    p = Parser(m, toks)
    while p.peek()[1] in LINKAGE or p.peek()[0] == 'id' and not p.is_type():
        v = p.next()[1]
        if p.peek()[1] == '(':
            d = 0
            while True:
                x = p.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        elif v == 'align': p.next()
    f.ret = p.type()
    p.next()  # name
    p.exp('(')
    f.params = []
    n = 0
    if not p.acc(')'):
        while True:
            if p.peek()[0] == 'dots': p.next()
            else:
                t = p.type(); bv = p.skip_attrs()
                k, v = p.peek()
                if k == 'loc': p.next(); nm = v[1:].strip('"')
                else: nm = str(n)
                n += 1
                f.params.append((nm, t, bv))
            if p.acc(')'): break
            p.exp(',')
    f.blocks = {}; f.order = []; f.loops = None
    # join continuation lines
    lines = []
    buf = None
    for l in body:
        s = l.strip()
        if not s or s.startswith(';'): continue
        if buf is not None:
            buf += ' ' + s
            if (buf_kind == 'invoke' and 'unwind label' in s) or (buf_kind == 'switch' and s.endswith(']')):
                lines.append(buf); buf = None
            continue
        if re.match(r'(%\S+ = )?invoke ', s) and 'unwind label' not in s: buf = s; buf_kind = 'invoke'; continue
        if s.startswith('switch ') and not s.endswith(']'): buf = s; buf_kind = 'switch'; continue
        if s.startswith(('cleanup', 'catch ', 'filter ')) and lines and 'landingpad' in lines[-1]:
            lines[-1] += ' ' + s; continue
        lines.append(s)
    cur = None
    # number of unnamed params determines the entry label
    entry = None
    def newblock(nm):
        b = Block(); b.name = nm; b.insts = []; b.phis = []; b.fn = f
        f.blocks[nm] = b; f.order.append(nm)
        return b
    for s in lines:
        mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', s)
        if mm:
            cur = newblock(mm.group(1).strip('"')); continue
        if cur is None:
            cur = newblock(str(len([1 for q in f.params if q[0].isdigit()])))
        ins = parse_inst(m, s)
        if ins is None: continue
        if ins.op == 'phi': cur.phis.append(ins)
        else: cur.insts.append(ins)
    return f

MD = re.compile(r', ![-\w$.]+ !(\d+|\{\})')
def parse_inst(m, s):
    s = MD.sub('', s)
    p = Parser(m, tokenize(s))
    dst = None
    if p.peek()[0] == 'loc':
        dst = p.next()[1][1:].strip('"'); p.exp('=')
    op = p.next()[1]
    while op in FMF: op = p.next()[1]
    def fl():
        while p.peek()[1] in FMF: p.next()
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Inst(op, dst, t, (a, b))
    if op == 'fneg':
        fl(); t = p.type(); return Inst(op, dst, t, (p.value(t),))
    if op in ('icmp', 'fcmp'):
        fl(); pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Inst(op, dst, t, (a, b), pred)
    if op == 'load':
        fl(); t = p.type(); p.exp(','); pt = p.type(); return Inst(op, dst, t, (p.value(pt),))
    if op == 'store':
        fl(); t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); return Inst(op, None, t, (v, p.value(pt)))
    if op == 'alloca':
        p.acc('inalloca'); t = p.type(); n = ('i', 1)
        if p.acc(','):
            if p.is_type(): it = p.type(); n = p.value(it)
        return Inst(op, dst, t, (n,))
    if op == 'getelementptr':
        fl(); t = p.type(); p.exp(','); pt = p.type(); base = p.value(pt); idx = []
        while p.acc(','):
            it = p.type(); idx.append(p.value(it))
        return Inst(op, dst, t, (base,) + tuple(idx))
    if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
        fl(); ft = p.type(); v = p.value(ft)
        if op == 'freeze': return Inst(op, dst, ft, (v,), ft)
        p.exp('to'); tt = p.type()
        return Inst(op, dst, tt, (v,), ft)
    if op == 'select':
        fl(); ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Inst(op, dst, t, (c, a, b))
    if op == 'phi':
        fl(); t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); lab = p.next()[1][1:].strip('"'); p.exp(']')
            inc.append((v, lab))
            if not p.acc(','): break
        return Inst(op, dst, t, tuple(inc))
    if op == 'br':
        if p.acc('label'):
            return Inst('br', None, None, (), p.next()[1][1:].strip('"'))
        p.type(); c = p.value(I1); p.exp(','); p.exp('label'); a = p.next()[1][1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1][1:].strip('"')
        return Inst('cbr', None, None, (c,), (a, b))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1][1:].strip('"'); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()[1][1:].strip('"')))
        return Inst('switch', None, t, (v,), (d, cs))
    if op == 'ret':
        t = p.type()
        if t is VOID: return Inst('ret', None, t, ())
        return Inst('ret', None, t, (p.value(t),))
    if op in ('call', 'invoke'):
        fl()
        while p.peek()[1] in LINKAGE or p.peek()[1] in FMF or (p.peek()[0] == 'id' and not p.is_type()):
            v = p.next()[1]
            if p.peek()[1] == '(':
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            elif v == 'align': p.next()
        t = p.type()
        if p.peek()[1] == '(':   # function type (varargs)
            d = 0
            while True:
                x = p.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        if p.peek()[1] == 'asm': return Inst('asm', dst, t, ())
        cal = p.value(PTR)
        p.exp('('); args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    while p.peek()[1] not in (',', ')'): p.next()
                    args.append((at, ('undef', at), None))
                else:
                    bv = p.skip_attrs(); args.append((at, p.value(at), bv))
                if p.acc(')'): break
                p.exp(',')
        x = None
        if op == 'invoke':
            while not p.acc('to'): p.next()
            p.exp('label'); n = p.next()[1][1:].strip('"'); p.exp('unwind'); p.exp('label'); u = p.next()[1][1:].strip('"')
            x = (n, u)
        if cal[0] == 'g' and (cal[1].startswith('llvm.lifetime') or cal[1].startswith('llvm.dbg') or cal[1].startswith('llvm.assume') or cal[1].startswith('llvm.experimental.noalias')): return None
        return Inst(op, dst, t, (cal, args), x)
    if op == 'unreachable': return Inst(op, None, None, ())
    if op == 'resume':
        t = p.type(); return Inst(op, None, t, (p.value(t),))
    if op == 'landingpad':
        t = p.type(); cl = []
        while p.peek()[0] != 'eof':
            k, v = p.next()
            if v == 'cleanup': cl.append(('cleanup', None))
            elif v == 'catch': ct = p.type(); cl.append(('catch', p.value(ct)))
            elif v == 'filter': ct = p.type(); cl.append(('filter', p.value(ct)))
        return Inst(op, dst, t, (), cl)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (v,), tuple(idx))
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); et = p.type(); e = p.value(et); idx = []
        while p.acc(','): idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (v, e), tuple(idx))
    if op == 'fence': return None
    if op == 'atomicrmw':
        fl(); o = p.next()[1]; pt = p.type(); ptr = p.value(pt); p.exp(','); t = p.type(); v = p.value(t)
        return Inst(op, dst, t, (ptr, v), o)
    if op == 'cmpxchg':
        fl(); p.acc('weak'); pt = p.type(); ptr = p.value(pt); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Inst(op, dst, t, (ptr, a, b))
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.exp(','); it = p.type(); return Inst(op, dst, t, (v, p.value(it)))
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.exp(','); et = p.type(); e = p.value(et); p.exp(','); it = p.type(); return Inst(op, dst, t, (v, e, p.value(it)))
    if op == 'shufflevector' or op == 'va_arg': return Inst('unsupported', dst, None, (), s)
    raise SyntaxError('inst ' + s)

# ------------------------------------------------------------- loops
def succs(b):
    if not b.insts: return []
    t = b.insts[-1]
    if t.op == 'br': return [t.x]
    if t.op == 'cbr': return list(t.x)
    if t.op == 'switch': return [t.x[0]] + [c[1] for c in t.x[1]]
    if t.op == 'invoke': return list(t.x)
    return []

def loops_of(f):
    """natural loops: header -> set of blocks"""
    if f.loops is not None: return f.loops
    order = []; seen = set()
    entry = f.order[0]
    stack = [(entry, iter(succs(f.blocks[entry])))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succs(f.blocks[s])))); break
        else:
            order.append(b); stack.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]): preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in preds[b] if q in idom]
            n = ps[0]
            for q in ps[1:]:
                x, y = q, n
                while x != y:
                    while idx[x] > idx[y]: x = idom[x]
                    while idx[y] > idx[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
    f.loops = loops
    return loops

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out): _dem[n] = d
def demangle(n):
    if n not in _dem: demangle_all([n])
    return _dem[n]
