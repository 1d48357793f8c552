from .. import front, exec as X, smearlaw as SL, prove
from ..terms import *
from ..mem import ToolLimit
def paths_of(ctx, m, fname):
    e = X.Engine(m); st = X.State(e)
    e.call_fn(st, fname, [SL.x, SL.mo])
    st.assume(gt(SL.mo, ZERO))
    out = []
    for F in e.run(st):
        pc = [f for f in F.st.pc if f is not gt(SL.mo, ZERO)]
        out.append((pc, F.val if F.kind == 'ret' else (F.kind, F.val)))
    ctx.engine_used(e)
    return out

import re
_SM = re.compile(r'^(?:nlcglib::)(fermi_dirac|gaussian_spline|gauss_smearing|methfessel_paxton_smearing|cold_smearing)::(fn|delta|dxdelta|entropy)\(double, double\)$')
def abstract_smearing(e):
    """callers are checked against the contracts of the smearing functions (C03-C05): their values are uninterpreted here"""
    def mk(nm):
        def h(eng, st, a, i):
            from ..mem import UNDEF
            if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
            if eng.mode == 'R': return fn(nm, P(a[0]), P(a[1]))
            return mk_fl('uf', nm, a[0], a[1])
        return h
    from .. import ir
    names = list(e.m.fn_src); ir.demangle_all(names)
    n = 0
    for f in names:
        m = _SM.match(ir.demangle(f))
        if m: e.builtins[f] = mk('%s.%s' % m.groups()); n += 1
    return n
