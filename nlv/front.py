"""Front end: compile a harness that includes the real headers of /repo to LLVM IR, on every run."""
import os, subprocess, tempfile, json, time
from . import ir
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NLV_REPO', '/repo')
class FrontError(Exception): pass
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
CLANG = 'clang++-18'; OPT = 'opt-18'
PASSES = 'function(sroa,instsimplify,simplifycfg<no-keep-loops>,lowerswitch,loop-simplify)'

def overlay_yaml(extra, d):
    roots = [(REPO + '/src/utils/logger.hpp', VERIF + '/overlay/logger.hpp'), (REPO + '/src/utils/step_logger.hpp', VERIF + '/overlay/step_logger.hpp')]
    for k, v in (extra or {}).items(): roots.append((REPO + '/src/' + k, VERIF + '/overlay/' + v))
    y = {'version': 0, 'roots': [{'type': 'file', 'name': a, 'external-contents': b} for a, b in roots]}
    p = os.path.join(d, 'ov.yaml')
    json.dump(y, open(p, 'w'))
    return p

def frontend_cmd(src, out, ov, defs=(), inc=()):
    return [CLANG, '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-ffp-contract=off', '-DNDEBUG', '-DOMPI_SKIP_MPICXX=1', '-S', '-emit-llvm', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
            '-ivfsoverlay', ov, '-I' + VERIF + '/model', '-I' + VERIF + '/harness', '-I' + REPO + '/src', '-I' + REPO + '/include'] + MPI_INC + list(inc) + ['-D' + d for d in defs] + ['-w', src, '-o', out]

def build(harness, overlay=None, defs=()):
    """-> ir.Module"""
    src = harness if os.path.isabs(harness) else os.path.join(VERIF, 'harness', harness)
    with tempfile.TemporaryDirectory(prefix='nlv') as d:
        ov = overlay_yaml(overlay, d)
        os.symlink(REPO + '/src', os.path.join(d, 'nlv_real'))
        a = os.path.join(d, 'a.ll'); b = os.path.join(d, 'b.ll')
        t0 = time.time()
        r = subprocess.run(frontend_cmd(src, a, ov, defs, ['-I' + d]), capture_output=True, text=True)
        if r.returncode: raise FrontError('front end failed:\n' + r.stderr[:4000])
        r = subprocess.run([OPT, '-S', '-passes=' + PASSES, a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise FrontError('opt failed:\n' + r.stderr[:2000])
        m = ir.Module(open(b).read())
        ir.demangle_all(list(m.fn_src) + list(m.decl))
        m.build_s = time.time() - t0
        return m
