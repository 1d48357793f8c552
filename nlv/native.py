"""Native replay: compile a driver against the real headers and real Kokkos/MPI/BLAS, run it."""
import os, subprocess, tempfile, shutil, signal
from .front import VERIF, REPO
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm='isolated', OMPI_MCA_oob_tcp_if_include='lo', OPENBLAS_NUM_THREADS='1')
FLAGS = ['-std=c++17', '-O1', '-w', '-DOMPI_SKIP_MPICXX=1', '-I/usr/include/trilinos', '-I' + REPO + '/src', '-I' + REPO + '/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
LIBS = ['-ltrilinos_kokkoscore', '-ltrilinos_kokkoscontainers', '-ltrilinos_kokkosalgorithms', '-llapacke', '-lopenblas', '-lmpi', '-ldl', '-lpthread']
def build(src, d, extra=(), lib=False):
    exe = os.path.join(d, 'drv')
    srcs = [os.path.join(VERIF, 'native', src)] + ([REPO + '/src/nlcglib.cpp'] if lib else [])
    if lib:
        import concurrent.futures as cf
        objs = []
        def comp(s):
            o = os.path.join(d, os.path.basename(s) + '.o')
            r = subprocess.run(['g++'] + FLAGS + list(extra) + ['-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode: raise RuntimeError('native build: ' + r.stderr[:1500])
            return o
        with cf.ThreadPoolExecutor(4) as ex: objs = list(ex.map(comp, srcs))
        r = subprocess.run(['g++'] + objs + ['-o', exe] + LIBS, capture_output=True, text=True)
    else:
        r = subprocess.run(['g++'] + FLAGS + list(extra) + srcs + ['-o', exe] + LIBS, capture_output=True, text=True)
    if r.returncode and 'NLV_NO_EXTRA' in open(srcs[0]).read() and '-DNLV_NO_EXTRA' not in extra: return build(src, d, list(extra) + ['-DNLV_NO_EXTRA'], lib)
    if r.returncode: raise RuntimeError('native build failed: ' + r.stderr[:1500])
    return exe
def kin(exe, sid):
    """processes of this run: those executing the driver built for it, or in its session"""
    out = []
    for q in os.listdir('/proc'):
        if not q.isdigit() or int(q) in (os.getpid(), sid): continue
        try:
            if os.readlink('/proc/%s/exe' % q).split(' (deleted)')[0] == exe or int(open('/proc/%s/stat' % q).read().rsplit(')', 1)[1].split()[3]) == sid: out.append(int(q))
        except (OSError, IndexError, ValueError): pass
    return out
def run1(exe, d, args, np, timeout, env):
    cmd = [exe] + [str(a) for a in args]
    if np > 1: cmd = ['mpirun', '-np', str(np)] + cmd
    e = dict(ENV); e.update(env or {})
    out, err = os.path.join(d, 'out.txt'), os.path.join(d, 'err.txt')
    with open(out, 'w') as fo, open(err, 'w') as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e, cwd=d, start_new_session=True)
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: rc = None
        # whatever the run left behind goes with it
        for x in kin(exe, p.pid):
            try: os.kill(x, signal.SIGKILL)
            except OSError: pass
        if rc is None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
    print(open(err).read()[-1500:]) if os.environ.get("NLV_SHOW") else 0
    class r: stdout = open(out, errors='replace').read(); stderr = open(err, errors='replace').read(); returncode = rc
    if rc is None: return ['driver did not terminate within %ds: %s' % (timeout, r.stdout[-300:])], 0
    fails = [l[5:].strip() for l in r.stdout.split('\n') if l.startswith('FAIL ')]
    done = [l for l in r.stdout.split('\n') if l.startswith('DONE')]
    if r.returncode < 0 or (r.returncode not in (0, 1) and not done): fails.append('driver died with status %s: %s' % (r.returncode, (r.stderr or r.stdout)[-500:]))
    elif not done and not fails: raise RuntimeError('native driver gave no answer: ' + (r.stderr or r.stdout)[-600:])
    n = 0
    for l in done:
        try: n += int(l.split()[1])
        except Exception: pass
    return fails[:20], n
def run(src, args=(), extra=(), lib=False, np=1, timeout=200, env=None):
    """-> list of FAIL lines (first 20); raises if the driver cannot be built or reports nothing.  np: number of ranks, or a tuple of them"""
    d = tempfile.mkdtemp(prefix='nlvnat')
    try:
        exe = build(src, d, extra, lib)
        fails = []; n = 0
        for q in (np if isinstance(np, (tuple, list)) else (np,)):
            f, k = run1(exe, d, args, q, timeout, env); fails += f; n += k
            if f: break
        return fails[:20], n
    finally: shutil.rmtree(d, ignore_errors=True)
def standin(ctx, src, args=(), what='', **kw):
    fails, n = run(src, args, **kw)
    ctx.native.append({'driver': src, 'args': [str(a) for a in args], 'cases': n, 'failures': len(fails), 'what': what, 'label': 'bounded'})
    return fails
