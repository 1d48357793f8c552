"""Check driver: obligations -> evidence / VIOLATION lines."""
import json, os, sys, time, traceback, importlib, subprocess, signal
from . import smt
from .mem import ToolLimit
from .front import FrontError, VERIF, REPO
from . import ir

BUDGET = float(os.environ.get('NLV_BUDGET', '480'))     # seconds for the deductive part; what is not decided by then is undecided
DEADLINE = time.time() + BUDGET
def _alarm(*a): raise ToolLimit('time budget of the check used up')
def arm():
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, max(1.0, DEADLINE - time.time()), 3.0)
def disarm(): signal.setitimer(signal.ITIMER_REAL, 0)

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obl = []          # dict(name, status, backend, detail, cex)
        self.functions = set(); self.assumptions = []; self.bounds = []; self.native = []
        self.covers = 0; self.undecided = []; self.notes = []
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.stats = {}
    def ob(self, name, ok, detail='', cex=None, backend='term-rewriting'):
        """ok: True proved / False failed / None undecided"""
        self.obl.append({'name': name, 'status': 'discharged' if ok else ('failed' if ok is False else 'undecided'), 'backend': backend, 'detail': str(detail)[:3000], 'cex': cex})
        if ok is None: self.undecided.append(name)
        return ok
    def limit(self, name, e):
        self.obl.append({'name': name, 'status': 'undecided', 'backend': '-', 'detail': 'outside the reach of the verifier: %s %s' % (e, getattr(e, 'where', ''))[:2000], 'cex': None})
        self.undecided.append(name)
    def assume(self, s):
        if s not in self.assumptions: self.assumptions.append(s)
    def engine_used(self, eng):
        for f in eng.fn_seen: self.functions.add(f)
        self.stats['loops_summarised'] = self.stats.get('loops_summarised', 0) + eng.loops_summarised
        self.stats['loops_cut'] = self.stats.get('loops_cut', 0) + eng.loops_cut
        self.stats['instructions'] = self.stats.get('instructions', 0) + eng.stepcount
    def failed(self): return [o for o in self.obl if o['status'] == 'failed']

def parallel(ctx, jobs, width=7):
    """run proof jobs (callables taking a Ctx) in forked children and merge what they report"""
    import pickle, select
    disarm()
    pend = list(enumerate(jobs)); live = {}; res = {}
    while pend or live:
        while pend and len(live) < width:
            k, j = pend.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); c = Ctx(ctx.prop, ctx.tier)
                smt.STAT.update(queries=0, time=0.0, unknown=0)
                try:
                    try:
                        arm(); j(c); disarm()
                    except ToolLimit as e: c.limit(getattr(j, 'label', 'engine'), e)
                    except FrontError as e: c.limit('front end', e)
                    except RecursionError as e: c.limit('engine', 'recursion')
                    except MemoryError as e: c.limit('engine', 'memory')
                    except Exception: c.limit('engine', 'internal: %s' % traceback.format_exc()[-1500:])
                    disarm()
                    for o in c.obl: o['cex'] = str(o['cex'])[:3000] if o['cex'] is not None else None
                    d = pickle.dumps(dict(obl=c.obl, functions=c.functions, assumptions=c.assumptions, bounds=c.bounds, covers=c.covers, undecided=c.undecided, notes=c.notes, stats=c.stats, stat=dict(smt.STAT)))
                    with os.fdopen(w, 'wb') as f: f.write(d)
                finally: os._exit(0)
            os.close(w); live[r] = (k, pid, [])
        rs, _, _ = select.select(list(live), [], [], 5)
        if not rs and time.time() > DEADLINE + 30:
            for r in live:
                try: os.kill(live[r][1], signal.SIGKILL)
                except OSError: pass
        for r in rs:
            b = os.read(r, 1 << 20)
            if b: live[r][2].append(b); continue
            k, pid, buf = live.pop(r); os.close(r); os.waitpid(pid, 0)
            try: res[k] = pickle.loads(b''.join(buf))
            except Exception: res[k] = None
    for k in range(len(jobs)):
        d = res.get(k)
        if d is None: ctx.limit(getattr(jobs[k], 'label', 'job %d' % k), 'proof process ended without an answer'); continue
        ctx.obl += d['obl']; ctx.functions |= d['functions']; ctx.covers += d['covers']; ctx.undecided += d['undecided']; ctx.notes += d['notes']
        for a in d['assumptions']: ctx.assume(a)
        for b in d['bounds']:
            if b not in ctx.bounds: ctx.bounds.append(b)
        for a, b in d['stats'].items(): ctx.stats[a] = ctx.stats.get(a, 0) + b
        for a, b in d['stat'].items(): smt.STAT[a] += b

TRUSTED = ['clang 18 front end and opt passes sroa,instsimplify,simplifycfg,lowerswitch,loop-simplify (IR of the real sources)', 'nlv symbolic executor and term rewriter (/verif/nlv)', 'z3 5.3 (python)']

def short(d):
    """demangled name without template arguments and return type"""
    out = []; depth = 0
    d = d.replace('operator<', 'operator\1').replace('operator>', 'operator\2').replace('->', '\3')
    for ch in d:
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif depth == 0: out.append(ch)
    s = ''.join(out)
    p = s.find('(')
    if 'operator' not in s[:p]: s = s[:p].split(' ')[-1] + s[p:]
    elif s.find('nlcglib::') > 0: s = s[s.find('nlcglib::'):]
    return s.replace('\1', '<').replace('\2', '>').replace('\3', '->')
def repo_functions(names):
    """functions of the repository (namespace nlcglib) whose bodies were executed; lambdas are part of the function that creates them"""
    names = [n for n in names if n.startswith(('_ZN7nlcglib', '_ZNK7nlcglib', '_ZZN7nlcglib', '_ZZNK7nlcglib'))]
    ir.demangle_all(names)
    return sorted(x for x in {short(ir.demangle(n))[:160] for n in names} if 'nlcglib::Logger' not in x.split('(')[0] and 'nlcglib::StepLogger' not in x.split('(')[0])   # logger stubs come from overlay/

def split_contract(fns, header):
    """-> (functions of the repository, stand-ins declared by the contract header)"""
    import re
    if not header: return fns, []
    t = open(os.path.join(VERIF, header)).read()
    ids = set(re.findall(r'(?:struct|class)\s+(\w+)', t)) | set(re.findall(r'(\w+)\s*\(', t))
    real = [f for f in fns if re.split(r'::|\(', f)[1] not in ids]
    return real, [f for f in fns if f not in real]

def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    mod = importlib.import_module('nlv.props.' + prop.lower())
    try:
        arm(); mod.deduct(ctx); disarm()
    except FrontError as e: ctx.limit('front end', e)
    except ToolLimit as e: ctx.limit('engine', e)
    except RecursionError as e: ctx.limit('engine', 'recursion: %s' % e)
    except Exception as e:
        ctx.limit('engine', 'internal: %s' % traceback.format_exc()[-1500:])
    disarm()
    failed = ctx.failed()
    nat = None
    if not ctx.obl: ctx.limit('vacuity', 'no obligation generated')
    need_native = failed or ctx.undecided or tier == 'thorough'
    findings = []
    if need_native and hasattr(mod, 'native'):
        try:
            nat = mod.native(ctx, failed)        # list of failing inputs (strings), or None if it could not run
        except Exception as e:
            ctx.notes.append('native replay did not run: ' + traceback.format_exc()[-800:]); nat = None
    viol = None
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rp = VERIF + '/evidence/replay_%s.txt' % prop
    if nat:
        viol = 'VIOLATION property=%s replay=%s' % (prop, rp)
    elif failed:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    if viol:
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for o in failed:
                f.write('\nFAILED OBLIGATION %s\n  back end: %s\n  verifier output: %s\n' % (o['name'], o['backend'], o['detail']))
                if o['cex']: f.write('  counterexample: %s\n' % json.dumps(o['cex'], default=str))
            for n in ctx.undecided: f.write('\nUNDECIDED %s\n' % n)
            if nat:
                f.write('\nFAILING INPUTS ON THE REAL CODE (native replay)\n')
                for x in nat: f.write('  %s\n' % x)
            if hasattr(mod, 'REPLAY_CMD'): f.write('\nreplay: %s\n' % mod.REPLAY_CMD)
    nd = sum(o['status'] == 'discharged' for o in ctx.obl)
    level = getattr(mod, 'LEVEL', 'proof')
    if ctx.undecided: level = 'other'
    by = {}
    for o in ctx.obl: by[o['backend']] = by.get(o['backend'], 0) + (o['status'] == 'discharged')
    ev = {'property': prop, 'tier': tier, 'seed': ctx.seed, 'level': level,
          'coverage': {'obligations': len(ctx.obl), 'discharged': nd, 'checker_cmd': getattr(mod, 'CHECKER', 'python3-vt -m nlv.check %s %s' % (prop, tier)),
                       'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])), 'functions_under_contract': split_contract(repo_functions(ctx.functions), getattr(mod, 'CONTRACT_HEADER', None))[0],
                       'functions_replaced_by_contract': split_contract(repo_functions(ctx.functions), getattr(mod, 'CONTRACT_HEADER', None))[1],
                       'backends': by, 'solver_queries': smt.STAT['queries'], 'solver_time_s': round(smt.STAT['time'], 2), 'solver_unknown': smt.STAT['unknown'],
                       'engine': ctx.stats, 'reachability_covers': ctx.covers,
                       'undecided': ctx.undecided, 'bounded_stand_in': ctx.native, 'bounds': ctx.bounds + list(getattr(mod, 'BOUNDS', [])),
                       'obligation_list': [(o['name'], o['status'], o['backend']) for o in ctx.obl][:400], 'notes': ctx.notes},
          'assumptions': ctx.assumptions + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': [viol] if viol else []}
    if level == 'other': ev['coverage']['explanation'] = '%d of %d obligations discharged deductively; the rest (%s) are outside the reach of the verifier on this tree and were stood in for by bounded native runs of the real code (see bounded_stand_in), never counted as proved' % (nd, len(ctx.obl), ', '.join(ctx.undecided)[:600])
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided, %.1fs' % (prop, len(ctx.obl), nd, len(failed), len(ctx.undecided), time.time() - ctx.t0))
    for o in ctx.obl:
        if o['status'] != 'discharged': print('  %s: %s: %s' % (o['status'].upper(), o['name'], o['detail'][:400]))
    for n in ctx.notes: print('  note:', n[-600:])
    kf = VERIF + '/known_findings.txt'
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('known: property=%s ' % prop): print('KNOWN-FINDING: ' + l[7:].strip())
    if viol:
        print(viol); return 1
    return 0

if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
