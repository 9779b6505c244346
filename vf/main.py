"""check <property> [--tier quick|thorough]      decide one property
   check replay <file>                            re-run one recorded violation"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import json, time, tempfile, shutil, hashlib, importlib, traceback, random
import tlc, pool

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


class ModelError(Exception):
    pass


class Ctx(object):
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.quick = tier == 'quick'
        self.rnd = random.Random(seed)
        self.states = self.transitions = self.replayed = self.validated = 0
        self.runs = []
        self.samples = []
        self.violations = []      # (signature, message, replay dict)
        self.notes = []

    # --- the model side
    def model(self, module, consts=None, init='Init', next='Next', invs=(), props=(), emit='Emit', simulate=None, depth=None,
              workers=1, extra=(), seed=None, heap='6g', timeout=820, spec=None, view=None):
        cfg = ['SPECIFICATION ' + spec] if spec else ['INIT ' + init, 'NEXT ' + next]
        if invs:
            cfg.append('INVARIANTS ' + ' '.join(invs))
        if props:
            cfg.append('PROPERTIES ' + ' '.join(props))
        if emit:
            cfg.append('CONSTRAINT ' + emit)
        if view:
            cfg.append('VIEW ' + view)
        cfg += list(extra)
        try:
            r = tlc.run(module, cfg, self.scratch, consts=consts, simulate=simulate, depth=depth, workers=workers,
                        seed=self.seed if seed is None else seed, heap=heap, timeout=timeout)
        except Exception as e:
            raise ModelError(str(e))
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append({'spec': module + '.tla', 'constants': consts or {}, 'mode': 'simulate' if simulate else 'exhaustive',
                          'distinct_states': r.distinct, 'states_generated': r.generated, 'depth': r.depth,
                          'invariants': list(invs) + list(props), 'behaviours': len(r.emitted)})
        if emit and (not r.emitted or (not simulate and not r.distinct)):
            raise ModelError('the model {} with {} has no behaviours'.format(module, consts))
        return r.emitted

    def parts(self, *fs):
        """The parts of a check (all of them; VERIF_PART picks one while developing)."""
        w = os.environ.get('VERIF_PART')
        return [f for f in fs if not w or f.__name__ == w]

    # --- spec -> code: behaviours of the specification replayed into the implementation
    def replay(self, behaviours, func='interp.replay', name='', limit=60, procs=8, cap=None, payload=lambda b: b):
        bs = behaviours
        if cap is not None and len(bs) > cap:
            bs = self.rnd.sample(bs, cap)
        pl = [payload(b) for b in bs]
        res = pool.run(pl, self.scratch, func=func, limit=limit, procs=procs)
        self.replayed += len(pl)
        if pl and len(self.samples) < 4:
            self.samples.append({'from': name, 'behaviour': json.loads(_clip(pl[len(pl) // 2]))})
        for p, r in zip(pl, res):
            if r is not None:
                self.violate('{}:{}'.format(name, digest(p)), r[1], {'func': func, 'payload': p, 'step': r[0]})
        return res

    # --- code -> spec: traces recorded from the implementation checked against the specification
    def validate(self, module, traces, name='', init='TraceInit', next='TraceNext', invs=('TraceOK',), consts=None, timeout=820, chunk=None):
        """The specification reads the traces from the JSON file named by the environment variable TRACES.
        TraceOK is an invariant; its violation names the trace (variable ti) and the failing clause (variable bad)."""
        import re
        todo = list(range(len(traces)))
        self.validated += len(traces)
        while todo:
            tf = os.path.join(self.scratch, 'traces-{}.json'.format(digest([name, len(todo)])))
            with open(tf, 'w') as f:
                json.dump([traces[i] for i in todo], f)
            r = tlc.run(module, ['INIT ' + init, 'NEXT ' + next, 'INVARIANTS ' + ' '.join(invs)], self.scratch, consts=consts,
                        env={'TRACES': tf}, allow_violation=True, timeout=timeout)
            self.states += r.distinct
            self.transitions += r.generated
            self.runs.append({'spec': module + '.tla', 'mode': 'trace validation', 'traces': len(todo), 'distinct_states': r.distinct,
                              'states_generated': r.generated, 'depth': r.depth, 'invariants': list(invs)})
            if r.violation is None:
                break
            ti = [int(x) for x in re.findall(r'/\\ ti = (\d+)', r.trace)]
            bad = re.findall(r'/\\ bad = "([^"]*)"', r.trace)
            i = todo[ti[-1] - 1] if ti else todo[0]
            self.violate('{}:{}:{}'.format(name, digest(traces[i]), bad[-1] if bad else '?'),
                         'trace rejected by {}: {}'.format(module, bad[-1] if bad else r.trace[:500]),
                         {'func': 'trace', 'payload': {'module': module, 'trace': traces[i]}})
            todo.remove(i)
            if len(self.violations) > 8:
                break

    def violate(self, sig, msg, rep):
        self.violations.append((sig, msg, rep))

    def note(self, s):
        self.notes.append(s)


def _clip(x, n=3000):
    s = json.dumps(x)
    return s if len(s) <= n else json.dumps(s[:n] + ' ...')


def load():
    d = os.path.join(HERE, 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if not k.get('fixed')]


def decide(pid, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf-')
    try:
        ctx = Ctx(pid, tier, seed, scratch)
        home = os.path.join(scratch, 'home')
        os.makedirs(home)
        os.environ['HOME'] = home       # no user formats, no user configuration
        CHECKS[pid](ctx)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    kf = known()
    fresh, listed = [], {}
    for v in ctx.violations:
        m = [k for k in kf if k['property'] == pid and v[0] == k['signature']]
        if m:
            listed[m[0]['what']] = True
        else:
            fresh.append(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': ctx.states, 'transitions': ctx.transitions,
                       'traces_validated_against_impl': ctx.replayed + ctx.validated,
                       'behaviours_replayed_into_code': ctx.replayed, 'recorded_traces_checked_against_spec': ctx.validated,
                       'runs': ctx.runs, 'samples': ctx.samples},
          'assumptions': ctx.notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w in sorted(listed):
        print('KNOWN-FINDING: property={} {}'.format(pid, w))
    if not fresh:
        print('{} {}: held; {} states, {} behaviours replayed, {} traces checked, {:.1f} s'.format(
            pid, tier, ctx.states, ctx.replayed, ctx.validated, time.time() - t0))
        return 0
    seen = set()
    for sig, msg, rep in fresh:
        key = msg[:60]
        if key in seen or len(seen) >= 6:
            continue
        seen.add(key)
        p = os.path.join(ROOT, 'evidence', 'replay', '{}-{}.json'.format(pid, digest([sig])))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            json.dump({'property': pid, 'signature': sig, 'message': msg, 'replay': rep}, f, indent=1)
        print('# [{}] {}'.format(sig, msg[:600]))
        print('VIOLATION property={} replay={}'.format(pid, p))
    print('# {} violations in all'.format(len(fresh)))
    return 1


def setup():
    """Nothing to build: Python and TLA+ run from source.  Says early when a tool is missing."""
    import numpy, pandas
    scratch = tempfile.mkdtemp(prefix='vf-')
    try:
        r = tlc.run('FastOutBig', ['INIT Init', 'NEXT Next', 'INVARIANTS Positions'], scratch,
                    consts=dict(IDs='{2}', NChs='{3}', Blocks='{1}', Extras='{0}'))
        print('TLC works ({} states), numpy {}, pandas {}'.format(r.distinct, numpy.__version__, pandas.__version__))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'replay':
        with open(a[1]) as f:
            v = json.load(f)
        scratch = tempfile.mkdtemp(prefix='vf-')
        try:
            if v['replay']['func'] == 'trace':
                print(json.dumps(v['replay']['payload'], indent=1))
                return 1
            r = pool.run([v['replay']['payload']], scratch, func=v['replay']['func'])
            print(r[0])
            return 1 if r[0] else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if a[0] == 'setup':
        return setup()
    load()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a[0]
    try:
        return decide(pid, tier, seed)
    except ModelError:
        # the specification could not be explored: nothing is known about the code
        traceback.print_exc()
        print('ERROR property={} the specification could not be explored'.format(pid))
        return 2
    except Exception:
        # The verdict is total: code on which the check cannot be carried out does not satisfy the property.
        p = os.path.join(ROOT, 'evidence', 'replay', pid + '-error.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            json.dump({'property': pid, 'message': traceback.format_exc()}, f)
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(pid, p))
        return 1


if __name__ == '__main__':
    sys.modules['main'] = sys.modules['__main__']
    sys.exit(main())
