"""Regenerates vf/samples.json: for every class of file, the files of a few behaviours of the specifications.
   python3 tools/mksamples.py      (takes some minutes; runs the quick models of the format checks, replays nothing)"""
import os, sys, json, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
sys.argv = sys.argv[:1]
import main, pool
sys.modules['main'] = main
got = {}
MK = ('mkfile', 'mktext', 'mkbook', 'mkparquet', 'mknc', 'mktdms', 'mkdir')
PER, MAXLEN = 8, 20000


def first(ops):
    """(class, main file, file-making operations) of the first plain opening in a behaviour"""
    mk = []
    for op in ops:
        if op['op'] in MK:
            mk.append(op)
        elif op['op'] in ('open', 'weioread'):
            if op.get('kw') or op.get('err') or op.get('orerr') or not mk:
                return None
            if any(x.get('path') == op['path'] for x in mk):
                return op['cls'], op['path'], mk
            return None
        else:
            return None


def run(payloads, scratch, func='interp.replay', **kw):
    rnd = random.Random(7)
    for p in rnd.sample(payloads, min(len(payloads), 400)):
        if func != 'interp.replay':
            continue
        f = first(p)
        if f is None:
            continue
        s = json.dumps(f[2], sort_keys=True)
        if len(s) <= MAXLEN:
            got.setdefault(f[0], {}).setdefault(os.path.basename(f[1]), {})[s] = f
    return [None] * len(payloads)


pool.run = run
main.load()
import tempfile, shutil
for pid in sorted(main.CHECKS):
    if pid in ('C01', 'C02', 'C03', 'C04', 'C05'):
        continue
    scratch = tempfile.mkdtemp(prefix='vf-')
    try:
        main.CHECKS[pid](main.Ctx(pid, 'quick', 1, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(pid, {c: sum(len(v) for v in d.values()) for c, d in got.items()}, flush=True)
out = {}
rnd = random.Random(11)
for c, byname in sorted(got.items()):
    if c in ('FASTInputDeck', 'GraphModel'):
        continue
    pick = []
    # several files of the same name, so that one can take the place of another
    names = sorted(byname, key=lambda k: (-len(byname[k]), k))
    for k in names[:3]:
        ss = sorted(byname[k])
        pick += rnd.sample(ss, min(len(ss), PER if k == names[0] else 2))
    out[c] = [{'main': byname_f[1], 'mk': byname_f[2]} for byname_f in (next(byname[k][s] for k in names if s in byname[k]) for s in pick)]
with open(os.path.join(ROOT, 'vf', 'samples.json'), 'w') as f:
    f.write('{\n' + ',\n'.join('{}: [\n{}\n]'.format(json.dumps(c), ',\n'.join(json.dumps(x, sort_keys=True) for x in v)) for c, v in sorted(out.items())) + '\n}\n')
print({c: len(v) for c, v in out.items()})
