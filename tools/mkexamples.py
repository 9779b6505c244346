"""Regenerates vf/examples.json (which class reads which example file of the repository, with the files of the same stem)
   and vf/attrs.json (the public attributes of objects of each class).  Run on the reference tree only."""
import os, sys, json, warnings, collections
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'vf'), os.environ.get('VERIF_REPO', '/repo')]
warnings.simplefilter('ignore')
import life, weio, tempfile, shutil
ex = life.examples_dir()
# constants of the class, and working variables of a reader
SCRATCH = {'FASTWndFile': {'units'}, 'VTKFile': {'active', 'c', 'ct', 'num_items', 'num_offsets', 'num_points', 'section', 'split', 'data_name', 'ndim', 'dtype'}}
files = sorted(f for f in os.listdir(ex) if os.path.isfile(os.path.join(ex, f)) and 'TMP' not in f and os.path.getsize(os.path.join(ex, f)) < 400000)
E = collections.OrderedDict()
devnull = open(os.devnull, 'w')
for f in files:
    so, sys.stdout = sys.stdout, devnull
    try:
        o = weio.read(os.path.join(ex, f))
        c = type(o).__name__
    except Exception as e:
        c = None
    finally:
        sys.stdout = so
    if f.startswith('RoscoPerf'):
        c = 'ROSCOPerformanceFile'
    if c is None:
        print('not read:', f)
        continue
    stem = os.path.splitext(f)[0]
    E.setdefault(c, []).append({'main': f, 'ex': [g for g in files if os.path.splitext(g)[0] == stem]})
json.dump(E, open(os.path.join(ROOT, 'vf', 'examples.json'), 'w'), indent=0, sort_keys=True)
print({c: len(v) for c, v in E.items()})
if os.path.isfile(os.path.join(ROOT, 'vf', 'samples.json')):
    A = {}
    for c, ss in life.load_samples().items():
        C = life.classes().get(c)
        names = set()
        for s in ss if C else []:
            d = tempfile.mkdtemp()
            so, sys.stdout = sys.stdout, devnull
            try:
                o = C(life.materialise(s, d))
                names |= {k for k in vars(o) if not k.startswith('_') and k != 'filename'}
            except Exception as e:
                sys.stderr.write('{} {}: {}\n'.format(c, s['main'], e))
            finally:
                sys.stdout = so
                shutil.rmtree(d)
        A[c] = sorted(names - SCRATCH.get(c, set()))
    json.dump(A, open(os.path.join(ROOT, 'vf', 'attrs.json'), 'w'), indent=0, sort_keys=True)
    print(A)
