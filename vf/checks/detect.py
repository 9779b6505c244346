import os
from main import check
import pool
FOREIGN = ['.dat', '.txt', '.csv', '.out', '.sum', '.yaml', '.lin', '.wnd', '.htc', '.st', '.pc', '.ae', '.pwr', '.ind', '.cmb', '.sel', '.pro', '.bld', '.00X', '.wko', '.doc', '.elm', '.zzz', '', '.$04', '.vtk']
# a sample of these keeps its name: the extension says how it is written
ASIS = {'FASTOutputFile', 'MannBoxFile', 'TurbSimFile', 'BladedFile', 'HAWC2DatFile', 'VTKFile', 'ExcelFile'}


def users(ctx):
    q = ctx.quick
    base = dict(Exts='{"zz"}', Prios='{999}', Verdicts='{"ok","wrong","err"}', FileExts='{".zz"}', Contents='{"free"}', Bad='{}', NMods='{2}', Imps='{FALSE}', Sts='{"ok"}', Ops='{"open"}', K='1')
    inv = dict(invs=['Stable', 'Outcomes'], props=['Kept'])
    b = []
    # three formats for one extension: every order of priorities, every combination of verdicts
    b += ctx.model('Detect', dict(base, Prios='{999,1100,1102}', NMods='{3}', Verdicts='{"ok","wrong","err"}'), **inv)
    # every kind of error
    b += ctx.model('Detect', dict(base, Sts='{"ok","template"}', Verdicts='{"ok","wrong","sub","err","oserr","mem","broken","key","attr"}', Prios='{1105}', Imps='{FALSE,TRUE}'), **inv)
    # extensions and patterns
    b += ctx.model('Detect', dict(base, Exts='{"zz","ZZ","z*","Z*y","*","z$*","z+","none","zip"}', FileExts='{".zz",".ZZ",".zzy",".Zay",".z$1",".z+",".zz+","",".z",".q1",".xz"}', NMods='{1,2}', Verdicts='{"ok","wrong"}', Prios='{999}' if q else '{999,1090}'), **inv)
    # user formats among the built-in ones
    b += ctx.model('Detect', dict(base, Exts='{"csv","dat","*"}', FileExts='{".csv",".CSV",".dat",".Dat"}', Contents='{"table","ae","missing","empty"}', Prios='{998,999,1099,1100,1110,1115,1120,1130,1131,1200}', NMods='{1}', Verdicts='{"ok","wrong","err"}', Sts='{"ok","template"}', Imps='{FALSE,TRUE}'), **inv)
    b += ctx.model('Detect', dict(base, Exts='{"csv","dat"}', FileExts='{".csv",".dat"}', Contents='{"table","ae"}', Prios='{1099,1100,1125,1130}', NMods='{2}', Verdicts='{"ok","wrong","err"}'), **inv)
    # histories: listing, modules that cannot be used, formats given by the caller
    h = dict(base, Ops='{"list","open","named","user"}', Bad='{"broken","noclass","nomethod","init"}', Prios='{999,1095}', Verdicts='{"ok","wrong"}', NMods='{0,1,2}', K='2')
    b += ctx.model('Detect', dict(h, NMods='{0,1}', FileExts='{".zz",".yy"}', Verdicts='{"ok","wrong","sub","err"}', Imps='{FALSE,TRUE}'), **inv)
    b += ctx.model('Detect', dict(h, K='2', NMods='{2}', Prios='{999}'), **inv)
    # openings one after another
    b += ctx.model('Detect', dict(base, K='4', NMods='{2}', Prios='{999,1101}', FileExts='{".zz",".csv"}', Contents='{"free","table","missing"}', Exts='{"zz","*"}', Verdicts='{"ok","wrong","sub"}' if q else '{"ok","wrong","sub","err"}', Imps='{TRUE}'),
                   init='SimInit', next='SimNext', simulate=800 if q else 30000, depth=6, **inv)
    b += ctx.model('Detect', dict(h, K='5', NMods='{2,3}', Contents='{"free","table","ae","empty","missing"}', FileExts='{".zz",".Zz",".csv",".dat",".y"}', Exts='{"zz","ZZ","z*","csv","dat","*"}', Prios='{998,999,1095,1100,1125,1160}', Verdicts='{"ok","wrong","sub","err","broken"}', Sts='{"ok","template"}'),
                   init='SimInit', next='SimNext', simulate=1500 if q else 60000, depth=9, **inv)
    import detect
    detect.preload()
    ctx.replay(b, func='detect.run', name='users', cap=5000 if q else 120000)


def files(ctx):
    import life, detect
    q = ctx.quick
    life.warm()
    detect.preload()
    S = life.load_samples()
    todo = []      # sample, extension, own class
    for c in sorted(S):
        v = S[c]
        exts = []
        for x in EXT.get(c, []):
            exts += [x, x.upper()]
        for i, s in enumerate(v):
            e = os.path.splitext(s['main'])[1]
            own = c if any(_m(e, x) for x in EXT[c]) and not (c == 'ROSCOPerformanceFile') else ''
            todo.append((s, None, own))
            single = len(s.get('ex', [0])) == 1 and (len(s.get('mk', [0])) == 1 or 'ex' in s)
            if not single or c in ASIS:
                continue
            for x in exts:
                if '*' in x or '.txt' == x.lower() != e.lower() or (q and ctx.rnd.random() < .6):
                    continue
                todo.append((s, x, own))
            if i in (0, len(v) // 2, len(v) - 1) or not q:
                for x in (ctx.rnd.sample(FOREIGN, 6) if q else FOREIGN):
                    if _text(s) and x.lower() not in [y.lower() for y in exts]:
                        todo.append((s, x, ''))
    pl = [[s, x] for s, x, own in todo]
    res = pool.run(pl, ctx.scratch, func='detect.verdicts', limit=600, chunk=4)
    keep, dropped = [], 0
    for (s, x, own), r in zip(todo, res):
        if isinstance(r, dict) and 'verdicts' in r:
            keep.append((s, x, own, r))
        else:
            dropped += 1
    ctx.note('{} openings of real files; {} left out because a reader gave no answer'.format(len(keep), dropped))
    # two sessions open every file, in different orders
    order = [list(range(len(keep))) for _ in range(2)]
    sess = []
    for o in order:
        ctx.rnd.shuffle(o)
        sess += [o[i:i + 60] for i in range(0, len(o), 60)]
    out = pool.run([[[keep[i][0], keep[i][1]] for i in o] for o in sess], ctx.scratch, func='detect.session', limit=300, chunk=1)
    traces, src = [], []
    for o, r in zip(sess, out):
        if not isinstance(r, list):
            ctx.violate('session', 'opening files one after another: {}'.format(r), {'func': 'detect.session', 'payload': [[keep[i][0], keep[i][1]] for i in o]})
            continue
        traces.append([{'ext': keep[i][3]['ext'], 'own': keep[i][2], 'verdicts': dict(keep[i][3]['verdicts'], none='wrong'), 'out': {'k': a, 'c': c}, 'file': keep[i][0]['id']} for i, (a, c) in zip(o, r)])
    ctx.validate('DetectTrace', traces, name='files')


def _m(e, x):
    import fnmatch
    return fnmatch.fnmatchcase(e.lower(), x.lower())


def _text(s):
    import life
    if 'ex' in s:
        with open(os.path.join(life.examples_dir(), s['main']), 'rb') as f:
            return b'\0' not in f.read(4000)
    return all(o['op'] == 'mktext' for o in s['mk'])


EXT = {'CSVFile': ['.csv', '.txt'], 'ExcelFile': ['.xls', '.xlsx'], 'TecplotFile': ['.dat'], 'BladedFile': ['.%*', '.$*'], 'FASTInputFile': ['.dat', '.fst', '.txt', '.fstf'],
       'FASTOutputFile': ['.out', '.outb', '.elm', '.elev'], 'FASTWndFile': ['.wnd'], 'FASTLinearizationFile': ['.lin'], 'FASTSummaryFile': ['.sum', '.yaml'], 'TurbSimTSFile': ['.txt'],
       'TurbSimFile': ['.bts'], 'HAWC2DatFile': ['.dat', '.sel'], 'HAWC2HTCFile': ['.htc'], 'HAWC2StFile': ['.st', '.dat'], 'HAWC2PCFile': ['.dat', '.pc', '.txt'], 'HAWC2AEFile': ['.dat', '.ae', '.txt'],
       'HAWCStab2PwrFile': ['.pwr', '.txt'], 'HAWCStab2IndFile': ['.ind', '.txt'], 'HAWCStab2CmbFile': ['.cmb'], 'MannBoxFile': ['.u', '.v', '.w', '.bin'], 'FLEXBladeFile': ['.bld', '.bla', '.00X'],
       'FLEXProfileFile': ['.pro', '.00X'], 'FLEXOutFile': ['.res', '.int'], 'FLEXWaveKinFile': ['.wko'], 'FLEXDocFile': ['.out', '.doc'], 'BModesOutFile': ['.out'], 'ROSCOPerformanceFile': ['.txt'],
       'NetCDFFile': ['.nc'], 'VTKFile': ['.vtk', '.vtp'], 'TDMSFile': ['.tdms'], 'ParquetFile': ['.parquet'], 'CactusFile': ['.in'], 'RAAWMatFile': ['.mat']}


@check('C01')
def c01(ctx):
    for f in ctx.parts(users, files):
        f(ctx)
