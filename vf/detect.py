"""Replays the histories of Detect.tla with user formats made for the purpose, and records openings of real files for
DetectTrace.tla."""
import os, re, sys, json, shutil, random, fnmatch, resource
import life

STUB = '''
import os
from weio.file import File, WrongFormatError, BrokenFormatError
{imp}
class LocalWrongFormatError(WrongFormatError):
    pass
class {name}(File):
    @staticmethod
    def defaultExtensions():
        return {ext!r}
    @staticmethod
    def formatName():
        return 'format {i}'
{prio}
    def __init__(self, filename=None, **kwargs):
        self.opts = kwargs
        File.__init__(self, filename)
    def _read(self):
{body}
'''
BODY = '''
        v = os.path.basename(self.filename).split('.')[0].split('-')[{i}]
        E = {{'wrong': WrongFormatError, 'sub': LocalWrongFormatError, 'err': ValueError, 'oserr': OSError, 'mem': MemoryError, 'broken': BrokenFormatError, 'key': KeyboardInterrupt, 'attr': AttributeError}}
        if v in E:
            raise E[v]('{name} says ' + v)
        self['who'] = '{name}'
'''
CONTENT = {'table': 'a,b\n1,2\n3,4\n', 'ae': '1 r, chord, T/C, Set no.\n1 3\n0.00 5.0 100.0 1\n1.50 4.0 50.0 1\n3.00 2.5 25.0 1\n', 'free': 'some text\n', 'empty': ''}


def template():
    import weio
    with open(os.path.join(os.path.dirname(os.path.abspath(weio.__file__)), '_NEWFILE_TEMPLATE.py')) as f:
        return f.read().replace('\r\n', '\n')


def module(i, m, exts):
    """The text of user module i (from 1)"""
    name = 'User{}File'.format(i)
    if m['st'] == 'broken':
        return 'import no_such_module_anywhere\nclass {}(object):\n    pass\n'.format(name)
    if m['st'] == 'noclass':
        return 'x = 1\nclass {}Reader(object):\n    pass\n'.format('User{}'.format(i))
    if m['st'] == 'nomethod':
        return 'class {}(dict):\n    pass\n'.format(name)
    if m['st'] == 'init':
        return 'raise Exception("not a module of formats")\n'
    body = BODY.format(i=i - 1, name=name)
    if m['st'] == 'template' and m['p'] >= 1000:
        t = template()
        t2 = re.sub(r'class XXXFile\(', 'class {}('.format(name), t)
        t2 = t2.replace("['.XXX']", repr(exts))
        t3 = re.sub(r'def priority\(\): *return *-?\d+', 'def priority(): return {}'.format(m['p'] - 1100), t2)
        t4 = re.sub(r'(\n    def _read\(self.*\):\n(?:        """.*"""\n)?)', lambda k: k.group(1).replace('(self)', '(self, **kwargs)') + body.replace('LocalWrongFormatError', 'WrongFormatError') + '        return\n', t3)
        if len({t, t2, t3, t4}) == 4:
            return t4
    prio = '' if m['p'] == 999 else '    @staticmethod\n    def priority():\n        ' + ('raise Exception("no idea")' if m['p'] == 998 else 'return {}'.format(m['p'] - 1100))
    return STUB.format(name=name, i=i, ext=exts, prio=prio, body=body, imp='from weio.csv_file import CSVFile as ABaseFile\nfrom weio.file import EmptyFileError' if m['imp'] else '')


EXTS = {'zz': ['.zz'], 'ZZ': ['.q1', '.ZZ'], 'z*': ['.z*'], 'Z*y': ['.Z*Y'], '*': ['*'], 'z$*': ['.z$*'], 'z+': ['.z+'], 'csv': ['.csv'], 'dat': ['.q2', '.DAT'], 'none': [''], 'zip': ['.z']}


def preload():
    """The modules of weio, without asking for its formats"""
    import weio, importlib
    d = os.path.dirname(os.path.abspath(weio.__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith('_file.py'):
            importlib.import_module('weio.' + f[:-3])


def run(payload, root):
    st, v = life.forked(lambda: _run(payload, root), limit=50)
    return (-2, 'harness: ' + v) if st == 'error' else v


def kind(e, who=None):
    import weio
    if isinstance(e, weio.FormatNotDetectedError):
        return 'notdetected'
    if isinstance(e, weio.UserFormatImportError):
        return 'userimport'
    if isinstance(e, weio.EmptyFileError):
        return 'empty'
    m = re.search(r'(User\d+File) says (\w+)', str(e))
    if m and (who is None or m.group(1) == who):
        T = {'wrong': weio.WrongFormatError, 'sub': weio.WrongFormatError, 'err': ValueError, 'oserr': OSError, 'mem': MemoryError, 'broken': weio.BrokenFormatError, 'key': KeyboardInterrupt, 'attr': AttributeError}
        if isinstance(e, T[m.group(2)]):
            return m.group(2)
    if isinstance(e, OSError) and e.errno == 2:
        return 'missing'
    return 'error {}: {}'.format(type(e).__name__, str(e)[:120])


def _run(payload, root):
    mods, ops = payload['mods'], payload['ops']
    rnd = random.Random(json.dumps(payload, sort_keys=True))
    home = os.path.join(root, 'home')
    os.environ['HOME'] = home
    given = ops[0]['op'] == 'list' and 'names' in ops[0] and not any(o['op'] == 'user' for o in ops) and rnd.random() < .5
    ud = os.path.join(root, 'formats') if given else os.path.join(home, '.local', 'share', 'weio')
    os.makedirs(home)
    if mods or rnd.random() < .5:
        os.makedirs(ud)
        order = list(range(1, len(mods) + 1))
        rnd.shuffle(order)
        for i in order:
            m = mods[i - 1]
            with open(os.path.join(ud, '__init__.py' if m['st'] == 'init' else 'fmt{}_file.py'.format(i)), 'w') as f:
                f.write(module(i, m, EXTS[m['e']]))
        if rnd.random() < .5:
            with open(os.path.join(ud, 'readme.txt'), 'w') as f:
                f.write('no module')
    import weio
    made = {}
    for k, op in enumerate(ops):
        if op['op'] in ('open', 'named'):
            f = op['f']
            v = [f['v']] if isinstance(f['v'], str) else f['v'] if isinstance(f['v'], list) else [f['v'][str(i)] for i in range(1, len(mods) + 1)]
            d = os.path.join(root, 'd{}'.format(k))
            os.makedirs(d)
            p = os.path.join(d, '-'.join(v or ['x']) + f['x'])
            if f['c'] != 'missing':
                with open(p, 'w') as fid:
                    fid.write(CONTENT[f['c']])
            kw = {'option': k} if f['c'] == 'free' and rnd.random() < .5 else {}
        try:
            if op['op'] == 'list':
                r = weio.fileFormats(userpath=ud, ignoreErrors=op['ig']) if given and k == 0 else weio.fileFormats(ignoreErrors=op['ig'])
                if op['ig']:
                    if not (isinstance(r, tuple) and len(r) == 2):
                        return (k, 'fileFormats(ignoreErrors=True) does not return formats and errors')
                    r, errs = r
                    if len(errs) != op['errs']:
                        return (k, 'fileFormats reports {} errors instead of {}: {}'.format(len(errs), op['errs'], errs))
                got = [x.constructor.__name__ for x in r]
                if 'names' not in op or got != op['names']:
                    i = next((i for i, (a, b) in enumerate(zip(got, op.get('names', []))) if a != b), min(len(got), len(op.get('names', []))))
                    return (k, 'registry differs from position {}: {} instead of {}'.format(i, got[i:i + 4], op.get('names', [])[i:i + 4]))
                continue
            if op['op'] == 'user':
                sys.modules.pop('weio.user', None)
                import importlib
                m = importlib.import_module('weio.user')
                if 'names' not in op:
                    return (k, 'weio.user: no error for modules that cannot be used')
                lost = [x for x in op['names'] if not hasattr(m, x)]
                if lost:
                    return (k, 'weio.user does not have {}'.format(lost))
                continue
            if op['op'] == 'open':
                o = weio.read(p, **kw)
            else:
                ff = [x for x in weio.fileFormats() if x.constructor.__name__ == op['res']['c']][0]
                o = weio.read(p, fileformat=ff, **kw)
            got = {'k': 'ok', 'c': type(o).__name__}
            if type(o).__name__.startswith('User'):
                if op['op'] == 'open' and o.get('who') != type(o).__name__:
                    return (k, 'an object of {} that was not read'.format(type(o).__name__))
                if o.filename != p:
                    return (k, 'the object of {} is that of {}'.format(p, o.filename))
                if hasattr(o, 'opts') and o.opts != kw:
                    return (k, 'the reader got the options {} instead of {}'.format(o.opts, kw))
                if id(o) in made:
                    return (k, 'the object of an earlier opening')
            made[id(o)] = o
        except (Exception, KeyboardInterrupt) as e:
            want = op.get('res', {}).get('k') or op.get('err')
            who = op['res']['c'] if op.get('res', {}).get('c', '').startswith('User') and want != 'missing' else None
            g = kind(e, who)
            if g != want:
                return (k, '{} {}: {} instead of {}'.format(op['op'], os.path.basename(p) if 'f' in op else '', g, op.get('res', want)))
            continue
        want = op['res']
        if want['k'] != got['k'] or want['c'] != got['c']:
            return (k, 'opening {} gives {} instead of {} (formats {})'.format(os.path.basename(p), got, want, mods))
    return None


# --------------------------------------------------------------------------------
# --- Openings of real files
# --------------------------------------------------------------------------------
def place(s, ext, d, i):
    """The files of sample s in d, the main file under extension ext (None: its own name)"""
    p = life.materialise(s, d)
    if ext is not None:
        q = os.path.splitext(p)[0] + ext
        if os.path.basename(q) != os.path.basename(p):
            os.rename(p, q)
        p = q
    return p


def outcome(f):
    import weio
    try:
        o = f()
    except weio.WrongFormatError:
        return ['wrong', '']
    except weio.FormatNotDetectedError:
        return ['notdetected', '']
    except (Exception, KeyboardInterrupt) as e:
        return ['error ' + type(e).__name__, '']
    return ['ok', type(o).__name__]


def verdicts(payload, root):
    """{class: verdict} of the readers concerned by one file, each in a process of its own"""
    import weio
    s, ext = payload
    p = place(s, ext, os.path.join(root, 'f'), 0)
    x = os.path.splitext(p)[1].lower()
    st, names = life.forked(lambda: [(f.constructor.__name__, f.extensions) for f in weio.fileFormats()], limit=60)
    V = {}
    for c, exts in names:
        if not any(fnmatch.fnmatchcase(x, e.lower()) for e in exts):
            continue
        def one():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            ff = [f for f in weio.fileFormats() if f.constructor.__name__ == c][0]
            return outcome(lambda: ff.constructor(filename=p))
        st, v = life.forked(one, limit=40)
        if st == 'error':
            return {'ext': x, 'drop': v[-200:]}
        V[c] = 'ok' if v[0] == 'ok' else v[0]
    return {'ext': x, 'verdicts': V}


def session(payload, root):
    """Openings of many files, one after another in one process: [outcome]"""
    import weio
    def all_():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        R = []
        for i, (s, ext) in enumerate(payload):
            d = os.path.join(root, 's{}'.format(i))
            p = place(s, ext, d, i)
            R.append(outcome(lambda: weio.read(p)))
            shutil.rmtree(d, ignore_errors=True)
        return R
    st, v = life.forked(all_, limit=280)
    return {'error': v} if st == 'error' else v
