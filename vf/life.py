"""Replays the histories of Lifecycle.tla for every format: the data [s, d] of the specification are what an object of the
class holds that read sample s in a process of its own, and was written and read back d times."""
import os, sys, re, io, json, glob, shutil, pickle, hashlib, signal, warnings, zipfile, tempfile, traceback, collections
import numpy as np
import pandas as pd
HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ('items', 'attrs', 'keys', 'repr', 'df')


# --------------------------------------------------------------------------------
# --- Classes and samples
# --------------------------------------------------------------------------------
def classes():
    import weio
    return {f.constructor.__name__: f.constructor for f in weio.fileFormats()}


def examples_dir():
    import weio
    return os.path.join(os.path.dirname(os.path.abspath(weio.__file__)), 'tests', 'example_files')


def load_samples():
    """class name -> [sample]; a sample is {'main', 'mk'} (made by a specification) or {'main', 'ex': [files]}"""
    with open(os.path.join(HERE, 'samples.json')) as f:
        S = json.load(f)
    with open(os.path.join(HERE, 'examples.json')) as f:
        E = json.load(f)
    for c, ex in E.items():
        S.setdefault(c, [])
        S[c] += ex
    for c in S:
        for i, s in enumerate(S[c]):
            s['id'] = '{}{}'.format(c, i)
            s['base'] = s['main']
    return S


def materialise(s, d):
    """Makes the files of a sample in directory d; returns the path of the main file"""
    os.makedirs(d, exist_ok=True)
    if 'ex' in s:
        for f in s['ex']:
            dst = os.path.join(d, os.path.relpath(f, os.path.dirname(s['main']) or '.'))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(examples_dir(), f), dst)
        return os.path.join(d, s['base'])
    import interp
    it = interp.Interp(d)
    for op in s['mk']:
        p = os.path.join(d, op.get('path', ''))
        os.makedirs(p if op['op'] == 'mkdir' else os.path.dirname(p), exist_ok=True)
        getattr(it, 'op_' + op['op'])(json.loads(json.dumps(op).replace('~deg~', '\\u00b0')))
    return os.path.join(d, s['base'])


# --------------------------------------------------------------------------------
# --- What an object looks like
# --------------------------------------------------------------------------------
STAMP = re.compile(r'\d{1,2}-[A-Za-z]{3}-\d{2,4}|[A-Z][a-z]{2}-\d\d-\d\d|\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?Z?|\d\d:\d\d:\d\d')


def mask(s, root):
    s = s.replace(os.path.realpath(root), '~').replace(root, '~')
    s = re.sub(r'~/(p1|p2|w1|w2|look(/[AB])?)(?=/|$)', '~/d', s)
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)


def canon(x, root, depth=0, seen=()):
    if x is None or isinstance(x, (bool, np.bool_)):
        return str(x)
    if isinstance(x, str):
        return 's' + STAMP.sub('#', mask(x, root))
    if isinstance(x, bytes):
        return 'b' + hashlib.sha1(x).hexdigest()
    if isinstance(x, (int, np.integer)):
        return 'n' + str(int(x))
    if isinstance(x, (float, np.floating)):
        return 'f' + repr(float(x))
    if isinstance(x, (complex, np.complexfloating)):
        return 'c' + repr(complex(x))
    if depth > 12 or id(x) in seen:
        return '...'
    seen = seen + (id(x),)
    go = lambda y: canon(y, root, depth + 1, seen)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'OUS' or x.dtype.names:
            return ['array', list(x.shape), [go(y) for y in x.ravel().tolist()]]
        return ['array', list(x.shape), x.dtype.kind, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest(), [repr(y) for y in x.ravel()[:4].tolist()]]
    if isinstance(x, pd.DataFrame):
        return ['table', [go(c) for c in x.columns], go(x.columns.name), [go(i) for i in (x.index[:3].tolist() + x.index[-3:].tolist())], [go(x.iloc[:, j].values) for j in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ['series', go(x.values)]
    if isinstance(x, dict):
        d = ['dict', [[go(k), go(v)] for k, v in x.items()]]
        return d
    if isinstance(x, (list, tuple)):
        return ['list', [go(y) for y in x]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(repr(go(y)) for y in x)]
    if type(x).__module__.startswith('xarray'):
        try:
            return ['xarray', go(x.to_dict())]
        except Exception as e:
            return ['xarray', type(e).__name__]
    if callable(x) or isinstance(x, type(os)):
        return 'callable'
    if hasattr(x, '__dict__'):
        return ['object', type(x).__name__, [[k, go(v)] for k, v in sorted(vars(x).items()) if not k.startswith('_') and k != 'filename']]
    return mask(repr(x), root)


def content(path, root='\0'):
    """The content of a written file, without time stamps"""
    with open(path, 'rb') as f:
        b = f.read()
    if b[:2] == b'PK':
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            return ['zip'] + [[n, STAMP.sub('#', z.read(n).decode('latin-1'))] for n in sorted(z.namelist())]
    return mask(STAMP.sub('#', b.decode('latin-1')), root)


def pinned():
    p = os.path.join(HERE, 'attrs.json')
    if os.path.isfile(p):
        with open(p) as f:
            return json.load(f)
    return {}


_PIN = {}


class Absent(object):
    pass


def look(o, kind, root):
    """One observation of an object: a canonical value, or ['raises', kind of error]"""
    try:
        if kind == 'items':
            return canon({k: v for k, v in o.items()}, root) if isinstance(o, dict) else 'none'
        if kind == 'keys':
            return canon(list(o.keys()), root) if hasattr(o, 'keys') else 'none'
        if kind == 'repr':
            return re.sub(r'encoding=[\w-]+', 'encoding=', mask(repr(o), root))      # the encoding is that of the file last read or written
        if kind == 'df':
            return canon(o.toDataFrame(), root)
        if kind == 'attrs':
            if not _PIN:
                _PIN.update(pinned() or {'-': []})
            r = {}
            for k in _PIN.get(type(o).__name__, []):
                try:
                    r[k] = canon(getattr(o, k), root)
                except AttributeError:
                    r[k] = 'absent'
            return r
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        return ['raises', type(e).__name__]


def written(d, base, root):
    d, base = os.path.split(os.path.join(d, base))
    stem = os.path.splitext(base)[0]
    return {f: content(os.path.join(d, f), root) for f in sorted(os.listdir(d)) if os.path.splitext(f)[0] == stem or f.startswith(stem)} if os.path.isdir(d) else {}


def do_write(o, path):
    """None, or the kind of error"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        o.write(path)
        return None
    except Exception as e:
        return type(e).__name__


# --------------------------------------------------------------------------------
# --- Processes
# --------------------------------------------------------------------------------
def warm():
    """Libraries loaded once, before processes are made"""
    import chardet, openpyxl, pyarrow.parquet, xarray, scipy.io, scipy.optimize
    chardet.detect('a b c \xe9\n1 2 3\n'.encode('utf-8'))
    pd.read_csv(io.StringIO('a b\n1 2\n'), sep=r'\s+')
    pd.read_csv(io.StringIO('a,b\n1,2\n'), sep=None, engine='python')
    classes()


def forked(f, limit=60):
    """f() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                out = ('ok', f())
            except BaseException:
                out = ('error', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as g:
                pickle.dump(out, g)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        b = g.read()
    os.waitpid(pid, 0)
    if not b:
        return ('error', 'no answer')
    return pickle.loads(b)


def around(s, d):
    """The files around the main file, where the format needs them to read it (an htc file looks for the files of its model)"""
    if s['base'].endswith('.htc'):
        p = materialise(s, d)
        os.remove(p)


def fresh(C, s, d, root):
    """An object that read sample s, written and read back d times"""
    p = materialise(s, os.path.join(root, 'p1'))
    o = C(p)
    for k in range(d):
        w = os.path.join(root, 'w1' if k % 2 == 0 else 'w2', s['base'])
        around(s, os.path.join(root, 'w1' if k % 2 == 0 else 'w2'))
        e = do_write(o, w)
        if e:
            raise IOError('write: ' + e)
        o = C(w)
    return o


def reference(payload, root):
    """{(d, kind): observation} for d in 0..2; every entry from a process of its own"""
    cname, s = payload
    C = classes()[cname]
    R = {}
    for d in range(3):
        sub = tempfile.mkdtemp(dir=root)

        def one(kinds):
            def f():
                o = fresh(C, s, d, sub)
                r = {}
                for kind in kinds:
                    if kind == 'written':
                        e = do_write(o, os.path.join(sub, 'look', s['base']))
                        r[kind] = ['raises', e] if e else written(os.path.join(sub, 'look'), s['base'], sub)
                    else:
                        r[kind] = look(o, kind, sub)
                return r
            return f
        if d > 0 and R[d - 1, 'items'][:1] == ['cannot']:
            R.update({(d, kind): R[d - 1, 'items'] for kind in KINDS + ('written',)})
            continue
        # what is read from a sample: each observation on an object of its own
        for kinds in ([(kind,) for kind in KINDS + ('written',)] if d == 0 else [KINDS + ('written',)]):
            st, v = forked(one(kinds))
            for kind in kinds:
                R[d, kind] = ['cannot', v.strip().splitlines()[-1][:200]] if st == 'error' else v[kind]
            for x in os.listdir(sub):
                shutil.rmtree(os.path.join(sub, x))
    return R


# --------------------------------------------------------------------------------
# --- Changing an object in place
# --------------------------------------------------------------------------------
def poke(x, depth=0, seen=None):
    """Changes x in place; returns the changed value"""
    seen = seen if seen is not None else set()
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, str):
        return x + 'poked'
    if isinstance(x, (int, float, np.integer, np.floating)):
        return x + 1
    if depth > 8 or id(x) in seen:
        return x
    seen.add(id(x))
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind in 'iufc':
                x += 1
            elif x.dtype.kind == 'O':
                for i in range(x.size):
                    x.flat[i] = poke(x.flat[i], depth + 1, seen)
        elif isinstance(x, pd.DataFrame):
            for j in range(x.shape[1]):
                try:
                    v = x.iloc[:, j].values
                    if v.dtype.kind in 'iuf':
                        v += 1
                except Exception:
                    pass
            x.columns = [str(c) + 'poked' for c in x.columns]
            x.insert(0, 'poked', 1.0)
        elif isinstance(x, dict):
            for k in list(x.keys()):
                try:
                    x[k] = poke(x[k], depth + 1, seen)
                except Exception:
                    pass
        elif isinstance(x, list):
            for i in range(len(x)):
                x[i] = poke(x[i], depth + 1, seen)
            x.append('poked')
        elif isinstance(x, set):
            x.add('poked')
        if hasattr(x, '__dict__') and type(x).__module__.split('.')[0] == 'weio':
            for k in list(vars(x)):
                if not k.startswith('_') and k != 'filename':
                    try:
                        setattr(x, k, poke(vars(x)[k], depth + 1, seen))
                    except Exception:
                        pass
    except Exception:
        pass
    return x


def poke_object(o):
    """Changes in place what the object hands out; the options its constructor takes are the client's own"""
    import inspect
    options = {'filename'}
    for C in type(o).__mro__:
        if '__init__' in vars(C) and C.__module__.split('.')[0] == 'weio':
            options |= set(inspect.signature(C.__init__).parameters)
    seen = set()
    try:
        poke(o.toDataFrame(), seen=seen)
    except Exception:
        pass
    vals = list(o.items()) if isinstance(o, dict) else []
    for k, v in vals:
        try:
            o[k] = poke(v, seen=seen)
        except Exception:
            pass
    for k, v in list(vars(o).items()):
        if not k.startswith('_') and k not in options:
            poke(v, seen=seen)


# --------------------------------------------------------------------------------
# --- Histories
# --------------------------------------------------------------------------------
def snapshot(root):
    r = {}
    for p, dirs, files in os.walk(root):
        for f in files:
            q = os.path.join(p, f)
            st = os.lstat(q)
            r[os.path.relpath(q, root)] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return r


def differ(a, b, where=''):
    """Where two canonical values differ"""
    if type(a) != type(b):
        return '{}: {} instead of {}'.format(where, str(b)[:120], str(a)[:120])
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return '{}: {} is gone'.format(where, k)
            if a[k] != b[k]:
                return differ(a[k], b[k], where + '/' + str(k))
        return '{}: more keys {}'.format(where, [k for k in b if k not in a][:4])
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, where + '/' + str(i))
        return '{}: {} entries instead of {} ({})'.format(where, len(b), len(a), str(b[len(a):len(a) + 2] or a[len(b):len(b) + 2])[:120])
    if isinstance(a, str) and len(a) > 150:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        a, b = a[max(0, i - 40):i + 40], b[max(0, i - 40):i + 40]
    return '{}: {!r} instead of {!r}'.format(where, b, a)


_REFS = {}


def refs(cname, s, root):
    k = s['id']
    if k not in _REFS:
        d = tempfile.mkdtemp(dir=os.path.dirname(root))
        _REFS[k] = reference((cname, s), d)
        shutil.rmtree(d)
    return _REFS[k]


class Bad(Exception):
    pass


def run(payload, root):
    """None or (step, message). payload: {'cls': {object: class name}, 's': [sample 1, sample 2], 'h': history, 'look': kinds}"""
    R = [None, refs(payload['cls']['A'], payload['s'][0], root), refs(payload['cls'].get('B', payload['cls']['A']), payload['s'][1], root)]
    if not payload.get('fork'):
        return _history(payload, root, R)
    st, v = forked(lambda: _history(payload, root, R), limit=50)
    if st == 'error':
        return (-2, 'harness: ' + v)
    return v


def errkind(e):
    if isinstance(e, OSError) and getattr(e, 'errno', None) == 2:
        return 'missing'
    if type(e).__name__ == 'EmptyFileError':
        return 'empty'
    return type(e).__name__ + ': ' + str(e)[:160]


def _history(P, root, R):
    import contextlib
    CL = classes()
    S = [None] + P['s']
    base = {'p1': S[1]['base'], 'p2': S[2]['base']}
    O = {}
    clsof = lambda o: CL[P['cls'].get(o, P['cls']['A'])]
    path = lambda slot, o=None: os.path.join(root, slot, base.get(slot) or (S[2]['base'] if o == 'B' and P.get('cross') else S[1]['base']))    # base[w]: what was written there
    for k in (1, 2):
        materialise(S[k], os.path.join(root, 'p%d' % k))
    os.makedirs(os.path.join(root, 'e'))
    os.makedirs(os.path.dirname(path('e')), exist_ok=True)
    open(path('e'), 'w').close()
    for x in ('w1', 'w2'):
        os.makedirs(os.path.join(root, x))

    def ref(is_, kind):
        v = R[is_['s']][is_['d'], kind]
        if isinstance(v, list) and v and v[0] == 'cannot':
            raise Skip()
        return v

    def expect(is_, kind, v):
        r = ref(is_, kind)
        if r != v:
            raise Bad('{} of the object differ from those of an object that only read this file{}: {}'.format(
                kind, '' if is_['d'] == 0 else ' (written and read back)', differ(r, v)))

    i = -1
    try:
        for i, op in enumerate(P['h']):
            before = snapshot(root)
            o = op.get('o')
            a = op['op']
            touched = ()
            if a == 'new':
                O[o] = clsof(o)()
            elif a in ('open', 'read', 'again', 'rewrite'):
                if a != 'rewrite' and op['res'] == 'ok' and op['disk'][op['at']]['d'] > 0:
                    ref(op['disk'][op['at']], 'items')          # the format cannot read back what it wrote: decided elsewhere
                try:
                    if a == 'open':
                        O[o] = clsof(o)(path(op['at'], o))
                    elif a == 'read':
                        O[o].read(path(op['at'], o))
                    elif a == 'again':
                        O[o].read()
                    else:
                        O[o].write()
                        touched = (op['at'],) if op['res'] == 'ok' else ()
                    got = 'ok'
                except Exception as e:
                    got = errkind(e)
                if op['res'] == 'nofile':
                    if got == 'ok':
                        raise Bad('{} without a file name did not raise'.format(a))
                elif got != op['res']:
                    raise Bad('{} of a file{}: expected {}, got {}'.format(a, {'ok': '', 'missing': ' that is not there', 'empty': ' that is empty'}[op['res']], op['res'], got))
            elif a == 'obs':
                expect(op['is'], op['k'], look(O[o], op['k'], root))
            elif a == 'write':
                base[op['at']] = S[op['is']['s']]['base']
                d = os.path.dirname(path(op['at'], o))
                os.makedirs(d, exist_ok=True)
                shutil.rmtree(os.path.join(root, op['at']))
                os.makedirs(d)
                around(S[op['is']['s']], os.path.join(root, op['at']))
                before = snapshot(root)
                e = do_write(O[o], path(op['at'], o))
                touched = (op['at'],)
                if (e is None) != (op['res'] == 'ok'):
                    raise Bad('write: expected {}, got {}'.format(op['res'], e or 'ok'))
                if e is None:
                    expect(op['is'], 'written', written(d, os.path.basename(path(op['at'], o)), root))
            elif a == 'poke':
                poke_object(O[o])
            elif a in ('change', 'remove'):
                touched = (op['at'],)
                k = int(op['at'][1]) if op['at'][0] == 'p' else 0
                if a == 'change':
                    shutil.rmtree(os.path.join(root, op['at']))
                    materialise(S[op['to']], os.path.join(root, op['at']))
                else:
                    os.remove(path(op['at'], o))
            after = snapshot(root)
            for f in sorted(set(before) | set(after)):
                if before.get(f) != after.get(f) and f.split(os.sep)[0] not in touched:
                    raise Bad('{}{} {} the file {}'.format(a, ' (' + op['k'] + ')' if a == 'obs' else '', 'created' if f not in before else 'removed' if f not in after else 'changed', f))
        i = len(P['h'])
        for o in sorted(P['final']):
            is_ = P['final'][o]
            if is_['s'] <= 0:
                continue
            if P.get('close') and is_['d'] > 0:
                try:
                    e = close(P['cls'].get(o, P['cls']['A']), clsof(o), S[is_['s']], O[o], root)
                except Exception:
                    e = traceback.format_exc()[-400:]
                if e:
                    raise Bad('what was written and read back is not what was read first: ' + e)
            for kind in P['look']:
                if kind == 'written':
                    e = do_write(O[o], os.path.join(root, 'look', o, S[is_['s']]['base']))
                    v = ['raises', e] if e else written(os.path.join(root, 'look', o), S[is_['s']]['base'], root)
                else:
                    v = look(O[o], kind, root)
                expect(is_, kind, v)
    except Skip:
        return None
    except Bad as e:
        return (i, '{}: {}'.format('/'.join(sorted(set(P['cls'].values()))), e))
    return None


class Skip(Exception):
    pass


# --------------------------------------------------------------------------------
# --- The same, up to what a format can store
# --------------------------------------------------------------------------------
# largest difference of a number: relative to itself, or relative to the largest of its array (quantised storage)
TOL = {'FASTOutputFile': (6e-4, 4e-5), 'TurbSimFile': (1e-6, 5e-3)}
# quantities derived from quantised values, and texts which the writer replaces
LOOSE = {'TurbSimFile': ('df', 'info')}


def near(a, b, tol, where=''):
    """None, or where two values differ by more than a format's precision"""
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        if [str(c) for c in a.columns] != [str(c) for c in b.columns]:
            return '{}: columns {} instead of {}'.format(where, list(b.columns)[:8], list(a.columns)[:8])
        if a.shape != b.shape:
            return '{}: shape {} instead of {}'.format(where, b.shape, a.shape)
        for j in range(a.shape[1]):
            r = near(a.iloc[:, j].values, b.iloc[:, j].values, tol, '{}.{}'.format(where, a.columns[j]))
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(map(str, a)) != list(map(str, b)):
            return '{}: keys {} instead of {}'.format(where, [k for k in b if k not in a][:5] or list(b)[:5], [k for k in a if k not in b][:5] or list(a)[:5])
        for k in a:
            r = near(a[k], b[k], tol, '{}/{}'.format(where, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        x = y = None
        try:
            if not any(isinstance(z, str) for z in list(a)[:1]):
                x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        except (TypeError, ValueError):
            pass
        if x is not None and y is not None:
            if x.shape != y.shape:
                return '{}: shape {} instead of {}'.format(where, y.shape, x.shape)
            if x.size == 0:
                return None
            nx, ny = np.isnan(x), np.isnan(y)
            if (nx != ny).any():
                return '{}: missing values at other places'.format(where)
            x, y = np.where(nx, 0, x), np.where(ny, 0, y)
            with np.errstate(all='ignore'):
                e = np.where(x == y, 0, np.abs(x - y))
            lim = np.maximum(tol[0] * np.maximum(np.abs(x), np.abs(y)), tol[1] * np.max(np.abs(x)) if x.size else 0)
            bad = np.argwhere(e > lim)
            if len(bad):
                i = tuple(bad[0])
                return '{}{}: {} instead of {}'.format(where, list(map(int, i)), y[i], x[i])
            return None
        if len(a) != len(b):
            return '{}: {} entries instead of {}'.format(where, len(b), len(a))
        for i, (p, q) in enumerate(zip(a, b)):
            r = near(p, q, tol, '{}/{}'.format(where, i))
            if r:
                return r
        return None
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else '{}: {} instead of {}'.format(where, b, a)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        if a == b or (a != a and b != b) or abs(a - b) <= tol[0] * max(abs(a), abs(b)):
            return None
        return '{}: {} instead of {}'.format(where, b, a)
    if isinstance(a, str) and isinstance(b, str):
        return None if STAMP.sub('#', a).split() == STAMP.sub('#', b).split() else '{}: {!r} instead of {!r}'.format(where, b[:100], a[:100])
    if (a is None) != (b is None) or isinstance(a, str) != isinstance(b, str):
        return '{}: {!r} instead of {!r}'.format(where, str(b)[:100], str(a)[:100])
    return None


def same_tokens(a, b, tol):
    """None, or where the contents of two written files differ, apart from white space and number spelling"""
    if isinstance(a, list) or '\0' in a:
        return None if len(a) == len(b) else '{} bytes instead of {}'.format(len(b), len(a))
    x, y = a.split(), b.split()
    for p, q in zip(x, y):
        if p != q:
            try:
                if abs(float(p) - float(q)) <= tol[0] * max(abs(float(p)), abs(float(q))):
                    continue
            except ValueError:
                pass
            return '{!r} instead of {!r}'.format(q, p)
    return None if len(x) == len(y) else '{} words instead of {}'.format(len(y), len(x))


def close(cname, C, s, o, root):
    """None, or how the data of o (written and read back) differ from those of the sample"""
    tol = TOL.get(cname, (1e-6, 0))
    loose = LOOSE.get(cname, ())
    d = os.path.join(root, 'orig')
    o0 = C(materialise(s, d))
    if isinstance(o0, dict):
        r = near({k: v for k, v in o0.items() if k not in loose}, {k: v for k, v in o.items() if k not in loose}, tol, 'items')
        if r:
            return r
    if 'df' not in loose:
        try:
            a = o0.toDataFrame()
        except Exception as e:
            a = None
        if a is not None:
            r = near(a, o.toDataFrame(), tol, 'tables')
            if r:
                return r
    e0 = do_write(o0, os.path.join(root, 'orig1', s['base']))
    e1 = do_write(o, os.path.join(root, 'look', s['base']))
    if e0 != e1:
        return 'writing again: {}'.format(e1 or 'the original cannot be written')
    if e0 is None:
        a, b = written(os.path.join(root, 'orig1'), s['base'], root), written(os.path.join(root, 'look'), s['base'], root)
        if list(a) != list(b):
            return 'writing again gives the files {} instead of {}'.format(list(b), list(a))
        for f in a:
            r = same_tokens(a[f], b[f], tol)
            if r:
                return 'writing again gives another {}: {}'.format(f, r)
