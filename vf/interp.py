"""Replays behaviours emitted by the specifications into the real weio.

A behaviour is a sequence of operation records.  The specification fixes, for every operation,
what must be observed; this module only performs the operation through weio's public interface
and compares.  It holds no knowledge of any file format: the layout of every file (its bytes or
lines) and every expected observation come from the specification.
"""
import importlib, io, json, os, re, struct, sys, contextlib, warnings, copy
import numpy as np
import pandas as pd
from values import cmpval, cmpdf, decode as _decode, num, tolpair, _short

MODS = {
    'CSVFile': 'csv_file', 'ExcelFile': 'excel_file', 'TecplotFile': 'tecplot_file', 'BladedFile': 'bladed_out_file',
    'FASTInputFile': 'fast_input_file', 'FASTOutputFile': 'fast_output_file', 'FASTWndFile': 'fast_wind_file',
    'FASTLinearizationFile': 'fast_linearization_file', 'FASTSummaryFile': 'fast_summary_file',
    'TurbSimTSFile': 'turbsim_ts_file', 'TurbSimFile': 'turbsim_file', 'HAWC2DatFile': 'hawc2_dat_file',
    'HAWC2HTCFile': 'hawc2_htc_file', 'HAWC2StFile': 'hawc2_st_file', 'HAWC2PCFile': 'hawc2_pc_file',
    'HAWC2AEFile': 'hawc2_ae_file', 'HAWCStab2PwrFile': 'hawcstab2_pwr_file', 'HAWCStab2IndFile': 'hawcstab2_ind_file',
    'HAWCStab2CmbFile': 'hawcstab2_cmb_file', 'MannBoxFile': 'mannbox_file', 'FLEXBladeFile': 'flex_blade_file',
    'FLEXProfileFile': 'flex_profile_file', 'FLEXOutFile': 'flex_out_file', 'FLEXWaveKinFile': 'flex_wavekin_file',
    'FLEXDocFile': 'flex_doc_file', 'BModesOutFile': 'bmodes_out_file', 'ROSCOPerformanceFile': 'rosco_performance_file',
    'NetCDFFile': 'netcdf_file', 'VTKFile': 'vtk_file', 'TDMSFile': 'tdms_file', 'ParquetFile': 'parquet_file',
    'CactusFile': 'cactus_file', 'RAAWMatFile': 'raawmat_file', 'FASTInputDeck': 'fast_input_deck',
    'EDBladeFile': 'fast_input_file', 'ADBladeFile': 'fast_input_file', 'ADPolarFile': 'fast_input_file', 'FASTInputFileBase': 'fast_input_file',
    'GraphModel': 'tools.graph', 'Node': 'tools.graph', 'Element': 'tools.graph', 'NodeProperty': 'tools.graph', 'ElemProperty': 'tools.graph', 'Property': 'tools.graph',
}


def cls(name):
    return getattr(importlib.import_module('weio.' + MODS[name]), name)


def classname(o):
    return type(o).__name__


def flat(v):
    if isinstance(v, list):
        for x in v:
            for y in flat(x):
                yield y
    else:
        yield v


_FMT = {'i1': 'b', 'u1': 'B', 'i2': 'h', 'u2': 'H', 'i4': 'i', 'u4': 'I', 'i8': 'q', 'u8': 'Q', 'f4': 'f', 'f8': 'd'}


def _code(t):
    e = '<'
    if t[0] in '<>':
        e, t = t[0], t[1:]
    return e + _FMT[t], t


def pack(toks):
    out = []
    for k in toks:
        if k['t'] == 's':
            s = k['v'].encode('latin-1')
            n = k.get('n', len(s))
            out.append(s[:n] + b' ' * (n - len(s)))
        else:
            f, t = _code(k['t'])
            if isinstance(k['v'], dict) and 'gen' in k['v']:   # v(i) = lo + (a*i + b) mod m, i = 0..cnt-1
                a, b, m, lo, cnt = k['v']['gen']
                out.append((lo + (a * np.arange(cnt, dtype=np.int64) + b) % m).astype(f[0] + t[0] + t[1]).tobytes())
                continue
            for v in flat(k['v']):
                out.append(struct.pack(f, num(v) if t[0] == 'f' else v['n'] * 10 ** v['e'] if isinstance(v, dict) and 'e' in v else v))
    return b''.join(out)


def check_layout(path, toks, tol, exact=True):
    with open(path, 'rb') as f:
        b = f.read()
    i = 0
    for j, k in enumerate(toks):
        if k['t'] == 's':
            n = k.get('n', len(k['v']) if isinstance(k['v'], str) else 0)
            got = b[i:i + n]
            i += n
            if len(got) < n:
                return 'file too short at token {}'.format(j)
            if not isinstance(k['v'], str):
                continue
            if got.decode('latin-1').rstrip() != k['v'].rstrip():
                return 'token {} ({}): expected {!r}, got {!r}'.format(j, k.get('w', ''), k['v'], got)
        else:
            f, t = _code(k['t'])
            n = struct.calcsize(f)
            for v in flat(k['v']):
                got = b[i:i + n]
                i += n
                if len(got) < n:
                    return 'file too short at token {}'.format(j)
                g = struct.unpack(f, got)[0]
                if isinstance(v, dict) and 'any' in v:
                    continue
                r = cmpval(v, g, k.get('tol', tol), 'token {} ({})'.format(j, k.get('w', k['t'])))
                if r:
                    return r
    if exact and i != len(b):
        return 'file has {} bytes, expected {}'.format(len(b), i)
    return None


_CUR = {}


def decode(v):
    """Values handed to the implementation; {"ref":name} is an object of the behaviour, {"path":p} a scratch file."""
    if isinstance(v, dict) and set(v) == {'ref'}:
        return _CUR['it'].o[v['ref']]
    if isinstance(v, dict) and set(v) == {'path'}:
        return _CUR['it'].p(v['path'])
    if isinstance(v, dict) and set(v) == {'val'}:
        return walk(_CUR['it'].o[v['val'][0]], v['val'][1:])
    return _decode(v)


def walk(o, path):
    """Follow an access path: list of steps; a string/int is an item access, {"a":name} an attribute."""
    for p in path:
        if isinstance(p, dict) and 'a' in p:
            o = getattr(o, p['a'])
        elif isinstance(p, dict) and 'c' in p:      # call without/with arguments
            o = getattr(o, p['c'])(*[decode(a) for a in p.get('args', [])],
                                   **{k: decode(v) for k, v in p.get('kw', [])})
        elif isinstance(p, dict) and 'ix' in p:
            o = o[tuple(p['ix'])]
        elif isinstance(p, dict) and 'slice' in p:
            o = o[tuple(slice(None) if s == ':' else s for s in p['slice'])]
        else:
            o = o[p]
    return o


ERRS = {'FileNotFoundError': (FileNotFoundError,), 'OSError': (OSError,), 'KeyError': (KeyError,), 'IndexError': (IndexError,),
        'any': (Exception,)}


def errmatch(want, e):
    if want == 'any':
        return isinstance(e, Exception)
    names = {c.__name__ for c in type(e).__mro__}
    return want in names


NOTHING = {'none': 1}


def _plain(v):
    """A cell as a plain Python value."""
    if v == NOTHING:
        return None
    v = decode(v)
    return v.item() if isinstance(v, np.generic) else v


class Mismatch(Exception):
    pass


class Interp(object):
    def __init__(self, root):
        self.root = root
        self.o = {}
        _CUR['it'] = self

    def p(self, path):
        q = os.path.normpath(os.path.join(self.root, path))
        if not q.startswith(self.root):
            raise ValueError('path escapes scratch: ' + path)
        d = os.path.dirname(q)
        if not os.path.isdir(d):
            os.makedirs(d)
        return q

    def step(self, op):
        k = op['op']
        f = getattr(self, 'op_' + k)
        want = op.get('err')
        try:
            r = f(op)
        except Mismatch:
            raise
        except Exception as e:
            if want is not None and errmatch(want, e):
                return
            if op.get('orerr'):
                return
            raise Mismatch('{} raised {}: {}'.format(k, type(e).__name__, str(e)[:300]))
        if want is not None:
            raise Mismatch('{}: expected {}, no exception was raised'.format(k, want))
        if r:
            raise Mismatch('{}: {}'.format(k, r))

    # --- environment: files made by other programs
    def op_mkfile(self, op):
        with open(self.p(op['path']), 'wb') as f:
            f.write(pack(op['toks']))

    def op_mktext(self, op):
        nl = op.get('nl', '\n')
        s = nl.join(op['lines']).replace('~deg~', '\xb0').replace('~root~', self.root) + (nl if op.get('endnl', True) else '')
        b = s.encode(op.get('enc', 'latin-1'))
        with open(self.p(op['path']), 'wb') as f:
            f.write(b)

    # --- binary containers, made and inspected with the container's own library
    def op_mkbook(self, op):
        import openpyxl
        wb = openpyxl.Workbook()
        wb.remove(wb.active)
        for name, grid in op['sheets']:
            ws = wb.create_sheet(name)
            for i, row in enumerate(grid):
                for j, v in enumerate(row):
                    v = _plain(v)
                    if v is not None:
                        cell = ws.cell(row=i + 1, column=j + 1, value=v)
                        if isinstance(v, str):
                            cell.data_type = 's'
        wb.save(self.p(op['path']))

    def op_book(self, op):
        import openpyxl
        wb = openpyxl.load_workbook(self.p(op['path']))
        r = cmpval([n for n, _ in op['sheets']], list(wb.sheetnames), 'exact', 'sheets of ' + op['path'])
        if r:
            return r
        for name, grid in op['sheets']:
            act = [list(row) for row in wb[name].iter_rows(values_only=True)]
            nc = max([len(row) for row in grid])
            act = [row + [None] * (nc - len(row)) for row in act]
            act += [[None] * nc] * (len(grid) - len(act))
            r = cmpval([[NOTHING if v == NOTHING else v for v in row] for row in grid], act, 'f8', 'sheet ' + name)
            if r:
                return r

    def op_mkparquet(self, op):
        import pyarrow as pa, pyarrow.parquet as pq
        T = {'double': pa.float64(), 'string': pa.string(), 'bool': pa.bool_(), 'int': pa.int64()}
        arrays = [pa.array([int(_plain(v)) if t == 'int' else _plain(v) for v in vals], type=T[t]) for _, t, vals in op['cols']]
        pq.write_table(pa.Table.from_arrays(arrays, names=[x[0] for x in op['cols']]), self.p(op['path']))

    def op_parquet(self, op):
        import pyarrow.parquet as pq
        t = pq.ParquetFile(self.p(op['path'])).read()
        r = cmpval([x[0] for x in op['cols']], list(t.column_names), 'exact', 'columns of ' + op['path'])
        for k, (name, vals) in enumerate(op['cols']):
            r = r or cmpval(vals, [None if v is None or v != v else v for v in t.column(k).to_pylist()], 'f8', 'column ' + name)
        return r

    def op_mknc(self, op):
        from scipy.io import netcdf_file
        f = netcdf_file(self.p(op['path']), 'w')
        for name, dims, t, vals in op['vars']:
            a = np.array(decode(vals), dtype=t)
            for dim, k in zip(dims, a.shape):
                if dim not in f.dimensions:
                    f.createDimension(dim, k)
            f.createVariable(name, t, tuple(dims))[:] = a
        f.close()

    def op_nc(self, op):
        from scipy.io import netcdf_file
        f = netcdf_file(self.p(op['path']), 'r', mmap=False)
        try:
            r = cmpval({'set': [v[0] for v in op['vars']]}, list(f.variables), 'exact', 'variables of ' + op['path'])
            for name, dims, vals in op['vars']:
                r = r or cmpval(dims, [str(x) for x in f.variables[name].dimensions], 'exact', 'axes of ' + name)
                r = r or cmpval(vals, np.array(f.variables[name][:]), 'f8', 'variable ' + name)
            return r
        finally:
            f.close()

    def op_mktdms(self, op):
        from nptdms import TdmsWriter, ChannelObject, GroupObject
        with TdmsWriter(self.p(op['path'])) as w:
            w.write_segment([GroupObject(g) for g in dict.fromkeys(x[0] for x in op['chan'])])
            w.write_segment([ChannelObject(g, c, np.array(decode(v), dtype=float), properties={'wf_increment': float(decode(op['inc'])), 'wf_start_offset': float(decode(op['off']))}) for g, c, v in op['chan']])

    def op_mkdf(self, op):
        rows = [[_decode(v) for v in r] for r in op['rows']]
        self.o[op['o']] = pd.DataFrame({c: [r[j] for r in rows] for j, c in enumerate(op['cols'])}, columns=op['cols'])

    def op_dfcells(self, op):
        df = self.o[op['o']].toDataFrame()
        r = cmpval(op['shape'], list(df.shape), 'exact', 'table shape')
        if r:
            return r
        for i, j, v in op['cells']:
            r = cmpval(v, df.iloc[i, j], op.get('tol'), 'cell ({},{})'.format(i, j))
            if r:
                return r

    def op_rmfile(self, op):
        os.remove(self.p(op['path']))

    def op_mkdir(self, op):
        os.makedirs(self.p(op['path']), exist_ok=True)

    # --- weio
    def op_new(self, op):
        self.o[op['o']] = cls(op['cls'])(**{k: decode(v) for k, v in op.get('kw', [])})

    def op_open(self, op):
        if 'says' not in op:
            self.o[op['o']] = cls(op['cls'])(self.p(op['path']), **{k: decode(v) for k, v in op.get('kw', [])})
            return
        # what is printed, or warned of
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter('always')
            warnings.showwarning = lambda *a, **k: out.write(str(a[0]))
            self.o[op['o']] = cls(op['cls'])(self.p(op['path']), **{k: decode(v) for k, v in op.get('kw', [])})
        for t in op['says']:
            if t not in out.getvalue():
                return 'nothing is said about {}'.format(t)

    def op_read(self, op):
        kw = {k: decode(v) for k, v in op.get('kw', [])}
        if 'path' in op:
            self.o[op['o']].read(self.p(op['path']), **kw)
        else:
            self.o[op['o']].read(**kw)

    def op_weioread(self, op):
        import weio
        F = weio.read(self.p(op['path']))
        self.o[op['o']] = F
        if 'cls' in op and classname(F) != op['cls']:
            return 'read as {}, expected {}'.format(classname(F), op['cls'])

    def op_write(self, op):
        kw = {k: decode(v) for k, v in op.get('kw', [])}
        if 'path' in op:
            self.o[op['o']].write(self.p(op['path']), **kw)
        else:
            self.o[op['o']].write(**kw)

    def op_df(self, op):
        df = self.o[op['o']].toDataFrame(**{k: decode(v) for k, v in op.get('kw', [])})
        return cmpdf(op['expect'], df, op.get('tol'))

    def op_get(self, op):
        v = walk(self.o[op['o']], op['at'])
        return cmpval(op['expect'], v, op.get('tol'), str(op['at']))

    def op_getdf(self, op):
        return cmpdf(op['expect'], walk(self.o[op['o']], op['at']), op.get('tol'), str(op['at']))

    def op_shape(self, op):
        v = walk(self.o[op['o']], op['at'])
        return cmpval(op['expect'], list(np.shape(v)), 'exact', 'shape of ' + str(op['at']))

    def op_keys(self, op):
        return cmpval(op['expect'], [str(x) for x in self.o[op['o']].keys()], 'exact', 'keys')

    def op_count(self, op):
        r = len(walk(self.o[op['o']], op['at']))
        return None if r == op['expect'] else '{}: {} entries, expected {}'.format(op['at'], r, op['expect'])

    def op_htckeys(self, op):
        r = [k for k in walk(self.o[op['o']], op['at']).keys() if not re.match(r'(__\d+)?$', k)]
        return cmpval(op['expect'], r, 'exact', 'keys of {}'.format(op['at'][-1]))

    def op_has(self, op):
        r = op['key'] in self.o[op['o']]
        return None if bool(r) == op['expect'] else '{} in object is {}, expected {}'.format(op['key'], r, op['expect'])

    def op_set(self, op):
        at = op['at']
        t = walk(self.o[op['o']], at[:-1])
        last = at[-1]
        if isinstance(last, dict) and 'a' in last:
            setattr(t, last['a'], decode(op['val']))
        elif isinstance(last, dict) and 'ix' in last:
            t[tuple(last['ix'])] = decode(op['val'])
        else:
            t[last] = decode(op['val'])

    def op_del(self, op):
        at = op['at']
        t = walk(self.o[op['o']], at[:-1])
        del t[at[-1]]

    def op_call(self, op):
        r = walk(self.o[op['o']], op.get('at', []) + [{'c': op['m'], 'args': op.get('args', []), 'kw': op.get('kw', [])}])
        if 'as' in op:
            self.o[op['as']] = r
        if 'expect' in op:
            return cmpval(op['expect'], r, op.get('tol'), op['m'])
        if 'expectdf' in op:
            return cmpdf(op['expectdf'], r, op.get('tol'), op['m'])

    def op_paths(self, op):
        """A dictionary, or a list, of file names."""
        w = walk(self.o[op['o']], op['at'])
        if isinstance(w, list):
            got = [os.path.relpath(os.path.realpath(v), os.path.realpath(self.root)) for v in w]
            exp = [os.path.normpath(v) for v in op['expect']]
            return None if got == exp else '{}: {}, expected {}'.format(op['at'], got, exp)
        got = {k: os.path.relpath(os.path.realpath(v), os.path.realpath(self.root)) for k, v in walk(self.o[op['o']], op['at']).items()}
        exp = {k: os.path.normpath(v) for k, v in op['expect']}
        return None if got == exp else '{}: {}, expected {}'.format(op['at'], got, exp)

    def op_graphask(self, op):
        if op['what'] != 'none':
            getattr(self.o[op['o']], op['what'])

    def op_graph(self, op):
        """Everything a structure graph shows, against the nodes and elements it should have."""
        G, ns, es = self.o[op['o']], op['nodes'], op['elems']
        out = [cmpval([x['id'] for x in ns], [x.ID for x in G.Nodes], 'exact', 'node IDs'), cmpval([x['id'] for x in es], [x.ID for x in G.Elements], 'exact', 'element IDs')]
        if any(out):
            return out
        for x, y in zip(ns, G.Nodes):
            out.append(cmpval(x['p'], [y.x, y.y, y.z], 'f8', 'node {}'.format(y.ID)))
            for k, v in x['num'] + x['oth']:
                out.append(cmpval(v, y.data.get(k), 'f8', 'node {} data {}'.format(y.ID, k)))
            out += ['node {} has {}'.format(y.ID, k) for k in x['absent'] if k in y.data]
            out.append(None if G.getNode(y.ID) is y else 'getNode')
        for x, y, l in zip(es, G.Elements, op['lensq']):
            w = 'element {} '.format(y.ID)
            out.append(cmpval([x['a'], x['b']], [int(i) for i in y.nodeIDs], 'exact', w + 'nodeIDs'))
            out.append(cmpval([x['a'], x['b']], [i.ID for i in y.nodes], 'exact', w + 'nodes'))
            out.append(None if all(i is G.getNode(i.ID) for i in y.nodes) else w + 'has its own copy of a node')
            for k, v in x['dat']:
                out.append(cmpval(v, y.data.get(k), 'f8', w + 'data ' + k))
            out.append(cmpval([] if not x['pids'] else x['pids'], [] if y.propIDs is None else [int(i) for i in y.propIDs], 'exact', w + 'propIDs'))
            if x['pids']:
                out.append(cmpval(x['ps'], y.propset, 'exact', w + 'propset'))
                for p, r in zip(x['props'], y.nodeProps):
                    for k, v in p:
                        out.append(cmpval(v, r.get(k), 'f8', w + 'property ' + k))
                    out.append(cmpval([k for k, _ in p], [k for k in r.data], 'exact', w + 'property names'))
            out.append(cmpval(num(l), y.length ** 2, 'f8', w + 'length'))
            out.append(None if G.getElement(y.ID) is y else 'getElement')
        out.append(cmpval(op['conn'], [[int(i) for i in c] for c in G.connectivity], 'exact', 'connectivity'))
        out.append(cmpval(op['around'], [[k, v] for k, v in G.nodeIDs2ElementIDs.items()], 'exact', 'nodeIDs2ElementIDs'))
        out.append(cmpval(op['around'], [[k, [e.ID for e in v]] for k, v in G.nodeIDs2Elements.items()], 'exact', 'nodeIDs2Elements'))
        out.append(cmpval([[x['id'], [x['a'], x['b']]] for x in es], [[k, v] for k, v in G.elementIDs2NodeIDs.items()], 'exact', 'elementIDs2NodeIDs'))
        pos = {x['id']: x['p'] for x in ns}
        if ns:
            out.append(cmpval(op['ext'], [list(x) for x in G.extent], 'f8', 'extent'))
            out.append(cmpval(max(num(v) for v in op['ext'][2]), G.maxDimension, 'f8', 'maxDimension'))
            out.append(cmpval([x['p'] for x in ns], G.points, 'f8', 'points'))
            df = G.nodalDataFrame()
            for k in sorted({k for x in ns for k, v in x['num']}):
                for i, x in enumerate(ns):
                    v = dict(x['num']).get(k)
                    if v is not None:
                        out.append(cmpval(v, df[k].values[i], 'f8', 'nodal table ' + k))
            out.append(cmpval([[x['id']] + x['p'] for x in ns], df[['ID', 'x', 'y', 'z']].values.tolist(), 'f8', 'nodal table'))
            df = G.nodalDataFrame(sortBy='z')
            out.append(cmpval(sorted(num(x['p'][2]) for x in ns), df['z'].values.tolist(), 'f8', 'sorted nodal table'))
            j = G.toJSON(os.path.join(self.root, 'graph.json'))
            out.append(cmpval([x['p'] for x in ns], j['Nodes'], 'f8', 'json nodes'))
            out.append(cmpval(op['conn'], j['Connectivity'], 'exact', 'json connectivity'))
            out.append(None if len(j['ElemProps']) == len(es) else 'json element properties')
            with open(os.path.join(self.root, 'graph.json')) as f:
                d = json.load(f)
            out.append(cmpval(op['conn'], d['Connectivity'], 'exact', 'json file'))
        if es:
            out.append(cmpval([[pos[x['a']], pos[x['b']]] for x in es], G.toLines(), 'f8', 'lines'))
        repr(G)
        out = [x for x in out if x]
        return out[0] if out else None

    def op_layout(self, op):
        return check_layout(self.p(op['path']), op['toks'], op.get('tol'), op.get('exact', True))

    def op_repr(self, op):
        r = repr(self.o[op['o']])
        if not isinstance(r, str):
            return 'repr is not a string'

    def op_seplines(self, op):
        """The fields of each line of a delimited text file; a field is a string or a number."""
        with open(self.p(op['path']), encoding=op.get('enc', 'latin-1')) as f:
            lines = [[w.strip() for w in l.split(op['sep'])] for l in f.read().splitlines()]
        return cmplines(op['expect'], lines, op.get('tol'))

    def op_exists(self, op):
        r = os.path.exists(self.p(op['path']))
        return None if r == op['expect'] else '{} exists: {}, expected {}'.format(op['path'], r, op['expect'])

    def op_textlines(self, op):
        """The whitespace-separated words of each line of a written text file."""
        with open(self.p(op['path']), encoding=op.get('enc', 'latin-1')) as f:
            lines = [l.split() for l in f.read().splitlines()]
        if op.get('noblank'):
            lines = [l for l in lines if l]
        return cmplines(op['expect'], lines, op.get('tol'))


    def op_linesof(self, op):
        """Lines of a text file: {"raw": text} verbatim, {"words": [..]} the first words, {"has": w} a word anywhere."""
        with open(self.p(op['path']), encoding=op.get('enc', 'latin-1')) as f:
            lines = f.read().splitlines()
        exp = op['expect']
        if len(lines) != len(exp):
            return '{} has {} lines, expected {}'.format(op['path'], len(lines), len(exp))
        for i, (e, l) in enumerate(zip(exp, lines)):
            w = l.split()
            if 'raw' in e:
                if l.rstrip() != e['raw'].replace('~deg~', '\xb0').rstrip():
                    return 'line {}: expected {!r}, got {!r}'.format(i + 1, e['raw'], l)
            elif 'has' in e:
                if e['has'] not in w:
                    return 'line {}: expected the word {!r}, got {!r}'.format(i + 1, e['has'], l)
            elif 'any' not in e:
                if len(w) < len(e['words']):
                    return 'line {}: expected {}, got {!r}'.format(i + 1, e['words'], l)
                for x, y in zip(e['words'], w):
                    if isinstance(x, dict) and 'any' in x:
                        continue
                    r = None
                    if isinstance(x, str):
                        r = x != y
                    else:
                        try:
                            r = cmpval(x, float(y), op.get('tol'))
                        except ValueError:
                            r = True
                    if r:
                        return 'line {}: expected {}, got {!r}'.format(i + 1, e['words'], l)

    def op_same(self, op):
        """Two files have the same content, white space and the spelling of a number aside."""
        with open(self.p(op['a']), 'rb') as f, open(self.p(op['b']), 'rb') as g:
            x, y = f.read().split(), g.read().split()
        def eq(p, q):
            if p == q:
                return True
            try:
                return float(p.rstrip(b';')) == float(q.rstrip(b';'))
            except ValueError:
                return False
        if len(x) != len(y) or not all(map(eq, x, y)):
            d = [(p, q) for p, q in zip(x, y) if not eq(p, q)][:3]
            return 'files {} and {} differ: {} ({} and {} words)'.format(op['a'], op['b'], d, len(x), len(y))

    def op_listlabels(self, op):
        it = [d['label'] for d in self.o[op['o']] if not d['isComment']]
        return cmpval(op['expect'], it, 'exact', 'iteration')


def cmplines(exp, lines, tol):
    if len(lines) != len(exp):
        return '{} lines, expected {}'.format(len(lines), len(exp))
    for i, (e, l) in enumerate(zip(exp, lines)):
        if isinstance(e, dict) and 'any' in e:
            continue
        if len(e) != len(l):
            return 'line {}: expected {}, got {}'.format(i, e, l)
        for x, w in zip(e, l):
            if isinstance(x, str):
                if x != w:
                    return 'line {}: expected {}, got {}'.format(i, e, l)
            else:
                try:
                    w = float(w)
                except ValueError:
                    return 'line {}: expected {}, got {}'.format(i, e, l)
                r = cmpval(x, w, tol, 'line {}'.format(i))
                if r:
                    return r
    return None


def replay(ops, root):
    """Returns None or (index, message)."""
    it = Interp(root)
    ops = json.loads(json.dumps(ops).replace('~deg~', '\\u00b0'))      # TLC prints ASCII only
    for i, op in enumerate(ops):
        try:
            it.step(op)
        except Mismatch as e:
            return (i, str(e))
    return None
