"""Comparing values observed on the implementation with the values the specification emitted.

Encodings used by the specifications (after JSON):
  int, string, bool      themselves
  {"n":a,"d":b}          the rational a/b
  {"n":a,"d":b,"e":k}    a/b times 10**k
  {"nan":1}              not-a-number / missing
  {"none":1}             None
  {"any":1}              anything (unspecified by the model)
  {"map":[[k,v],..]}     a mapping with exactly these keys
  {"sub":[[k,v],..]}     a mapping with at least these keys
  {"set":[..]}           a collection with these elements, in any order
  [..]                   a sequence (list, tuple, 1-D/2-D.. array, Series)
"""
import math
from fractions import Fraction
import numpy as np
import pandas as pd

TOLS = {'exact': (0.0, 0.0), 'f8': (1e-12, 1e-14), 'f4': (3e-6, 1e-9), 'f3': (1.1e-3, 1e-9)}


def num(v):
    if isinstance(v, dict):
        if 'nan' in v:
            return float('nan')
        if 'e' in v:
            return float(Fraction(v['n'], v['d']) * Fraction(10) ** v['e'])
        return v['n'] / v['d']
    return float(v)


def isnum(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (isinstance(v, dict) and (set(v) == {'n', 'd'} or set(v) == {'n', 'd', 'e'}))


def tolpair(t):
    if t is None:
        return TOLS['f8']
    if isinstance(t, str):
        return TOLS[t]
    if isinstance(t, dict) and ('abs' in t or 'rel' in t):
        return (num(t.get('rel', {'n': 1, 'd': 10**12})), num(t.get('abs', {'n': 1, 'd': 10**12})))
    return (1e-12, num(t))


def _short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def cmpval(exp, act, tol=None, where=''):
    """None if act matches exp, else a description."""
    if isinstance(exp, dict):
        ks = set(exp)
        if ks == {'any'}:
            return None
        if ks == {'ty', 'v'}:
            T = {'bool': (bool, np.bool_), 'int': (int, np.integer), 'float': (float, np.floating), 'str': (str,), 'list': (list, tuple, np.ndarray)}[exp['ty']]
            if not isinstance(act, T) or (exp['ty'] == 'int' and isinstance(act, (bool, np.bool_))):
                return '{}: expected a value of type {}, got {}'.format(where, exp['ty'], _short(act))
            return cmpval(exp['v'], act, tol, where)
        if ks == {'v', 'tol'}:
            return cmpval(exp['v'], act, exp['tol'], where)
        if ks == {'none'}:
            return None if act is None else '{}: expected None, got {}'.format(where, _short(act))
        if ks == {'nan'}:
            try:
                if pd.isnull(act):
                    return None
            except (TypeError, ValueError):
                pass
            return '{}: expected NaN, got {}'.format(where, _short(act))
        if ks == {'set'}:
            try:
                a = list(act)
            except TypeError:
                return '{}: expected a collection, got {}'.format(where, _short(act))
            if len(a) != len(exp['set']):
                return '{}: expected {} elements, got {}'.format(where, len(exp['set']), _short(a))
            for x in exp['set']:
                for i, y in enumerate(a):
                    if cmpval(x, y, tol) is None:
                        del a[i]
                        break
                else:
                    return '{}: element {} not found in {}'.format(where, _short(x), _short(act))
            return None
        if ks == {'map'} or ks == {'sub'}:
            pairs = exp.get('map', exp.get('sub'))
            try:
                keys = list(act.keys())
            except AttributeError:
                return '{}: expected a mapping, got {}'.format(where, _short(act))
            if 'map' in exp and sorted(map(str, keys)) != sorted(str(k) for k, _ in pairs):
                return '{}: expected keys {}, got {}'.format(where, [k for k, _ in pairs], keys)
            for k, v in pairs:
                if k not in keys:
                    return '{}: key {} missing from {}'.format(where, k, keys)
                r = cmpval(v, act[k], tol, '{}[{}]'.format(where, k))
                if r:
                    return r
            return None
    if isinstance(exp, bool):
        if isinstance(act, (bool, np.bool_)) and bool(act) == exp:
            return None
        return '{}: expected {}, got {}'.format(where, exp, _short(act))
    if isinstance(exp, str):
        if isinstance(act, bytes):
            try:
                act = act.decode('utf-8')
            except UnicodeDecodeError:
                pass
        if isinstance(act, str) and str(act) == exp:
            return None
        return '{}: expected string {!r}, got {}'.format(where, exp, _short(act))
    if isnum(exp):
        x = num(exp)
        if isinstance(act, (bool, np.bool_)):
            return '{}: expected number {}, got {}'.format(where, x, act)
        if isinstance(act, str):
            return '{}: expected number {}, got string {!r}'.format(where, x, act)
        if isinstance(act, np.ndarray):
            if act.size != 1 or act.ndim > 0:
                return '{}: expected number {}, got array {}'.format(where, x, _short(act))
            act = act.item()
        try:
            a = float(act)
        except (TypeError, ValueError):
            return '{}: expected number {}, got {}'.format(where, x, _short(act))
        rt, at = tolpair(tol)
        if math.isnan(a) or abs(a - x) > at + rt * abs(x):
            return '{}: expected {!r}, got {!r}'.format(where, x, a)
        return None
    if isinstance(exp, list):
        if isinstance(act, (pd.Series, pd.Index)):
            act = act.values
        if isinstance(act, (str, bytes)) or not hasattr(act, '__len__'):
            return '{}: expected sequence of {}, got {}'.format(where, len(exp), _short(act))
        act = list(act)
        if len(act) != len(exp):
            return '{}: expected {} elements, got {} ({})'.format(where, len(exp), len(act), _short(act))
        for i, (x, y) in enumerate(zip(exp, act)):
            r = cmpval(x, y, tol, '{}[{}]'.format(where, i))
            if r:
                return r
        return None
    if exp is None:
        return None if act is None else '{}: expected None, got {}'.format(where, _short(act))
    return '{}: unsupported expectation {}'.format(where, _short(exp))


def cmpdf(exp, df, tol=None, where='df'):
    """exp: {"cols":[..], "rows":[[..]..]} or {"cols":[..], "data":[col..]}; optional "dfs": [[name, exp]..]"""
    if 'dfs' in exp:
        if not isinstance(df, dict):
            return '{}: expected a dict of tables, got {}'.format(where, type(df).__name__)
        names = [n for n, _ in exp['dfs']]
        if sorted(map(str, df.keys())) != sorted(map(str, names)):
            return '{}: expected tables {}, got {}'.format(where, names, list(df.keys()))
        for n, e in exp['dfs']:
            key = n if n in df else [k for k in df if str(k) == str(n)][0]
            r = cmpdf(e, df[key], tol, '{}[{}]'.format(where, n))
            if r:
                return r
        return None
    if 'free' in exp:
        return None
    if 'none' in exp:
        return None if df is None else '{}: expected no table'.format(where)
    if not isinstance(df, pd.DataFrame):
        return '{}: expected a DataFrame, got {}'.format(where, type(df).__name__)
    if exp.get('pre') and df.shape[1] >= len(exp['cols']):
        df = df.iloc[:, :len(exp['cols'])]
    if 'cols' in exp:
        r = cmpval(exp['cols'], list(df.columns), 'exact', where + '.columns')
        if r:
            return r
    if 'rows' in exp:
        if len(df) != len(exp['rows']):
            return '{}: expected {} rows, got {}'.format(where, len(exp['rows']), len(df))
        for i, row in enumerate(exp['rows']):
            r = cmpval(row, [df.iloc[i, j] for j in range(df.shape[1])], tol, '{}.row{}'.format(where, i))
            if r:
                return r
    if 'data' in exp:
        if df.shape[1] != len(exp['data']):
            return '{}: expected {} columns, got {}'.format(where, len(exp['data']), df.shape[1])
        for j, col in enumerate(exp['data']):
            r = cmpval(col, df.iloc[:, j].values, tol, '{}[{}]'.format(where, list(df.columns)[j]))
            if r:
                return r
    return None


def decode(v):
    """Turn an encoded value into a python value, to be passed to the implementation."""
    if isinstance(v, dict):
        ks = set(v)
        if isnum(v):
            return num(v)
        if ks == {'nan'}:
            return float('nan')
        if ks == {'none'}:
            return None
        if ks == {'arr'}:
            return np.array(decode(v['arr']), dtype=float)
        if ks == {'iarr'}:
            return np.array(decode(v['iarr']), dtype=int)
        if ks == {'map'}:
            return {k: decode(x) for k, x in v['map']}
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v
