"""Replays many behaviours in worker processes, each in a scratch directory of its own."""
import os, sys, json, shutil, signal, tempfile, traceback, warnings, io, contextlib, multiprocessing as mp


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


_W = {}


def _init(scratch, funcname, limit):
    import importlib
    mod, fn = funcname.rsplit('.', 1)
    _W['dir'] = tempfile.mkdtemp(dir=scratch, prefix='w')
    _W['fn'] = getattr(importlib.import_module(mod), fn)
    _W['limit'] = limit
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter('ignore')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')


def _one(item):
    idx, payload = item
    root = os.path.join(_W['dir'], 'r')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.chdir(root)
    try:
        signal.alarm(_W['limit'])
        try:
            r = _W['fn'](payload, root)
        finally:
            signal.alarm(0)
    except Timeout:
        r = (-1, 'no answer within {} s'.format(_W['limit']))
    except Exception as e:
        r = (-2, 'harness error: ' + traceback.format_exc()[-1500:])
    os.chdir('/')
    shutil.rmtree(root, ignore_errors=True)
    return idx, r


def run(payloads, scratch, func='interp.replay', procs=8, limit=60, chunk=None):
    """[result or None] for every payload. func(payload, root) -> None | (step, message)."""
    if not payloads:
        return []
    n = len(payloads)
    res = [None] * n
    ctx = mp.get_context('fork')
    procs = max(1, min(procs, n))
    chunk = chunk or max(1, min(64, n // (procs * 4)))
    with ctx.Pool(procs, _init, (scratch, func, limit)) as pool:
        for idx, r in pool.imap_unordered(_one, list(enumerate(payloads)), chunksize=chunk):
            res[idx] = r
    return res
