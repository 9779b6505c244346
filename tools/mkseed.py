#!/usr/bin/env python3
"""mkseed.py def.py...: make /verif/seeded/<ID> from a definition (ID, PROP, EDITS, NEEDS, BREAKS, DEMO), confirming in a scratch copy of /repo
that the tests pass with the change and that the demonstration tells the two trees apart; then tell which check reports it (--check)."""
import sys, os, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def rep(p, pairs):
    s = open(p, newline='').read()
    crlf = '\r\n' in s
    for a, b in pairs:
        if crlf:
            a = a.replace('\n', '\r\n')
            b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (p, a, s.count(a))
        s = s.replace(a, b)
    open(p, 'w', newline='').write(s)


def make(deffile, docheck):
    d = {}
    exec(open(deffile).read(), d)
    work = tempfile.mkdtemp(prefix='seed-')
    try:
        cp = os.path.join(work, 'repo')
        shutil.copytree('/repo', cp, symlinks=True)
        out = os.path.join(ROOT, 'seeded', d['ID'])
        dd = os.path.join(work, 'demo')
        os.makedirs(dd)
        demo = d['DEMO']
        with open(os.path.join(dd, 'demo.py'), 'w') as f:
            f.write("import os, sys, tempfile, shutil, warnings\nwarnings.filterwarnings('ignore')\nsys.path.insert(0, os.getcwd())\n"
                    "import numpy as np, pandas as pd\n"
                    "tmp = tempfile.mkdtemp()\nimport atexit\natexit.register(shutil.rmtree, tmp, True)\nos.environ['HOME'] = tmp\nEX = os.path.join(os.getcwd(), 'weio', 'tests', 'example_files')\n" + demo)
        with open(os.path.join(dd, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        r = sh('sh {}/demo.sh'.format(dd), cp)
        if r.returncode != 0:
            print(d['ID'], 'demo fails on the unchanged tree:\n', r.stdout[-1500:])
            return False
        by = {}
        for f, a, b in d['EDITS']:
            by.setdefault(f, []).append((a, b))
        for f, prs in by.items():
            rep(os.path.join(cp, f), prs)
        r = sh('sh {}/demo.sh'.format(dd), cp)
        if r.returncode == 0:
            print(d['ID'], 'demo passes with the change')
            return False
        tail = r.stdout.strip().splitlines()[-1:]
        r = sh(PY + ' -m pytest -q -x -p no:cacheprovider weio/tests', cp)
        if r.returncode != 0:
            print(d['ID'], 'tests fail with the change:\n', r.stdout[-1500:])
            return False
        sh('git clean -fdq; git checkout -q -- weio/tests', cp)
        diff = sh('git diff', cp).stdout
        raw = subprocess.run(['git', 'diff'], cwd=cp, stdout=subprocess.PIPE).stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(raw)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, f, indent=1)
        print(d['ID'], d['PROP'], 'kept; demo:', tail)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if docheck:
        return run(d['ID'])
    return True


def run(ID, props=None):
    """which checks report the planted bug (in a copy of /repo)"""
    out = os.path.join(ROOT, 'seeded', ID)
    m = json.load(open(os.path.join(out, 'meta.json')))
    work = tempfile.mkdtemp(prefix='seed-')
    try:
        cp = os.path.join(work, 'repo')
        shutil.copytree('/repo', cp, symlinks=True)
        subprocess.check_call(['git', '-C', cp, 'apply', os.path.join(out, 'patch.diff')])
        ev = os.path.join(work, 'verif')
        shutil.copytree(ROOT, ev, symlinks=True, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
        for p in props or [m['property']]:
            r = sh('./check ' + p, ev, dict(VERIF_REPO=cp, VERIF_TIER='quick', VERIF_SEED='1'))
            print('   ', ID, p, 'CAUGHT' if 'VIOLATION property=' + p in r.stdout else '******** MISSED', r.stdout.strip().splitlines()[0][:200], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'run':
        ids = a[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
        for i in ids:
            run(i)
    else:
        for f in a:
            if f != '--check':
                make(f, '--check' in a)
