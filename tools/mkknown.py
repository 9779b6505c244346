"""Writes known_findings.json: the repaired defects (from the fix: commits of /repo) and the listed ones."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '''
C11: 9e636dc 9672a9b
C12: 5c3c6a8 5e5c9a2
C13: 36a100b 2a36362
C14: accb4cb 02a878b
C02: d124c9c
C26: 4135511 42149c2 ca85652 d3acd6d 61545f4 5faa496
C16: 6e653e3 69c7d86 90d2a6a b2ea1d8 29611eb 9ba5965
C07: 4ace216 98285b6 798cce3 08a9505 930fe49
C04: 1dea2e7 fc573dc 07c7f10 421f2d9 d694d53
C08: c2cf75b 7cb57ce 8739fc2 59a2ff8 96059d8 36a6224 fac0ef1 a37873f c707cea c9de1e5 3cec87b 90449e1 f62b16b 536879d
C09: a3d34a6 2d297db a67b969 d581be9 5267b88 f640566 cedb96d faae416
C10: 121ffda 1a5ebcd 69e2c8d
C28: da6c5b9 a7d1fc7 2d506da 68b66d1
C17: ab10772 442565e 33b45ef d64f8f1 a7153d4 4071810 1e639e8
C01: 5905e03 a62ce05 3659565 c94c65e c788d30 dc827c2 7d2506a 57033d1 27dffb5
C05: 0782a4b 540f03e
C03: 4b60a12 302a4de dff32f3
C18: fc350e2 7058ae9 8ea1d0e 84fdb6d fc9e91e c762b0d
C19: e2ee689 8f4b657 55e638b 0b09685 e802382 0d017e2
C20: cb6952f 9a357ab 90f3e3b 303e00d e16b872 cf724a0 8c1b143 3ead562
C21: 42262d2 2e98493 c098071 2ca3e82 843aba1 ced86b1
C22: 1b0db67 11eb507 638dfaf
C23: 5337562 e6ff75b db96aaf e317343 6367dbb 6c81bc8
C24: 94caeb8 bd0cca5 819de2e 0105f2a 65047fc 005b92a 00b4ddf 12bec5d 58e02c0
C25: 32ffdb8 f5b981b 2a69d85 6253118 b8669bb
C27: 9f29206 f3033f8 b41780b
'''
repo = os.environ.get('VERIF_REPO', '/repo')
log = subprocess.run(['git', '-C', repo, 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
subj = {l.split()[0]: l.split(' ', 1)[1] for l in log}
prop = {c: l.split(':')[0] for l in M.strip().splitlines() for c in l.split(':')[1].split()}
fixes = [c for c in subj if subj[c].startswith('fix:')]
for c in fixes:
    if c not in prop:
        print('NOT MAPPED', c, subj[c])
for c in prop:
    if c not in subj:
        print('NO SUCH COMMIT', c)
out = []
for c in sorted((c for c in prop if c in subj), key=lambda c: (prop[c], -fixes.index(c))):
    out.append({'property': prop[c], 'fixed': 'fixed: property=%s %s %s' % (prop[c], c, subj[c][5:])})
old = json.load(open(os.path.join(here, 'known_findings.json')))
keep = [o for o in old if 'fixed' not in o]
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(' ' + json.dumps(o) for o in keep + out) + '\n]\n')
print(len(out), 'fixed,', len(keep), 'listed')
