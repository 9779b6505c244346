#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (they are committed; this only keeps them in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, claim=True, reason=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, claim=claim, reason=reason,
                  technique=technique or 'TLA+ specification model-checked with TLC; its behaviours replayed into the code'))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
done = set()
d = os.path.join(ROOT, 'vf', 'checks')
import re
for fn in os.listdir(d):
    if fn.endswith('.py'):
        done |= set(re.findall(r"@check\('(\w+)'\)", open(os.path.join(d, fn)).read()))
man = {'version': 1, 'setup_cmd': './check setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['id'] in done and p['claim']:
        man['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check {} --tier thorough'.format(p['id']),
                              'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': p['reason'] or 'check not built yet'})
man['notes'] = 'No hooks: everything is observed through the public interface and the files written.'
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
