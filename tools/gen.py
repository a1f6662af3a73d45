#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=list(state), observe_at=list(observe), hook_needed=None)), technique, note))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[], observe_at=[], hook_needed=None)), None, reason))
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, t, n in P: f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 engine/facts.py', checks=[], not_applicable=[])
for p, t, n in P:
    if t is None: m['not_applicable'].append(dict(property=p['id'], reason=n)); continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
        technique=t, level='other', level_note=n, evidence_file='evidence/%s.json' % p['id']))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import sys
for p, t, n in P:
    assert len(p['title']) <= 80, p['id']
    if t and not os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')): sys.exit('no rule for ' + p['id'])
