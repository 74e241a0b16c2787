#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, real='', stub='', note='',
         tech='deterministic simulation: seeded schedules and faults, model oracle'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe or [], note=note, tech=tech))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append((id, reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

CLAIMED = [p for p in P if p['id'] not in dict(NA) and
           os.path.exists(os.path.join(HERE, 'dst', 'checks', p['id'].lower() + '.py'))]
for p in P:
    if p not in CLAIMED and p['id'] not in dict(NA):
        NA.append((p['id'], 'check under construction'))

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

man = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py --property %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['tech'],
        'level': 'exploration',
        'level_note': p['note'] or (
            'Seeded search over thread schedules (preemption at any bytecode of satella code), clocks '
            'and faults against an executable model of the public API; sampled, not exhaustive. Trusts '
            'the simulated locks, clocks and thread start/exit, and the atomicity of single C-level '
            'container operations.'),
    } for p in CLAIMED],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
    'notes': 'check.py --replay FILE replays a reported violation exactly. No hooks in /repo: the seams are '
             'the standard-library primitives (threading, time, queue, os, open) replaced before satella is '
             'imported. tools/determinism.py proves that a seed is one execution.',
}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('%d properties, %d claimed, %d n/a' % (len(P), len(CLAIMED), len(NA)))
