"""Fills DESIGN.md from tools/design_src.md, props_data.py, fixed.txt and seeded/*/meta.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tools')
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note='', tech='', **k):
    P.append((id, title, why, files))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append('* **%s** %s: %s' % (id, title, reason))


exec(open(os.path.join(T, 'props_data.py')).read())
how = {}
for block in open(os.path.join(T, 'design_props.md')).read().split('\n### ')[1:]:
    head, body = block.split('\n', 1)
    how[head.strip()] = body.strip()
src = open(os.path.join(T, 'design_src.md')).read()
props = '\n\n'.join('### %s %s\n%s\n*Why not tests:* %s  Anchors: %s.' % (
    i, t, how.get(i, 'TODO'), w, ', '.join('`%s`' % f for f in fs)) for i, t, w, fs in P)
fixed = '\n'.join('* %s `%s` %s' % (r['property'], r['commit'], r['record'].split(' ', 3)[3])
                  for r in map(json.loads, open(os.path.join(HERE, 'known_findings.jsonl'))) if r['status'] == 'fixed')
known = '\n'.join('* %s %s' % (r['property'], r['what'])
                  for r in map(json.loads, open(os.path.join(HERE, 'known_findings.jsonl'))) if r['status'] == 'known')
caught = json.load(open(os.path.join(T, 'caught.json'))) if os.path.exists(os.path.join(T, 'caught.json')) else {}
rows = ['| change | property | needs | caught |', '|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, 'yes')))
src = src.replace('@@PROPS@@', props).replace('@@NA@@', '\n'.join(NA) or 'None so far.').replace('@@FIXED@@', fixed)
src = src.replace('@@KNOWN@@', ('Recorded, not repaired:\n\n' + known) if known else '').replace('@@SEEDED@@', '\n'.join(rows))
fa = os.path.join(T, 'design_false.md')
src = src.replace('@@FALSE@@', open(fa).read().rstrip() if os.path.exists(fa) else '')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(src)
print([i for i, *_ in P if i not in how])
