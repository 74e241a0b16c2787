"""Writes known_findings.jsonl from the list below (commits looked up in /repo by subject)"""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
subj = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
FIXED = [l.split('|', 2) for l in open(os.path.join(HERE, 'tools', 'fixed.txt')).read().splitlines() if l.strip()]
KNOWN = json.load(open(os.path.join(HERE, 'tools', 'known.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'known.json')) else []
seen = set()
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
    for prop, s, what in FIXED:
        h = [k for k in subj if k.startswith('fix: ' + s)]
        assert len(h) == 1, (s, h)
        seen.add(h[0])
        f.write(json.dumps({'status': 'fixed', 'property': prop, 'commit': subj[h[0]],
                            'record': 'fixed: property=%s %s %s' % (prop, subj[h[0]], what)}) + '\n')
    for k in KNOWN:
        f.write(json.dumps(dict(k, status='known')) + '\n')
for k in subj:
    if k.startswith('fix:') and k not in seen:
        print('not recorded:', k)
