"""python3 tools/mkplant.py SPEC.py...: make seeded/<id>/ from specs defining
ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.  A scratch copy of /repo is used."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout -k 5 200 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    tmp = tempfile.mkdtemp(prefix='mkplant')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        for f, old, new in ns['EDITS']:
            p = os.path.join(tmp, 'r', f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches in %s for\n%s' % (fn, s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'], text=True)
        assert diff.strip()
    finally:
        shutil.rmtree(tmp)
    d = os.path.join(ROOT, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    print('made', ns['ID'])
