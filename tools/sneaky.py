#!/opt/venv/bin/python
"""
Run hand-written mutants against the checks.  sneaky.py SPEC.py... [--repo DIR] [--runs N] [--workers N]
A SPEC holds  M = [(PROP, FILE, OLD, NEW, WHAT)]; OLD may be a list of (old, new) with NEW None.
"""
import argparse
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('specs', nargs='+')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--runs', type=int, default=8000)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--grep')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='sneaky-')
    try:
        work = os.path.join(scratch, 'repo')
        shutil.copytree(a.repo, work, ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests', 'docs'))
        verif = os.path.join(scratch, 'verif')
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays', 'evidence'))
        os.mkdir(os.path.join(verif, 'evidence'))
        env = dict(os.environ, VERIF_REPO=work, PYTHONDONTWRITEBYTECODE='1')
        for spec in a.specs:
            for prop, file, old, new, what in runpy.run_path(spec)['M']:
                if a.grep and a.grep not in what and a.grep != prop:
                    continue
                path = os.path.join(work, file)
                text = t = open(path).read()
                for o, n in (old if new is None else [(old, new)]):
                    if t.count(o) != 1:
                        print('%s %s: %d occurrences of %r' % (prop, what, t.count(o), o[:60]))
                        t = None
                        break
                    t = t.replace(o, n)
                if t is None:
                    continue
                open(path, 'w').write(t)
                try:
                    r = subprocess.run([sys.executable, os.path.join(verif, 'check.py'), '--property', prop, '--runs', str(a.runs),
                                        '--workers', str(a.workers), '--no-minimise'], env=env, capture_output=True, text=True, timeout=900)
                    line = [x for x in r.stdout.splitlines() if 'violat' in x.lower()][:1]
                    print('%s %-8s %s   %s' % (prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode), what,
                                              line[0][:160] if line else ''), flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stderr[-800:])
                finally:
                    open(path, 'w').write(text)
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
