#!/usr/bin/env python3
"""
Prove that one seed is one execution: run many indexes in several processes, with different worker
shardings and PYTHONHASHSEED values, and compare result signatures, step counts and full event logs.

determinism.py [PROP ...] [--n 60]
"""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CODE = r'''
import sys, json, hashlib
sys.path.insert(0, %r)
from dst import core, runner
prop, start, step, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
mod = runner.prepare(prop)
for i in range(start, n, step):
    p = runner.gen_params(mod, seed, prop, i, 'quick')
    r = runner.run_once(mod, p, keep_log=True)
    h = hashlib.sha1(json.dumps([r['klass'], r['steps'], r['switches'], r['sig'], r['vtime'], r.get('log'), r.get('trace'), r.get('flips')]).encode()).hexdigest()
    h2 = None
    if i %% 3 == 0:
        r2 = runner.run_once(mod, p, {'trace': r['trace'], 'flips': r['flips']}, keep_log=True)
        h2 = (r2['klass'], r2['sig'], r2['steps']) == (r['klass'], r['sig'], r['steps']) and r2.get('log') == r.get('log')
    print(json.dumps([i, h, h2, r['klass'], r['msg'][:200]]))
''' % HERE


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    props = a.props or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'dst', 'checks'))
                              if f[0] == 'c' and f[1:-3].isdigit())
    bad = 0
    for prop in props:
        ref = {}
        procs = []
        for hs, workers in (('0', 4), ('1', 3), ('777', 2), ('random', 5)):
            for w in range(workers):
                e = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
                procs.append((hs, workers, subprocess.Popen(
                    [PY, '-c', CODE, prop, str(w), str(workers), str(a.n), str(a.seed)], env=e,
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        diffs, total, rep = [], 0, 0
        for hs, workers, pr in procs:
            out, err = pr.communicate()
            if pr.returncode:
                print(err[-800:])
                diffs.append('crash')
            for line in out.splitlines():
                i, h, h2, klass, msg = json.loads(line)
                total += 1
                if h2 is not None:
                    rep += 1
                    if not h2:
                        diffs.append(('replay differs', i, hs, klass, msg))
                if i in ref and ref[i] != h:
                    diffs.append((i, hs, workers, klass, msg))
                ref.setdefault(i, h)
        print('%s: %d executions of %d seeds in %d processes, %d replays, %d divergences %s' % (
            prop, total, len(ref), len(procs), rep, len(diffs), diffs[:4]))
        sys.stdout.flush()
        bad += bool(diffs)
    return bad


if __name__ == '__main__':
    sys.exit(main())
