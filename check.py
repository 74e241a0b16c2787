#!/usr/bin/env python3
"""
check.py --property C01            run a check (VERIF_SEED, VERIF_TIER from the environment)
check.py --replay replays/x.json   replay a reported violation exactly
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def env():
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = e.get('DST_HASHSEED', '0')
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = HERE
    return e


def load_known():
    out = []
    fn = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def replay(path, quiet=False):
    r = subprocess.run([PY, '-m', 'dst.replay', path], env=env(), cwd=HERE, capture_output=True,
                       text=True, timeout=300)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return json.loads(r.stdout), ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--maxviol', type=int, default=1)
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args()
    if a.replay:
        v = json.load(open(a.replay))
        res, err = replay(a.replay)
        if res is None:
            print('replay failed to run: ' + err)
            return 2
        print('\n'.join(res.get('log') or []))
        if res['klass'] is None or res['klass'] == 'HARNESS':
            print('not reproduced: %s %s' % (res['klass'], res['msg']))
            return 0 if res['klass'] is None else 2
        print('%s: %s' % (res['klass'], res['msg']))
        same = res['klass'] == v['klass'] and res['sig'] == v.get('sig') and \
            res['steps'] == v.get('steps')
        print('identical to the recorded execution: %s' % same)
        print('VIOLATION property=%s replay=%s' % (v['property'], a.replay))
        return 1

    prop, tier = a.property.upper(), a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    conf = json.load(open(os.path.join(HERE, 'dst', 'conf.json')))
    c = dict(conf['default'], **conf.get(prop, {}))
    runs = a.runs or c[tier + '_runs']
    budget = a.budget or c[tier + '_budget']
    t0 = time.time()
    print('%s: seed=%d tier=%s runs=%d workers=%d' % (prop, a.seed, tier, runs, a.workers))
    sys.stdout.flush()
    e = env()
    e['DST_MAXVIOL'] = str(a.maxviol)
    procs = [subprocess.Popen([PY, '-m', 'dst.worker', prop, str(a.seed), str(w), str(a.workers),
                               str(runs), str(budget), tier], env=e, cwd=HERE,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
             for w in range(a.workers)]
    import threading
    outs = [None] * len(procs)

    def drain(i):
        outs[i] = procs[i].communicate()

    ths = [threading.Thread(target=drain, args=(i,), daemon=True) for i in range(len(procs))]
    for t in ths:
        t.start()
    stop_at = None
    while any(t.is_alive() for t in ths):
        for t in ths:
            t.join(0.05)
        if stop_at is None and any(o is not None and procs[i].returncode == 0 and
                                   json.loads(o[0])['violations'] for i, o in enumerate(outs)):
            stop_at = time.time() + 3       # give the others a moment, then stop
        if stop_at is not None and time.time() > stop_at and a.maxviol == 1:
            for pr in procs:
                if pr.poll() is None:
                    pr.kill()
    aggs = []
    errors = []
    for i, pr in enumerate(procs):
        if pr.returncode == 0:
            aggs.append(json.loads(outs[i][0]))
        elif stop_at is None or pr.returncode > 0:
            errors.append('worker %d exit %s: %s' % (i, pr.returncode, outs[i][1][-1500:]))
    tot = {'runs': 0, 'steps': 0, 'switches': 0, 'vtime': 0.0, 'threads': 0}
    stats, probes, scns, modes = Counter(), Counter(), Counter(), Counter()
    sigs, nontriv, viols, samples = set(), set(), [], []
    hit = False
    for g in aggs:
        for k in tot:
            tot[k] += g[k]
        stats.update(g['stats'])
        probes.update(g['probes'])
        scns.update(g['per_scn'])
        modes.update(g['modes'])
        sigs.update(g['sigs'])
        nontriv.update(g['nontrivial'])
        viols += g['violations']
        samples += g['samples'][:1]
        hit = hit or g['budget_hit']
        for h in g['harness']:
            errors.append('harness error in run %d: %s params=%s' % (
                h['idx'], h['msg'], json.dumps(h['params'])[:1500]))
        if g['failed_imports']:
            errors_note = g['failed_imports']
            print('note: modules that failed to import: %s' % errors_note)
    wall = time.time() - t0
    code = 0
    viols.sort(key=lambda v: v['idx'])
    seen = set()
    reported = []
    for v in viols:
        key = (v['params']['scn'], v['klass'])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        tag = hashlib.sha1(json.dumps([v['params'], v['klass']], sort_keys=True).encode()).hexdigest()[:10]
        raw = os.path.join(HERE, 'replays', '%s-%s.raw.json' % (prop, tag))
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, tag))
        json.dump(v, open(raw, 'w'))
        ok = False
        if not a.no_minimise and v['klass'] != 'hang':
            try:
                subprocess.run([PY, '-m', 'dst.minimise', prop, raw, path], env=e, cwd=HERE,
                               timeout=240, capture_output=True)
                m = json.load(open(path))
                ok = m['reproduced']
            except Exception as ex:
                print('minimiser failed: %r' % (ex,))
        if not ok:
            json.dump(dict(v, property=prop), open(path, 'w'))
            m = v
        print('violation class %s in scenario %s (run %d): %s' % (
            v['klass'], v['params']['scn'], v['idx'], m['msg'][:1500]))
        if ok:
            print('  minimised to %d scheduling decisions, %d faults; program: %s' % (
                len(m['trace']), sum(len(x) for x in m['flips'].values()),
                json.dumps({k: x for k, x in m['params'].items() if k != 'sched'})[:800]))
            res, err = replay(path)
            same = res is not None and res['klass'] == m['klass'] and res['sig'] == m['sig']
            print('  replay in a fresh process: %s' % ('identical' if same else 'DIFFERENT %r' % (res and res['klass'],)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        reported.append({'class': v['klass'], 'scenario': v['params']['scn'], 'replay': path})
        code = 1
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    for k in known:
        if probes.get('known:' + k['id']):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if errors and code == 0:
        for x in errors[:5]:
            print('HARNESS-ERROR ' + x)
        code = 2
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    for k in ('preempt', 'stall', 'late_wakeup', 'wall_clock_jump', 'timer_fired'):
        if stats.get(k):
            faults[k] = stats[k]
    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(nontriv),
            'rule': 'One evaluation = one simulated run: a seeded workload program, executed by real '
                    'satella code under a seeded schedule with seeded faults. Distinct = different '
                    'hash of (scenario, sequence of thread switches with the code position each '
                    'happened at, operation outcomes, injected faults); non-trivial = more than two '
                    'thread switches or at least one injected fault.',
            'samples': samples[:4],
            'runs_per_scenario': dict(scns),
            'schedule_modes': dict(modes),
            'runs_per_hour': int(tot['runs'] / max(wall, 0.001) * 3600),
            'simulated_seconds': round(tot['vtime'], 3),
            'scheduler_steps': tot['steps'],
            'thread_switches': tot['switches'],
            'simulated_threads': tot['threads'],
            'distinct_interleavings': len(sigs),
            'faults_injected': faults,
            'probes': dict(sorted(probes.items())),
            'real_components': c.get('real', ''),
            'stubbed_components': c.get('stub', ''),
            'budget_exhausted': hit,
            'workers': a.workers,
            'harness_errors': len(errors),
        },
        'assumptions': conf['assumptions'] + c.get('assume', []),
        'wall_s': round(wall, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % prop))
    print('%s: %d runs, %d distinct interleavings, %d switches, %.0f simulated s, %.1f s wall%s -> exit %d' % (
        prop, tot['runs'], len(sigs), tot['switches'], tot['vtime'], wall,
        ' (budget exhausted)' if hit else '', code))
    if os.environ.get('DST_VERBOSE'):
        print(json.dumps({'faults': faults, 'probes': dict(sorted(probes.items())), 'scn': scns}, indent=1))
    return code


if __name__ == '__main__':
    sys.exit(main())
