"""
python -m dst.worker PROP VSEED START STEP COUNT BUDGET TIER   -> one JSON document on stdout
"""
import json
import os
import sys
from collections import Counter


def main():
    prop, vseed, start, step, count, budget, tier = sys.argv[1:8]
    vseed, start, step, count, budget = int(vseed), int(start), int(step), int(count), float(budget)
    from . import core, runner
    t0 = core.real_monotonic()
    mod = runner.prepare(prop)
    known = getattr(mod, 'known', None)
    agg = {'runs': 0, 'steps': 0, 'switches': 0, 'vtime': 0.0, 'stats': Counter(),
           'probes': Counter(), 'per_scn': Counter(), 'sigs': set(), 'nontrivial': set(),
           'violations': [], 'known': [], 'harness': [], 'samples': [], 'modes': Counter(),
           'budget_hit': False, 'threads': 0}
    maxviol = int(os.environ.get('DST_MAXVIOL', '1'))
    idx = start
    while idx < count:
        if core.real_monotonic() - t0 > budget:
            agg['budget_hit'] = True
            break
        p = runner.gen_params(mod, vseed, prop, idx, tier)
        r = runner.run_once(mod, p)
        if r['klass'] == 'HUNG':
            r = runner.run_once(mod, p, limit=2 * runner.REAL_LIMIT)
            if r['klass'] == 'HUNG':
                r['klass'] = 'hang'
                r['msg'] = 'run did not end in %d real seconds' % (2 * runner.REAL_LIMIT)
        agg['runs'] += 1
        agg['steps'] += r['steps']
        agg['switches'] += r['switches']
        agg['vtime'] += r['vtime']
        agg['threads'] += r.get('nthreads', 0)
        agg['stats'].update(r['stats'])
        agg['probes'].update(r['probes'])
        agg['per_scn'][p['scn']] += 1
        agg['modes'][p['sched']['mode']] += 1
        key = '%s:%d' % (p['scn'], r['sig'])
        agg['sigs'].add(key)
        if r['switches'] > 2 or any(k.startswith('fault:') for k in r['stats']):
            agg['nontrivial'].add(key)
        if r['klass'] == 'HARNESS':
            agg['harness'].append({'idx': idx, 'params': p, 'msg': r['msg']})
            if len(agg['harness']) > 5:
                break
        elif r['klass'] is not None:
            v = {'idx': idx, 'params': p, 'klass': r['klass'], 'msg': r['msg'],
                 'trace': r.get('trace', []), 'flips': r.get('flips', {})}
            agg['violations'].append(v)
            if len(agg['violations']) >= maxviol:
                break
        elif len(agg['samples']) < 2:
            agg['samples'].append({'idx': idx, 'params': p, 'steps': r['steps'],
                                   'switches': r['switches'], 'vtime': r['vtime'], 'sig': r['sig'],
                                   'faults': {k: v for k, v in r['stats'].items()}})
        idx += step
    agg['sigs'] = sorted(agg['sigs'])
    agg['nontrivial'] = sorted(agg['nontrivial'])
    agg['failed_imports'] = runner.FAILED_IMPORTS
    json.dump(agg, sys.stdout)
    sys.stdout.flush()


if __name__ == '__main__':
    main()
