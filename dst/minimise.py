"""
python -m dst.minimise PROP IN.json OUT.json   - shrink a failing run, write a replay file
"""
import json
import random
import sys


def main():
    prop, inp, outp = sys.argv[1:4]
    from . import core, runner
    mod = runner.prepare(prop)
    v = json.load(open(inp))
    p, klass = v['params'], v['klass']
    best = {'trace': v['trace'], 'flips': v['flips']}
    t_end = core.real_monotonic() + 75
    runs = [0]

    def attempt(params, rep):
        runs[0] += 1
        return runner.run_once(mod, params, rep)

    r = attempt(p, best)
    if r['klass'] != klass:
        out = {'property': prop, 'reproduced': False, 'params': p, 'klass': klass, 'msg': v['msg'],
               'trace': best['trace'], 'flips': best['flips'], 'got': [r['klass'], r['msg']]}
        json.dump(out, open(outp, 'w'))
        return
    scn = [s for s in mod.SCENARIOS if s.name == p['scn']][0]
    rng = random.Random(12345)
    # 1. shrink the program, searching for a new schedule when the recorded one no longer fits
    improved = True
    while improved and core.real_monotonic() < t_end - 35:
        improved = False
        for q in scn.shrink(p):
            if core.real_monotonic() > t_end - 35:
                break
            q = json.loads(json.dumps(q))
            hit = None
            r = attempt(q, best)
            if r['klass'] == klass:
                hit = (q, r)
            else:
                for k in range(25):
                    q2 = dict(q)
                    q2['sched'] = dict(runner.gen_sched(rng))
                    q2['sched'].pop('wj', None)
                    for key in ('base', 'tick', 'wall', 'late', 'wj'):
                        if key in p['sched']:
                            q2['sched'][key] = p['sched'][key]
                    if k < 6:
                        q2['sched'] = dict(p['sched'], seed=rng.getrandbits(48))
                    r = attempt(q2, None)
                    if r['klass'] == klass:
                        hit = (q2, r)
                        break
            if hit is not None:
                p, r = hit
                best = {'trace': r['trace'], 'flips': r['flips']}
                improved = True
                break

    # 2. ddmin over scheduling decisions and faults
    items = [('t', e) for e in best['trace']] + \
            [('f', k, e) for k, es in best['flips'].items() for e in es]

    def build(its):
        fl = {}
        for it in its:
            if it[0] == 'f':
                fl.setdefault(it[1], []).append(it[2])
        return {'trace': [it[1] for it in its if it[0] == 't'], 'flips': fl}

    n = 2
    while len(items) >= 1 and core.real_monotonic() < t_end:
        chunk = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), chunk):
            cand = items[:i] + items[i + chunk:]
            r = attempt(p, build(cand))
            if r['klass'] == klass:
                items = cand
                n = max(2, n - 1)
                reduced = True
                break
            if core.real_monotonic() > t_end:
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    best = build(items)
    r = runner.run_once(mod, p, best, keep_log=True)
    out = {'property': prop, 'reproduced': r['klass'] == klass, 'params': p, 'klass': klass,
           'msg': r['msg'], 'trace': best['trace'], 'flips': best['flips'],
           'sig': r['sig'], 'steps': r['steps'], 'vtime': r['vtime'],
           'first_seen': {'idx': v['idx'], 'msg': v['msg'], 'decisions': len(v['trace'])},
           'minimise_runs': runs[0], 'log': r.get('log')}
    json.dump(out, open(outp, 'w'), indent=1)


if __name__ == '__main__':
    main()
