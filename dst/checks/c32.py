"""C32 MemoryPressureManager"""
import collections
import threading
import time

import psutil

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn
from .common import EPS

from satella.instrumentation.memory import (MemoryPressureManager, GlobalAbsoluteValue, GlobalRelativeValue, LocalAbsoluteValue,
                                            LocalRelativeValue, CustomCondition, All, Any, Not)

VM = collections.namedtuple('VM', 'total available')
MI = collections.namedtuple('MI', 'rss vms')
TOTAL, MAXIMUM = 16000, 8000


def gen_cond(rng, depth=0):
    k = rng.choice(['ga', 'gr', 'la', 'lr', 'cu', 'cu'] + (['all', 'any', 'not'] if depth < 2 else []))
    if k in ('all', 'any'):
        return [k] + [gen_cond(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if k == 'not':
        return [k, gen_cond(rng, depth + 1)]
    if k == 'cu':
        return [k, rng.randint(0, 2)]
    return [k, {'ga': rng.choice([800, 4000, 8000]), 'la': rng.choice([400, 2000, 4000])}.get(k, rng.choice([5, 25, 50]))]


def evaluate(c, st):
    k = c[0]
    if k == 'ga':
        return st['avail'] < c[1]
    if k == 'gr':
        return st['avail'] * 100 < c[1] * TOTAL
    if k == 'la':
        return MAXIMUM - st['rss'] < c[1]
    if k == 'lr':
        return (MAXIMUM - st['rss']) * 100 < c[1] * MAXIMUM
    if k == 'cu':
        return st['flags'][c[1]]
    if k == 'all':
        return all(evaluate(x, st) for x in c[1:])
    if k == 'any':
        return any(evaluate(x, st) for x in c[1:])
    return not evaluate(c[1], st)


class Thing:
    def __init__(self, n, log):
        self.n = n
        self.log = log

    def cleanup(self):
        self.log('cleanup', self.n)


class Pressure(Scenario):
    name = 'levels'

    def gen(self, rng):
        levels = [gen_cond(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        n = len(levels)
        states = [{'avail': rng.choice([500, 3000, 6000, 12000]), 'rss': rng.choice([100, 3000, 5000, 7000, 7900]),
                   'flags': [rng.random() < 0.5 for _ in range(3)], 'for': rng.choice([0.5, 1, 3, 7])} for _ in range(rng.randint(3, 12))]
        progs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 7)):
                k = rng.choice(['entered', 'entered', 'left', 'left', 'normal', 'remains', 'remains', 'cleanup', 'cleanup', 'after', 'after', 'cancel', 'drop', 'stop', 'resume'])
                ops.append([k, rng.randint(0, n) if k == 'remains' else rng.randint(1, n), rng.choice([0, 0, 2, 5]), rng.choice([0, 0, 0, 0.3, 1.0, 2.0])])
            progs.append(ops)
        return {'progs': progs, 'levels': levels, 'states': states, 'interval': rng.choice([1, 1, 2, '3s']), 'slow': rng.choice([0, 0, 0, 0.2, 1.5]),
                'sched': gen_sched(rng, stall_max=(0.001, 0.02))}

    def shrink(self, p):
        yield from super().shrink(p)
        for i in range(len(p['states'])):
            if len(p['states']) > 1:
                yield dict(p, states=p['states'][:i] + p['states'][i + 1:])

    def run(self, sim, p):
        interval = float(str(p['interval']).rstrip('s'))
        checks = []      # [seq, time, level]
        log = []         # [seq, kind, id, level, time]
        cur = [p['states'][0]]
        t_end = sim.now + sum(s['for'] for s in p['states'])
        t_begin = sim.now
        manager = []

        happened = threading.Event()

        def record(kind, n):
            if kind == 'cleanup':
                happened.set()
            log.append([sim.seq(), kind, n, manager[0].severity_level, sim.now])
            if p['slow']:
                time.sleep(p['slow'])

        def level_of(st):
            for i in reversed(range(len(p['levels']))):
                if evaluate(p['levels'][i], st):
                    return i + 1
            return 0

        class Process:
            def __init__(self, pid=None):
                pass

            def memory_info(self):
                t = t_begin
                for st in p['states']:
                    t += st['for']
                    if sim.now < t:
                        break
                cur[0] = st
                checks.append([sim.seq(), sim.now, level_of(st)])
                return MI(st['rss'], st['rss'] * 3 + 1000)

        psutil.Process = Process
        psutil.virtual_memory = lambda: VM(TOTAL, cur[0]['avail'])

        def build(c):
            k = c[0]
            if k in ('all', 'any'):
                return (All if k == 'all' else Any)(*map(build, c[1:]))
            if k == 'not':
                return Not(build(c[1]))
            if k == 'cu':
                return CustomCondition(lambda: cur[0]['flags'][c[1]])
            return {'ga': GlobalAbsoluteValue, 'gr': GlobalRelativeValue, 'la': LocalAbsoluteValue, 'lr': LocalRelativeValue}[k](c[1])

        mgr = MemoryPressureManager(MAXIMUM, [build(c) for c in p['levels']], p['interval'], log_transitions=False)
        manager.append(mgr)
        regs = []       # dict(id, kind, level, min, s0, s1, c0, c1)
        pauses = []     # [stop inv, stop ret, time, resume inv, resume ret]
        left = [len(p['progs'])]
        things = {}

        def register(k, lvl, often):
            n = len(regs)
            r = {'id': n, 'kind': k, 'level': lvl, 'min': often, 's1': float('inf'), 'c0': float('inf'), 'c1': float('inf'), 's0': sim.seq()}
            regs.append(r)
            if k == 'cleanup':
                things[n] = Thing(n, record)
                if often:
                    again = [often == 5]

                    def collector(y):
                        record('cleanup', y.n)
                        if again[0]:
                            # what it had is now elsewhere, and has to be cleaned up in turn
                            again[0] = False
                            register('cleanup', lvl, 2)
                    MemoryPressureManager.cleanup_on_entered(lvl, things[n], collector)
                else:
                    MemoryPressureManager.cleanup_on_entered(lvl, things[n])
            else:
                def cb():
                    record(k, n)
                if k == 'entered':
                    r['cc'] = MemoryPressureManager.register_on_entered_severity(lvl)(cb)
                elif k == 'left':
                    r['cc'] = MemoryPressureManager.register_on_left_severity(lvl)(cb)
                elif k == 'normal':
                    r['cc'] = MemoryPressureManager.register_on_memory_normal(cb)
                else:
                    r['cc'] = MemoryPressureManager.register_on_remaining_in_severity(lvl, often)(cb)
            r['s1'] = sim.seq()

        def thread(i, prog):
            mine = []
            for k, lvl, often, delay in prog:
                if delay:
                    time.sleep(delay)
                if k in ('entered', 'left', 'normal', 'remains', 'cleanup'):
                    mine.append(len(regs))
                    register(k, lvl, often)
                elif k == 'after':
                    # while a level is being entered
                    happened.clear()
                    if happened.wait(3):
                        mine.append(len(regs))
                        register('cleanup', lvl, often % 2)
                elif k == 'cancel':
                    c = [regs[n] for n in mine if 'cc' in regs[n] and regs[n]['c0'] == float('inf')]
                    if c:
                        c[0]['c0'] = sim.seq()
                        c[0]['cc'].cancel()
                        c[0]['c1'] = sim.seq()
                elif k == 'drop':
                    c = [regs[n] for n in mine if n in things]
                    if c:
                        c[0]['c0'] = sim.seq()
                        del things[c[0]['id']]
                        c[0]['c1'] = sim.seq()
                elif i == 0 and k == 'stop' and (not pauses or len(pauses[-1]) == 5):
                    pauses.append([sim.seq()])
                    mgr.stop()
                    pauses[-1] += [sim.seq(), sim.now]
                    time.sleep(often)
                elif i == 0 and k == 'resume' and pauses and len(pauses[-1]) == 3:
                    pauses[-1].append(sim.seq())
                    t = sim.now
                    mgr.resume()
                    pauses[-1].append(sim.seq())
                    n = len(checks)
                    for _ in range(20):
                        if len(checks) > n:
                            break
                        time.sleep((interval + 2 * p['slow'] * 20) / 10)
                    else:
                        raise Violation('not-resumed', 'no check for %.1f s after resume()' % (sim.now - t))
            left[0] -= 1

        for i, prog in enumerate(p['progs']):
            spawn(sim, thread, i, prog)
        while left[0] or sim.now < t_end:
            time.sleep(0.5)
        mgr.terminate()
        mgr.join(10 + interval + p['slow'] * 50)
        if mgr.is_alive():
            raise Violation('not-ended', 'the manager did not end upon terminate()')
        self.judge(sim, p, interval, checks, log, regs, pauses)

    def judge(self, sim, p, interval, checks, log, regs, pauses):
        inf = float('inf')
        if not checks:
            if pauses:
                return
            raise Violation('no-check', 'there was no check')
        pauses = [x + [inf] * (5 - len(x)) for x in pauses]
        slack = sim.stall_total + 0.1
        level = 0
        last = {}
        for k, (a, t, new) in enumerate(checks):
            end = checks[k + 1][0] if k + 1 < len(checks) else inf
            if any(x[1] < a < x[3] and (t > x[2] + slack or k and x[1] < checks[k - 1][0]) for x in pauses):
                # one may have been under way
                raise Violation('paused', 'a check took place between stop() and resume()')
            if k:
                gap = t - checks[k - 1][1]
                if gap < interval - slack:
                    raise Violation('too-soon', 'a check came %.3f s after another, the interval is %.3f' % (gap, interval))
                if gap > max(interval, len(regs) * p['slow'] * 4) + sim.stall_total + 1 and not any(x[0] < a and x[4] > checks[k - 1][0] for x in pauses):
                    raise Violation('too-late', 'a check came %.3f s after another, the interval is %.3f' % (gap, interval))
            events = []
            while level < new:
                level += 1
                events += [('entered', level, level), ('cleanup', level, level)]
            while level > new:
                events.append(('left', level, level))
                level -= 1
                if level == 0:
                    events.append(('normal', None, 0))
            if not events:
                events.append(('remains', level, level))
            calls = [x for x in log if a < x[0] < end]
            calls.reverse()
            for kind, lvl, at in events:
                sim.probe(kind)
                got = []
                while calls and calls[-1][1] == kind and calls[-1][3] == at and (lvl is None or regs[calls[-1][2]]['level'] == lvl):
                    got.append(calls.pop())
                ids = [x[2] for x in got]
                if len(set(ids)) != len(ids):
                    raise Violation('twice', 'a callback on %s %s was called twice for one event' % (kind, lvl))
                for r in regs:
                    if r['kind'] != kind or lvl is not None and r['level'] != lvl:
                        continue
                    must = r['s1'] < a and r['c0'] > end
                    may = r['s0'] < end and r['c1'] > a
                    if kind == 'remains' and r['min']:
                        since = t - last.get(r['id'], -inf)
                        if since < r['min'] - EPS:
                            # the call itself may have come up to the length of the other callbacks later
                            must = False
                            if since + len(regs) * p['slow'] + sim.stall_total + 0.1 < r['min']:
                                may = False
                        elif since < r['min'] + len(regs) * p['slow'] + sim.stall_total + 0.1:
                            must = False
                    if must and r['id'] not in ids:
                        raise Violation('not-called', 'callback on %s %s was not called' % (kind, lvl))
                    if not may and r['id'] in ids:
                        raise Violation('called', 'callback on %s %s was called when it should not have been' % (kind, lvl))
                for x in got:
                    last[x[2]] = x[4]
            if calls:
                x = calls[-1]
                raise Violation('unexpected-call', 'a callback on %s (of level %s) was called at level %s by a check that found level %d'
                                % (x[1], regs[x[2]]['level'], x[3], new))
        if any(x[0] < checks[0][0] for x in log):
            raise Violation('unexpected-call', 'a callback was called before the first check')


SCENARIOS = [Pressure()]
