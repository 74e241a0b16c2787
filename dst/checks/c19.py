"""C19 ExponentialBackoff and retry"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.decorators import retry
from satella.exceptions import WouldWaitMore
from satella.time import ExponentialBackoff

EPS = 0.02


class Known(Exception):
    pass


class KnownChild(Known):
    pass


class Unknown(Exception):
    pass


class Backoff(Scenario):
    """one thread reports, others wait"""
    name = 'backoff'
    weight = 4

    def gen(self, rng):
        driver = [[rng.choice(['fail', 'fail', 'fail', 'ok', 'sleep']), rng.choice([0, 0, 0.3, 1.0, 2.5, 6.0])]
                  for _ in range(rng.randint(1, 7))]
        progs = [driver]
        for _ in range(rng.randint(0, 4)):
            progs.append([[rng.choice(['wait', 'wait', 'poll']), rng.choice([None, None, 0, 0.5, 1.5, 3.0, 40.0]),
                           rng.choice([0, 0.1, 1.0, 3.0])] for _ in range(rng.randint(1, 4))])
        return {'progs': progs, 'start': rng.choice([1, 2, 0.5]), 'limit': rng.choice([2, 3, 8, 30]),
                'grace': rng.choice([0, 0, 0, 1, 2]), 'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        sleeps = []

        def sleep_fun(d):
            sleeps.append(d)
            time.sleep(d)

        eb = ExponentialBackoff(p['start'], p['limit'], sleep_fun, p['grace'])
        events = []         # [kind, inv time, ret time, delay]: what the driver reported
        waits = []          # [timeout, t0, t1, outcome]

        def driver(prog):
            n, cur = 0, 0
            for op, d in prog:
                if d:
                    time.sleep(d)
                e = [op, sim.now, None, None]
                if op == 'fail':
                    if n < p['grace']:
                        n += 1
                        e[0] = 'graced'
                    else:
                        cur = p['start'] if cur == 0 else min(p['limit'], cur * 2)
                        e[3] = cur
                    events.append(e)
                    eb.failed()
                    e[2] = sim.now
                    if e[0] == 'fail':
                        left = eb.time_until_next_check()
                        if left is None:
                            left = 0
                        if left > cur + EPS or left < cur - EPS - (sim.now - e[1]) - sim.stall_total:
                            raise Violation('delay', '%.3f s until the next check after failing, expected %s' % (left, cur))
                elif op == 'ok':
                    n, cur = 0, 0
                    events.append(e)
                    eb.success()
                    e[2] = sim.now
                    if not eb.ready_for_next_check or eb.time_until_next_check() is not None:
                        raise Violation('delay', 'unavailable after a success')
                else:
                    eb.sleep()
                    if sleeps[-1:] != [cur]:
                        raise Violation('delay', 'slept %s, expected %s' % (sleeps[-1:], cur))
                if eb.available != (cur == 0):
                    raise Violation('available', 'available is %s' % eb.available)

        def client(prog):
            for op, to, d in prog:
                if d:
                    time.sleep(d)
                if op == 'poll':
                    t0 = sim.now
                    r = eb.ready_for_next_check
                    left = eb.time_until_next_check()
                    if left is not None and not 0 <= left <= p['limit'] + p['start'] + EPS:
                        raise Violation('delay', 'time until next check is %r' % (left,))
                    waits.append([0, t0, sim.now, 'ready' if r else 'not ready'])
                    continue
                w = [to, sim.now, None, None]
                waits.append(w)
                try:
                    eb.wait_until_available() if to is None else eb.wait_until_available(to)
                    w[3] = 'ready'
                except WouldWaitMore:
                    w[3] = 'timeout'
                w[2] = sim.now

        ts = [spawn(sim, driver, p['progs'][0])] + [spawn(sim, client, prog) for prog in p['progs'][1:]]
        for t in ts:
            t.join()
        slack = 0.05 + sim.stall_total
        # intervals when it was surely unavailable / possibly unavailable
        sure, maybe = [], []
        for i, e in enumerate(events):
            if e[0] != 'fail':
                continue
            nxt = [x for x in events[i + 1:] if x[0] in ('fail', 'ok')][:1]
            sure.append([e[2] + 1e-3, min([e[1] + e[3]] + ([nxt[0][1]] if nxt else []))])
            maybe.append([e[1], min([e[2] + e[3]] + ([nxt[0][2]] if nxt else []))])

        def cover(intervals, a, b):
            """is all of [a, b] within one stretch of the intervals"""
            x = a
            for s, t in sorted(intervals):
                if s <= x < t:
                    x = t
            return x > b

        def stretch(a):
            """when does the stretch of possible unavailability lasting at a end"""
            x = a
            for s, t in sorted(maybe):
                if s <= x + slack and t > x:
                    x = t
            return x

        for to, t0, t1, r in waits:
            if r == 'ready':
                if cover(sure, t0, t1):
                    raise Violation('early', 'available from %.3f to %.3f, though it was not: %s' % (t0, t1, events))
                if to is None and t1 > stretch(t0) + slack:
                    raise Violation('late', 'waited from %.3f to %.3f: %s' % (t0, t1, events))
                if to and t1 > min(t0 + to, stretch(t0)) + slack:
                    raise Violation('late', 'waited from %.3f to %.3f: %s' % (t0, t1, events))
            elif r == 'timeout':
                if to is None or t1 - t0 < to - 1e-3:
                    raise Violation('spurious-timeout', 'WouldWaitMore after %.3f of %s' % (t1 - t0, to))
                if t1 - t0 > to + slack:
                    raise Violation('late', 'WouldWaitMore after %.3f of %s' % (t1 - t0, to))
                if stretch(t0) < t0 + to - slack:
                    raise Violation('spurious-timeout', 'WouldWaitMore though it became available: %s' % (events,))
                sim.probe('timeout')
            elif not any(s - slack <= t1 and t0 <= t for s, t in maybe):
                raise Violation('unready', 'not ready though available')


class Launch(Scenario):
    """ExponentialBackoff.launch: an operation failing time and again"""
    name = 'launch'
    weight = 2

    def gen(self, rng):
        return {'progs': [[rng.choice(['known', 'known', 'child', 'ok', 'unknown']) for _ in range(rng.randint(1, 8))]],
                'start': rng.choice([1, 2.5]), 'limit': rng.choice([4, 30]), 'grace': rng.choice([0, 0, 2]),
                'imm': rng.random() < 0.3, 'ret': rng.choice([None, None, 0, False, '']), 'dur': rng.choice([0, 0.5]), 'sched': gen_sched(rng)}

    def run(self, sim, p):
        sleeps, calls = [], []
        eb = ExponentialBackoff(p['start'], p['limit'], sleeps.append, p['grace'])
        plan = list(p['progs'][0]) + ['ok'] * 3

        def fun(*args, **kwargs):
            how = plan[len(calls)]
            calls.append((args, kwargs, len(sleeps)))
            if p['dur']:
                time.sleep(p['dur'])
            if how == 'known':
                raise Known()
            if how == 'child':
                raise KnownChild()
            if how == 'unknown':
                raise Unknown()
            return len(calls) if p['ret'] is None else p['ret']

        def expect(first):
            n, cur, sl = 0, 0, []
            i = first
            while plan[i] in ('known', 'child'):
                if n < p['grace']:
                    n += 1
                else:
                    cur = p['start'] if not cur else min(p['limit'], cur * 2)
                sl.append(cur)
                i += 1
            return i + 1, plan[i], sl

        def judge(first, s0, call, args, kwargs):
            upto, how, sl = expect(first)
            try:
                r = call()
            except Unknown:
                if how != 'unknown':
                    raise Violation('exception', 'a strange exception')
            except Known:
                raise Violation('exception', 'a known exception got out')
            else:
                if how != 'ok':
                    raise Violation('exception', 'an unknown exception was swallowed')
                if args is not None and r != (upto if p['ret'] is None else p['ret']):
                    raise Violation('result', 'returned %r' % (r,))
                if not eb.available:
                    raise Violation('available', 'unavailable after a success')
            if len(calls) != upto:
                raise Violation('calls', '%d calls, expected %d' % (len(calls), upto))
            if sleeps[s0:] != sl:
                raise Violation('sleeps', 'slept %s, expected %s' % (sleeps[s0:], sl))
            for j, c in enumerate(calls[first:upto]):
                if c[:2] != (args or (), kwargs):
                    raise Violation('calls', 'called with %s' % (c,))
                if c[2] != s0 + j:
                    raise Violation('sleeps', 'no sleep before a call')
            return how

        if p['imm']:
            box = []
            if judge(0, 0, lambda: box.append(eb.launch(Known, immediate=True)(fun)), None, {}) == 'unknown':
                return
            f = box[0]
        else:
            f = eb.launch(Known)(fun)
        while len(calls) < len(p['progs'][0]):
            if judge(len(calls), len(sleeps), lambda: f(1, x=2), (1,), {'x': 2}) == 'unknown':
                return


class Retry(Scenario):
    """concurrent callers of a retried function"""
    name = 'retry'
    weight = 2

    def gen(self, rng):
        return {'progs': [[[rng.choice(['known', 'known', 'child', 'ok', 'unknown']) for _ in range(rng.randint(1, 6))]
                           for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))],
                'times': rng.choice([None, 1, 2, 3, 5]), 'swallow': rng.choice([None, True, False]),
                'cbs': rng.random() < 0.7, 'cbfail': rng.random() < 0.2, 'sched': gen_sched(rng)}

    def run(self, sim, p):
        kw = {}
        if p['swallow'] is not None:
            kw['swallow_exception'] = p['swallow']
        cbs = {}
        failed = Known()
        import threading

        def log(kind):
            def inner(x):
                cbs[threading.get_ident()].append((kind, x))
                if p['cbfail'] and kind == 'success':
                    sim.fault('callback')
                    raise failed
            return inner

        if p['cbs']:
            kw.update(on_failure=log('failure'), call_on_success=log('success'), call_between_retries=log('between'))

        @retry(p['times'], Known, **kw)
        def fun(plan, calls):
            how = plan[len(calls)]
            e = {'ok': None, 'known': Known(), 'child': KnownChild(), 'unknown': Unknown()}[how]
            calls.append(e)
            sim.yield_point('fun')
            if e is not None:
                sim.fault('operation')
                raise e
            return 'result', len(calls)

        def client(prog):
            for plan in prog:
                if isinstance(plan, str):
                    return
                plan = plan + ['ok']
                calls = []
                me = cbs[threading.get_ident()] = []
                times = p['times'] or 99
                n = 0
                while n < times and plan[n] in ('known', 'child'):
                    n += 1
                exhausted = n == times
                try:
                    r = ('ok', fun(plan, calls))
                except Exception as e:
                    r = ('exc', e)
                want_calls = n if exhausted else n + 1
                if len(calls) != want_calls:
                    raise Violation('calls', '%d calls, expected %d' % (len(calls), want_calls))
                want_cbs = [('between', e) for e in calls[:n - 1 if exhausted else n]]
                if exhausted:
                    want = ('exc', calls[-1]) if p['swallow'] is False else ('ok', None)
                    want_cbs.append(('failure', calls[-1]))
                elif plan[n] == 'unknown':
                    want = ('exc', calls[-1])
                else:
                    want = ('ok', ('result', n + 1))
                    if p['cbs'] and p['cbfail']:    # it is not a failure of the operation
                        want = ('exc', failed)
                    want_cbs.append(('success', n))
                if r != want:
                    raise Violation('result', '%r, expected %r' % (r, want))
                if p['cbs'] and me != want_cbs:
                    raise Violation('callbacks', 'called back %r, expected %r' % (me, want_cbs))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()


SCENARIOS = [Backoff(), Launch(), Retry()]
