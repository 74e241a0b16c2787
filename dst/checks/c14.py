"""C14 CacheDict, LRUCacheDict"""
import time
from collections import OrderedDict

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.structures import CacheDict, LRUCacheDict

EPS = 0.02


class Quiet(tuple):
    """a value that happens to be false"""

    def __bool__(self):
        return False


class Boom(Exception):
    pass


class Sequential(Scenario):
    """one client, background refreshes settle between operations: exact model"""
    name = 'sequential'
    weight = 3

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(3, 12)):
            ops.append([rng.choice(['get'] * 8 + ['feed', 'feed_ts', 'set', 'del', 'inv', 'has', 'has', 'fetch']),
                        rng.choice([1, 1, 1, 2, 2, 3, 4]), rng.choice([0, 0, 0, 1, 3, 4, 8, 9, 12])])
        return {'progs': [ops], 'lru': rng.choice([0, 0, 1, 2, 3]), 'dur': rng.choice([0, 0.25]),
                'stale': rng.choice([3.6, '4s', 0.4]), 'exp': rng.choice([8.6, '8s']),
                'fail': rng.choice([None, None, 2.6, 12.6, '10s']), 'default': rng.random() < 0.3,
                'clock': rng.choice([None, None, 'offset', 'fast']),
                'results': [rng.choice(['ok', 'ok', 'ok', 'ok', 'key', 'boom']) for _ in range(24)],
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        num = lambda x: float(x[:-1]) if isinstance(x, str) else x
        stale, exp, cfi = num(p['stale']), num(p['exp']), num(p['fail'])
        scale = 1.0
        kw = {}
        clock = time.monotonic
        if p['clock'] == 'offset':
            clock = lambda: time.monotonic() - sim.base + 5.0
            kw['time_getter'] = clock
        elif p['clock'] == 'fast':
            scale = 2.0
            clock = lambda: time.monotonic() * 2.0
            kw['time_getter'] = clock
        mk = lambda x: x if x is None else x * scale if not isinstance(x, str) else (
            x if scale == 1 else num(x) * scale)
        if p['fail'] is not None:
            kw['cache_failures_interval'] = mk(p['fail'])
        if p['default']:
            kw['default_value_factory'] = lambda: 'default'
        if p['lru']:
            kw['max_size'] = p['lru']
        calls = []

        def getter(key):
            i = len(calls)
            calls.append(key)
            how = p['results'][i % len(p['results'])]
            if p['dur']:
                time.sleep(p['dur'])
            if how == 'key':
                raise KeyError(key)
            if how == 'boom':
                raise Boom()
            return (Quiet if i % 2 else tuple)((key, i))

        cd = (LRUCacheDict if p['lru'] else CacheDict)(mk(p['stale']), mk(p['exp']), getter, **kw)
        data, missed = OrderedDict(), {}        # key -> [value, stamp]; order of use
        nfed = [0]

        def store(k, v, ts, use=True):
            missed.pop(k, None)
            if k not in data and p['lru']:
                while len(data) >= p['lru']:
                    data.popitem(False)
            new = k not in data
            data[k] = [v, ts]
            if use and not new:
                data.move_to_end(k)

        def outcome(i, k, t):
            """result of getter call i is processed at time t"""
            how = p['results'][i % len(p['results'])]
            if how == 'ok':
                store(k, (k, i), t)
            elif how == 'key':
                data.pop(k, None)
                if cfi is not None:
                    missed[k] = t
            return how

        for op, k, d in p['progs'][0]:
            time.sleep(d + 1.0)
            t0 = clock() / scale
            n0 = len(calls)
            age = t0 - data[k][1] if k in data else t0 - missed[k] if k in missed else None
            if age is not None and any(x is not None and abs(age - x) < EPS for x in (stale, exp, cfi)):
                return      # too close to tell
            if op == 'get':
                try:
                    r = ('ok', cd[k])
                except KeyError:
                    r = ('key', None)
                except Boom:
                    r = ('boom', None)
                el = clock() / scale - t0
                blocked = True
                expected_calls = 1
                if k in data and age <= exp:
                    data.move_to_end(k)
                    want = ('ok', data[k][0])
                    blocked = False
                    expected_calls = 1 if age > stale else 0
                elif k in missed and age <= cfi:
                    want = ('ok', 'default') if p['default'] else ('key', None)
                    blocked = False
                    expected_calls = 0
                    sim.probe('cached-miss')
                else:
                    want = None
                    if k in data:
                        data.move_to_end(k)
                if not blocked and p['dur'] and el > p['dur'] / 2:
                    raise Violation('blocked', 'a read of a cached value waited for value_getter')
                time.sleep(0.6)
                if len(calls) - n0 != expected_calls:
                    raise Violation('getter-calls', 'read of a value aged %s (stale %s, expires %s) called value_getter %d times'
                                    % (age, stale, exp, len(calls) - n0))
                if expected_calls:
                    if calls[n0] != k:
                        raise Violation('getter-calls', 'value_getter(%r) for %r' % (calls[n0], k))
                    how = outcome(n0, k, t0 + p['dur'])
                    if want is None:
                        want = {'ok': ('ok', (k, n0)), 'boom': ('boom', None),
                                'key': ('ok', 'default') if p['default'] else ('key', None)}[how]
                    sim.probe('refresh' if not blocked else 'fetch')
                if r != want:
                    raise Violation('value', 'read %r, expected %r' % (r, want))
            elif op in ('feed', 'feed_ts', 'set'):
                nfed[0] += 1
                v = (k, 'fed%d' % nfed[0])
                if op == 'set':
                    cd[k] = v
                    store(k, v, t0)
                else:
                    ts = t0
                    if op == 'feed_ts':
                        ts = t0 - 2.0
                        if k == 1 and p['clock'] == 'offset':
                            ts = 0.0
                        cd.feed(k, v, timestamp=ts * scale)
                    else:
                        cd.feed(k, v)
                    store(k, v, ts, use=False)
            elif op == 'del':
                try:
                    del cd[k]
                    ok = True
                except KeyError:
                    ok = False
                if ok != (k in data):
                    raise Violation('delete', 'del said %s' % ok)
                data.pop(k, None)
            elif op == 'inv':
                cd.invalidate(k)
                data.pop(k, None)
                missed.pop(k, None)
            elif op == 'fetch':
                f = cd.schedule_a_fetch(k)
                time.sleep(0.6)
                if not f.done() or calls[n0:] != [k]:
                    raise Violation('getter-calls', 'schedule_a_fetch called %s' % (calls[n0:],))
                outcome(n0, k, t0 + p['dur'])
            else:
                want = (k in data and age <= exp) or (k in missed and age <= cfi)
                if cd.has_info_about(k) != want:
                    raise Violation('has-info', 'has_info_about returned %s for an entry aged %s' % (not want, age))
            if len(cd) != len(data) or sorted(cd) != sorted(data):
                raise Violation('contents', 'holds %s, expected %s' % (sorted(cd), sorted(data)))


class Concurrent(Scenario):
    name = 'concurrent'
    weight = 4

    def gen(self, rng):
        progs = []
        for _ in range(rng.randint(2, 4)):
            progs.append([[rng.choice(['get'] * 6 + ['feed', 'set', 'del', 'inv', 'has']), rng.choice([1, 1, 2, 3]),
                           rng.choice([0, 0, 0, 0.1, 1.1, 2.1])] for _ in range(rng.randint(2, 6))])
        return {'progs': progs, 'lru': rng.choice([0, 1, 1, 2]), 'dur': rng.choice([0, 0, 0.3, 1.5]),
                'stale': rng.choice([0, 1.0]), 'exp': rng.choice([1.0, 2.0]), 'fail': rng.choice([None, 1.0]),
                'results': [rng.choice(['ok', 'ok', 'ok', 'ok', 'key', 'boom']) for _ in range(16)],
                'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def run(self, sim, p):
        calls = []          # [key, i, inv, ret, t0, t1, how]
        kw = {}
        if p['fail'] is not None:
            kw['cache_failures_interval'] = p['fail']
        if p['lru']:
            kw['max_size'] = p['lru']

        def getter(key):
            i = len(calls)
            how = p['results'][i % len(p['results'])]
            c = [key, i, sim.seq(), None, sim.now, None, how]
            calls.append(c)
            if p['dur']:
                time.sleep(p['dur'])
            else:
                sim.yield_point('getter')
            c[3], c[5] = sim.seq(), sim.now
            if how == 'key':
                raise KeyError(key)
            if how == 'boom':
                raise Boom()
            return (Quiet if i % 2 else tuple)((key, i))

        cd = (LRUCacheDict if p['lru'] else CacheDict)(p['stale'], p['exp'], getter, **kw)
        hist, fed = [], {}

        def client(prog):
            for op, k, d in prog:
                if d:
                    time.sleep(d)
                h = [op, k, None, sim.seq(), None, sim.now, None]
                hist.append(h)
                if op == 'get':
                    try:
                        h[2] = ('ok', cd[k])
                    except KeyError as e:
                        h[2] = ('key', repr(e))
                    except Boom:
                        h[2] = ('boom', None)
                elif op in ('feed', 'set'):
                    v = (k, 'fed%d' % len(hist))
                    fed[v] = h
                    if op == 'feed':
                        cd.feed(k, v)
                    else:
                        cd[k] = v
                elif op == 'del':
                    try:
                        del cd[k]
                    except KeyError:
                        pass
                elif op == 'inv':
                    cd.invalidate(k)
                else:
                    h[2] = cd.has_info_about(k)
                h[4], h[6] = sim.seq(), sim.now
                if p['lru'] and len(cd) > p['lru']:
                    raise Violation('size', '%d entries, the limit is %d' % (len(cd), p['lru']))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        slack = 0.05 + sim.stall_total
        inf = float('inf')
        for h in hist:
            if h[0] != 'get':
                continue
            k, r = h[1], h[2]
            cs = [c for c in calls if c[0] == k and c[2] < h[4]]
            if r[0] == 'boom':
                if not any(c[6] == 'boom' and (c[3] or inf) > h[3] for c in cs):
                    raise Violation('exception', 'a read got an exception of another call')
            elif r[0] == 'key':
                if not any(c[6] == 'key' and ((c[3] or inf) > h[3] or (
                        p['fail'] is not None and c[5] + p['fail'] + slack >= h[5])) for c in cs):
                    raise Violation('spurious-keyerror', 'read of %r raised %s, but value_getter did not' % (k, r[1]))
            else:
                v = r[1]
                if v[0] != k:
                    raise Violation('value', 'read %r for key %r' % (v, k))
                if v in fed:
                    f = fed[v]
                    if f[3] > h[4]:
                        raise Violation('value', 'value from the future')
                    stamp, settled = f[6], f[6]
                    if stamp is None:
                        continue
                else:
                    c = calls[v[1]]
                    if c[6] != 'ok' or c[3] is None or c[3] > h[4]:
                        raise Violation('value', 'value %r was not returned by value_getter yet' % (v,))
                    stamp = settled = c[5]
                if h[5] - stamp > p['exp'] + slack:
                    raise Violation('expired-read', 'read a value %.3f s old, expiration is %s' % (h[5] - stamp, p['exp']))
                for q in hist:
                    if q[0] in ('inv', 'del') and q[1] == k and q[4] < h[3] and q[5] > settled + slack:
                        raise Violation('invalidated-read', 'read a value stored before the key was invalidated')
        # everything still works
        time.sleep(20)
        if p['lru'] and len(cd) > p['lru']:
            raise Violation('size', '%d entries, the limit is %d' % (len(cd), p['lru']))
        p['results'] = ['ok']
        for k in (1, 2, 3):
            n = len(calls)
            v = cd[k]
            if len(calls) != n + 1 or v != (k, n):
                raise Violation('final', 'an expired entry was not fetched again')
            if len(cd) > (p['lru'] or 3):
                raise Violation('size', '%d entries' % len(cd))


SCENARIOS = [Sequential(), Concurrent()]
