"""C12 things done once: Singleton, SingletonWithRegardsTo, Closeable, memoize, cache_memoize"""
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding import Closeable
from satella.coding.decorators import memoize, cache_memoize
from satella.coding.structures import Singleton, SingletonWithRegardsTo
from satella.coding.structures.singleton import get_instances_for_singleton, delete_singleton_for


class Boom(Exception):
    pass


class Singl(Scenario):
    name = 'singleton'
    weight = 3

    def gen(self, rng):
        kind = rng.choice(['plain', 'args', 'args', 'weak'])
        return {'kind': kind, 'progs': [[[rng.choice(['a', 'a', 'b']), rng.choice(['x', 'y'])]
                                         for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                'slow': rng.choice([0, 0, 0.1]), 'fail': rng.choice([0, 0, 1, 2]), 'failkey': rng.choice([None, None, 'b']), 'sub': rng.random() < 0.3,
                'del': rng.random() < 0.2, 'falsy': rng.random() < 0.25, 'rec': rng.random() < 0.25, 'sched': gen_sched(rng)}

    def run(self, sim, p):
        built = []
        fails = [p['fail']]

        class Base:
            def __bool__(self):
                return not p['falsy']

            def __init__(self, *args):
                self.ready = False
                if p['slow']:
                    time.sleep(p['slow'])
                else:
                    sim.yield_point('init')
                if p['rec'] and p['kind'] != 'plain' and args[:1] == ('b',):
                    # needs another one of its kind
                    other = C('a', 'x')
                    if not other.ready:
                        raise Violation('half-built', 'an object whose __init__ has not finished was returned')
                    seen.append((('a',), other))
                if fails[0] and p['failkey'] in (None,) + args[:1]:
                    fails[0] -= 1
                    raise Boom()
                built.append(args)
                self.args = args
                self.ready = True

        if p['kind'] == 'plain':
            C = Singleton(Base)
        else:
            C = SingletonWithRegardsTo(num_args=1, weak_refs=p['kind'] == 'weak')(Base)
        seen, booms = [], []

        def client(prog):
            for a in prog:
                try:
                    o = C(*a) if a[:1] else C()
                except Boom:
                    booms.append(1)
                    continue
                if not o.ready:
                    raise Violation('half-built', 'an object whose __init__ has not finished was returned')
                seen.append((tuple(a[:1]), o))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        keys = {}
        for k, o in seen:
            if p['kind'] == 'plain':
                k = ()
            if keys.setdefault(k, o) is not o:
                raise Violation('two-instances', 'two instances for %r' % (k,))
        if len(built) != len(keys):
            raise Violation('two-instances', '__init__ finished %d times for %d instances' % (len(built), len(keys)))
        if len(booms) != p['fail'] - fails[0]:
            raise Violation('failure', '%d constructors failed, %d callers were told' % (p['fail'] - fails[0], len(booms)))
        if len({id(o) for o in keys.values()}) != len(keys):
            raise Violation('shared', 'different arguments share an instance')
        for k, o in keys.items():
            if k and o.args[:1] != k:
                raise Violation('arguments', 'constructed with %r for %r' % (o.args, k))
        if p['kind'] != 'plain' and keys:
            if sorted(get_instances_for_singleton(C)) != sorted(keys):
                raise Violation('registry', 'get_instances_for_singleton: %s' % get_instances_for_singleton(C))
            if p['del']:
                k = sorted(keys)[0]
                delete_singleton_for(C, *k)
                if C(*k) is keys[k]:
                    raise Violation('registry', 'delete_singleton_for had no effect')
                for j, o in keys.items():
                    if j != k and C(*j) is not o:
                        raise Violation('registry', 'delete_singleton_for has deleted another one')
            if p['sub']:
                class D(C):
                    pass

                fails[0] = 0
                d = D(*sorted(keys)[0], 'y')
                if type(d) is not D or type(C(*sorted(keys)[0])) is not C:
                    raise Violation('arguments', 'a subclass and its base share an instance')
                d = None
            if p['kind'] == 'weak' and not p['fail']:
                seen.clear()
                keys.clear()
                o = None
                if get_instances_for_singleton(C):
                    raise Violation('kept', 'weakly kept instances did not go away')
        elif keys and C('a', 'x') is not keys[()]:
            raise Violation('two-instances', 'later call returned another instance')


class Close(Scenario):
    name = 'closeable'
    weight = 2

    def gen(self, rng):
        return {'progs': [[rng.choice(['close', 'with', 'close'])] * rng.randint(1, 2) for _ in range(rng.randint(2, 4))],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        n = []

        class C(Closeable):
            def close(self):
                if super().close():
                    n.append(1)
                    sim.yield_point('cleanup')

        c = C()
        if c.closed:
            raise Violation('closed', 'closed before close()')

        def client(prog):
            for k in prog:
                if k == 'close':
                    c.close()
                else:
                    with c as d:
                        if d is not c:
                            raise Violation('result', '__enter__')
                if not c.closed:
                    raise Violation('closed', 'not closed after close()')

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        was = list(n)
        with_boom = C()
        try:
            with with_boom:
                raise Boom()
            raise Violation('result', 'an exception was swallowed')
        except Boom:
            pass
        if not with_boom.closed or len(n) != len(was) + 1:
            raise Violation('closed', 'not closed by a with statement that raised')
        with_boom = None
        forgotten = C()
        del forgotten
        if len(n) != len(was) + 2:
            raise Violation('closed', 'an object that was never closed and is gone was cleaned up %d times' % (len(n) - len(was) - 1))
        n = was
        if any(p['progs']) and len(n) != 1:
            raise Violation('twice', 'cleaned up %d times' % len(n))
        c.__del__()
        if len(n) != 1:
            raise Violation('twice', 'cleaned up %d times' % len(n))


class Memo(Scenario):
    name = 'memoize'
    weight = 3

    def gen(self, rng):
        return {'progs': [[[rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 0.05, 1.0])] for _ in range(rng.randint(1, 4))]
                          for _ in range(rng.randint(2, 4))],
                'fail': rng.choice([0, 0, 1, 2]), 'slow': rng.choice([0, 0, 0.3]), 'rec': rng.random() < 0.3,
                'falsy': rng.random() < 0.3,
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        execs = {}
        fails = [p['fail']]
        running = {}

        @memoize
        def fn(x):
            if running.get(x):
                raise Violation('concurrent', 'executed twice at the same time for the same argument')
            running[x] = True
            try:
                if p['slow']:
                    time.sleep(p['slow'])
                else:
                    sim.yield_point('fn')
                if fails[0]:
                    fails[0] -= 1
                    raise Boom()
                if p['rec'] and x > 1:
                    fn(x - 1)
                execs[x] = execs.get(x, 0) + 1
                if p['falsy'] and execs[x] == 1:
                    return None if x == 1 else 0
                return (x, execs[x])
            finally:
                running[x] = False

        booms = []

        def client(prog):
            for x, d in prog:
                if d:
                    time.sleep(d)
                try:
                    r = fn(x)
                except Boom:
                    booms.append(1)
                    continue
                if r != ((None if x == 1 else 0) if p['falsy'] else (x, 1)):
                    raise Violation('value', 'fn(%d) returned %r' % (x, r))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        for x, k in execs.items():
            if k != 1:
                raise Violation('executed-twice', 'executed %d times for %d' % (k, x))
        if p['fail'] - fails[0] > len(booms) or (not p['rec'] and p['fail'] - fails[0] != len(booms)):
            raise Violation('failure', 'an exception was lost or multiplied')


class CacheMemo(Scenario):
    name = 'cache-memoize'
    weight = 2

    def gen(self, rng):
        return {'progs': [[[rng.choice([1, 1, 2]), rng.choice([0, 0.5, 4.0, 9.9, 10.5, 11.0])]
                           for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(1, 3))],
                'slow': rng.choice([0, 0, 0.5, 12.0]), 'fail': rng.choice([0, 0, 3]), 'own': rng.random() < 0.3, 'rec': rng.random() < 0.3,
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        execs = []      # [x, t0, t1]
        n = [0]
        clock = (lambda: sim.now * 3) if p['own'] else time.monotonic
        dur = 30.0 if p['own'] else 10.0

        @cache_memoize(dur, **({'time_getter': clock} if p['own'] else {}))
        def fn(x):
            rec = [x, sim.now, None]
            execs.append(rec)
            i = len(execs) - 1
            n[0] += 1
            if p['slow']:
                time.sleep(p['slow'])
            else:
                sim.yield_point('fn')
            if p['fail'] and n[0] % p['fail'] == 0:
                execs[i][2] = -1
                raise Boom()
            if p['rec'] and x < 10:
                # in terms of itself
                try:
                    if fn(x + 10)[0] != x + 10:
                        raise Violation('value', 'wrong arguments')
                except Boom:
                    execs[i][2] = -1
                    raise
            rec[2] = sim.now
            return (x, i)

        calls = []

        def client(prog):
            for x, d in prog:
                if d:
                    time.sleep(d)
                t0, s0 = sim.now, len(execs)
                me0 = [id(e) for e in execs]
                try:
                    r = fn(x)
                except Boom:
                    continue
                calls.append((x, t0, sim.now, r))
                if r[0] != x:
                    raise Violation('value', 'fn(%d) returned the value for %d' % (x, r[0]))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        ncalls = sum(len(q) for q in p['progs'])
        for x, t0, t1, r in calls:
            e = execs[r[1]]
            if e[2] is None or e[2] == -1:
                raise Violation('value', 'returned by a call that failed')
            # the value is at most dur seconds old when asked for
            if t0 - e[2] > 10.0 + 1e-3 + sim.stall_total:
                raise Violation('stale', 'returned a value computed %.3f s ago' % (t0 - e[2]))
        # a call executes the function only if there is no fresh value
        if len(p['progs']) == 1:
            last = {}
            k = 0
            for x, t0, t1, r in calls:
                if x in last and t0 - last[x][1] < 10.0 - 1e-3 - sim.stall_total and not p['slow']:
                    if r[1] != last[x][0]:
                        raise Violation('not-memoized', 'executed again %.3f s after' % (t0 - last[x][1]))
                    sim.probe('memoized')
                if x not in last or last[x][0] != r[1]:
                    last[x] = (r[1], execs[r[1]][1])
        if len(execs) > ncalls * (2 if p['rec'] else 1):
            raise Violation('executed-twice', '%d executions for %d calls' % (len(execs), ncalls))


SCENARIOS = [Singl(), Close(), Memo(), CacheMemo()]
