"""C16 CPManager, the connection pool"""
import builtins
import queue
import time
import weakref

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

import satella.coding.resources.cp_manager as module
from satella.coding.resources import CPManager


class NoServer(Exception):
    pass


class NoTeardown(Exception):
    pass


class Conn:
    """a connection, the record of it is in r, so that the connection itself can go away and have its id reused"""
    __slots__ = ('r', '__weakref__')

    def __init__(self, n):
        self.r = Record(n)


class Ids:
    """id(): unique among the objects that are alive, reused as soon as possible"""

    def __init__(self):
        self.ids = {}       # real id => (weak reference, id)

    def __call__(self, obj):
        if not isinstance(obj, Conn):
            return builtins.id(obj)
        key = builtins.id(obj)
        it = self.ids.get(key)
        if it is None or it[0]() is not obj:
            used = {n for ref, n in self.ids.values() if ref() is not None}
            it = self.ids[key] = weakref.ref(obj), min(set(range(len(used) + 1)) - used)
        return it[1]


class Record:
    def __init__(self, n):
        self.n = n
        self.holder = None
        self.acquired = 0
        self.failed = False
        self.torn = 0
        self.released_at = None     # event at which it was let go for the last time


def make(sim, p):
    conns = []      # the records of all the connections
    calls = [0, 0]
    module.id = Ids()

    class Pool(CPManager):
        def create_connection(self):
            calls[0] += 1
            i = calls[0]
            if p['create']:
                time.sleep(p['create'])
            else:
                sim.yield_point('create')
            if p['fail_create'] and i % p['fail_create'] == 0:
                sim.fault('connect')
                raise NoServer() if i % 2 else queue.Empty()
            c = Conn(len(conns))
            conns.append(c.r)
            return c

        def teardown_connection(self, connection):
            calls[1] += 1
            i = calls[1]
            connection = connection.r
            connection.torn += 1
            if connection.torn > 1:
                raise Violation('teardown-twice', 'connection %d torn down again' % connection.n)
            if connection.holder is not None:
                raise Violation('teardown-used', 'connection %d torn down while in use' % connection.n)
            if p['teardown']:
                time.sleep(p['teardown'])
            else:
                sim.yield_point('teardown')
            if p['fail_teardown'] and i % p['fail_teardown'] == 0:
                sim.fault('teardown')
                raise NoTeardown()

    return Pool, conns, calls


class Pooling(Scenario):
    name = 'pool'
    weight = 3

    def gen(self, rng):
        progs = []
        closing = rng.random() < 0.5
        for i in range(rng.randint(2, 4)):
            prog = []
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                if r < 0.85:
                    prog.append(['use', rng.choice([0, 0, 0.05, 0.5]), rng.random() < 0.2, rng.choice([0, 0, 0.1])])
                else:
                    prog.append(['inv', 0, False, rng.choice([0, 0.05])])
            progs.append(prog)
        if closing:
            rng.choice(progs).append(['close', 0, False, 0])
        return {'progs': progs, 'max': rng.choice([1, 1, 2, 3, 5]), 'cycles': rng.choice([1, 2, 3, 50]),
                'create': rng.choice([0, 0, 0.1]), 'teardown': rng.choice([0, 0, 0.1]),
                'fail_create': rng.choice([0, 0, 0, 3, 5]), 'fail_teardown': rng.choice([0, 0, 0, 2, 3]),
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        Pool, conns, calls = make(sim, p)
        cp = Pool(p['max'], p['cycles'])
        closed = [None, None]

        def client(me, prog):
            for op, hold, fails, delay in prog:
                if delay:
                    time.sleep(delay)
                if op == 'inv':
                    try:
                        cp.invalidate()
                    except NoTeardown:
                        sim.probe('invalidate-failed')
                    continue
                if op == 'close':
                    closed[0] = sim.seq()
                    try:
                        cp.close()
                    except NoTeardown:
                        pass
                    closed[1] = sim.seq()
                    continue
                s = sim.seq()
                try:
                    conn = cp.acquire_connection()
                except (NoServer, queue.Empty):
                    continue
                except RuntimeError:
                    if closed[0] is None:
                        raise Violation('refused', 'acquire_connection refused by an open pool')
                    continue
                if closed[1] is not None and closed[1] < s:
                    raise Violation('not-refused', 'acquire_connection succeeded on a closed pool')
                c = conn.r
                if c.holder is not None:
                    raise Violation('shared', 'connection %d given to %s while used by %s' % (c.n, me, c.holder))
                if c.torn:
                    raise Violation('dead', 'torn down connection %d was given out' % c.n)
                if c.failed:
                    raise Violation('failed-reused', 'failed connection %d was given out' % c.n)
                c.holder = me
                c.acquired += 1
                if c.acquired > p['cycles']:
                    raise Violation('cycles', 'connection %d used %d times, limit %d' % (c.n, c.acquired, p['cycles']))
                if hold:
                    time.sleep(hold)
                else:
                    sim.yield_point('using')
                if fails:
                    c.failed = True
                    cp.fail_connection(conn)
                    sim.yield_point('failed')
                c.holder = None
                last = c.failed or c.acquired == p['cycles']
                try:
                    cp.release_connection(conn)
                except NoTeardown:
                    sim.probe('release-failed')
                conn = None
                if last and not c.torn:
                    raise Violation('not-recycled', 'connection %d was not torn down' % c.n)

        for i, t in enumerate([spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]):
            t.join()
        live = [c for c in conns if not c.torn]
        if len(live) > p['max']:
            raise Violation('too-many', '%d idle connections, limit %d' % (len(live), p['max']))
        if closed[0] is None:
            # everything still works and what is idle gets used
            if live and not p['fail_create']:
                n = len(conns)
                conn = cp.acquire_connection()
                c = conn.r
                if len(conns) != n:
                    raise Violation('not-reused', 'a connection was created with %d idle' % len(live))
                if c not in live:
                    raise Violation('dead', 'a dead connection was given out')
                c.acquired += 1
                if c.acquired > p['cycles']:
                    raise Violation('cycles', 'used %d times, limit %d' % (c.acquired, p['cycles']))
                try:
                    cp.release_connection(conn)
                except NoTeardown:
                    pass
                conn = None
            for f in (cp.invalidate, cp.close):
                try:
                    f()
                except NoTeardown:
                    pass
                bad = [c.n for c in conns if not c.torn]
                if bad:
                    raise Violation('leak', 'connections %s are still open after %s()' % (bad, f.__name__))
        bad = [c.n for c in conns if not c.torn]
        if bad:
            raise Violation('leak', 'connections %s are still open in a closed pool' % bad)
        try:
            cp.acquire_connection()
        except RuntimeError:
            pass
        else:
            raise Violation('not-refused', 'acquire_connection succeeded on a closed pool')


class Sequential(Scenario):
    """one client, exact bookkeeping; max_number changed at run time"""
    name = 'sequential'
    weight = 1

    def gen(self, rng):
        return {'progs': [[[rng.choice(['acq', 'acq', 'acq', 'rel', 'rel', 'rel', 'fail', 'inv', 'max']),
                            rng.randint(0, 5)] for _ in range(rng.randint(4, 24))]],
                'max': rng.choice([1, 2, 3, 5]), 'cycles': rng.choice([1, 2, 3, 4]),
                'create': rng.choice([0, 0.1]), 'teardown': 0, 'fail_create': rng.choice([0, 0, 3]),
                'fail_teardown': rng.choice([0, 0, 2, 3]), 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        Pool, conns, calls = make(sim, p)
        cp = Pool(p['max'], p['cycles'])
        mx = p['max']
        held, idle = [], []
        for op, i in p['progs'][0]:
            n, k = len(conns), calls[0]
            if op == 'acq':
                try:
                    conn = cp.acquire_connection()
                except (NoServer, queue.Empty):
                    if idle:
                        raise Violation('not-reused', 'a new connection was attempted with %d idle' % len(idle))
                    if calls[0] != k + 1:
                        raise Violation('retries', 'create_connection called %d times' % (calls[0] - k))
                    continue
                c = conn.r
                if idle:
                    if c not in idle:
                        raise Violation('not-reused', 'a new connection was made with %d idle' % len(idle))
                    idle.remove(c)
                elif c.n != n or len(conns) != n + 1:
                    raise Violation('dead', 'connection %d was given out' % c.n)
                c.acquired += 1
                held.append(conn)
                conn = None
            elif op == 'rel':
                if not held:
                    continue
                conn = held.pop(i % len(held))
                c = conn.r
                k = calls[1]
                try:
                    cp.release_connection(conn)
                except NoTeardown:
                    sim.probe('release-failed')
                conn = None
                if calls[1] - k != c.torn:
                    raise Violation('teardown', '%d teardowns at a release' % (calls[1] - k))
                dies = c.failed or c.acquired >= p['cycles'] or len(idle) >= mx
                if bool(c.torn) != dies:
                    raise Violation('teardown', 'connection %d used %d times (limit %d), %d idle (limit %d), was%s torn down'
                                    % (c.n, c.acquired, p['cycles'], len(idle), mx, '' if c.torn else ' not'))
                if not dies:
                    idle.append(c)
            elif op == 'fail':
                if held:
                    held[i % len(held)].r.failed = True
                    cp.fail_connection(held[i % len(held)])
            elif op == 'max':
                cp.max_number = mx = i
            else:
                k = calls[1]
                try:
                    cp.invalidate()
                except NoTeardown:
                    sim.probe('invalidate-failed')
                else:
                    if p['fail_teardown'] and any(j % p['fail_teardown'] == 0 for j in range(k + 1, calls[1] + 1)):
                        raise Violation('silent', 'invalidate() did not tell of a failed teardown')
                if any(not c.torn for c in idle):
                    raise Violation('leak', 'invalidate() left connections open')
                idle = []
            if any(c.torn for c in [c.r for c in held] + idle):
                raise Violation('teardown', 'a connection was torn down for no reason')
        try:
            cp.close()
        except NoTeardown:
            pass
        for c in held:
            try:
                cp.release_connection(c)
            except NoTeardown:
                pass
        bad = [c.n for c in conns if not c.torn]
        if bad:
            raise Violation('leak', 'connections %s are still open in a closed pool' % bad)


SCENARIOS = [Pooling(), Sequential()]
