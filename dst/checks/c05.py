"""C05 mutual exclusion: Monitor, RMonitor, Monitor collections, LockedStructure"""
import copy
import threading

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import Monitor, RMonitor, MonitorDict, MonitorList, MonitorSet, \
    LockedStructure


class Section:
    """detects two threads inside the same critical section"""

    def __init__(self, sim, reentrant=False):
        self.sim = sim
        self.owner = None
        self.depth = 0
        self.entries = 0
        self.reentrant = reentrant

    def enter(self):
        me = self.sim.cur.tid
        if self.owner is not None and self.owner != me:
            raise Violation('mutual-exclusion', 'thread %d entered while thread %d was inside' % (me, self.owner))
        if self.owner == me and not self.reentrant:
            raise Violation('mutual-exclusion', 'non-reentrant section entered twice')
        self.owner = me
        self.depth += 1
        self.entries += 1

    def leave(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def body(self, boom=False, inner=None):
        self.enter()
        try:
            for _ in range(2):
                self.sim.yield_point('cs')
                if self.owner != self.sim.cur.tid:
                    raise Violation('mutual-exclusion', 'section was taken over')
            if inner is not None:
                inner()
            if boom:
                raise KeyError('boom')
        finally:
            self.leave()


class Monitors(Scenario):
    name = 'monitor'
    weight = 3

    def gen(self, rng):
        kinds = ['sync', 'acquire', 'with', 'on', 'attr', 'release', 'sync-raise', 'acquire-raise',
                 'release-raise', 'with-raise', 'on-raise']
        r = rng.random() < 0.35
        if r:
            kinds += ['nested', 'nested']
        kinds = rng.sample(kinds, rng.randint(2, len(kinds)))
        return {'r': r, 'progs': [[rng.choice(kinds) for _ in range(rng.randint(1, 4))]
                                  for _ in range(rng.randint(2, 4))], 'sched': gen_sched(rng)}

    def run(self, sim, p):
        base = RMonitor if p['r'] else Monitor
        sec = Section(sim, p['r'])
        done = [0]

        class Obj(base):
            def __init__(self):
                base.__init__(self)

            @Monitor.synchronized
            def sync(self, boom, inner=None):
                sec.body(boom, inner)
                return 'r'

            @Monitor.synchronized
            def rel(self, boom):
                sec.body(False)
                before = sec.entries
                with Monitor.release(self):
                    sim.yield_point('outside')
                    sim.yield_point('outside')
                    if boom:
                        raise KeyError('boom')
                if sec.entries != before:
                    sim.probe('someone-entered-during-release')
                sec.body(False)

            @Monitor.synchronized
            def rel_raise(self):
                sec.body(False)
                try:
                    with Monitor.release(self):
                        sim.yield_point('outside')
                        raise KeyError('boom')
                    raise Violation('result', 'exception was swallowed')
                except KeyError:
                    pass
                sec.body(False)

        o = Obj()

        @Monitor.synchronize_on(o)
        def on(x):
            sec.body(False)
            y = x + 1
            return y

        class Holder:
            def __init__(self):
                self.mon = o

            @Monitor.synchronize_on_attribute('mon')
            def attr(self, x):
                sec.body(False)
                return x + x

        h = Holder()

        def step(k):
            if k == 'sync':
                if o.sync(False) != 'r':
                    raise Violation('result', 'synchronized lost the return value')
            elif k == 'sync-raise':
                try:
                    o.sync(True)
                    raise Violation('result', 'exception was swallowed')
                except KeyError:
                    pass
            elif k == 'acquire':
                with Monitor.acquire(o):
                    sec.body()
            elif k == 'acquire-raise':
                try:
                    with Monitor.acquire(o):
                        sec.body(True)
                    raise Violation('result', 'exception was swallowed')
                except KeyError:
                    pass
            elif k == 'with':
                with o as x:
                    if x is not o:
                        raise Violation('result', 'with gives something else')
                    sec.body()
            elif k == 'with-raise':
                try:
                    with o:
                        sec.body(True)
                    raise Violation('result', 'exception was swallowed')
                except KeyError:
                    pass
            elif k == 'on-raise':
                for fn in (lambda: on(None), lambda: h.attr(None)):
                    try:
                        fn()
                        raise Violation('result', 'exception was swallowed')
                    except TypeError:
                        pass
            elif k == 'on':
                if on(1) != 2:
                    raise Violation('result', 'synchronize_on lost the return value')
            elif k == 'attr':
                if h.attr(4) != 8:
                    raise Violation('result', 'synchronize_on_attribute lost the return value')
            elif k == 'release':
                o.rel(False)
            elif k == 'release-raise':
                o.rel_raise()
            elif k == 'nested':
                with Monitor.acquire(o):
                    sec.body(False, lambda: o.sync(False))
                    with o:
                        sec.body()
            done[0] += 1

        def client(prog):
            for k in prog:
                step(k)

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        with Monitor.acquire(o):     # still usable: the lock was not leaked
            sec.body()


class Collections(Scenario):
    name = 'collections'
    weight = 2

    def gen(self, rng):
        return {'progs': [[[rng.choice(['set', 'dict', 'list', 'ls', 'ls2', 'pop', 'take', 'copy']), rng.randint(0, 2)]
                           for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(2, 4))],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        s, d, lst = MonitorSet(), MonitorDict(), MonitorList()
        shared = threading.Lock()
        ls = LockedStructure({}, shared)
        ls2 = LockedStructure([], shared)
        secs = {k: Section(sim) for k in ('dict', 'list', 'shared')}
        ins, gone = {}, {}

        def client(prog):
            for k, v in prog:
                if k == 'set':
                    o = sim.call('ins', s.insert_and_check, v)
                    if not o.ok:
                        raise Violation('unexpected-exception', repr(o.r))
                    ins.setdefault(v, []).append(o)
                elif k == 'dict':
                    with d:
                        secs['dict'].body()
                        d[v] = d[v] + 1 if v in d else 1
                elif k == 'list':
                    with Monitor.acquire(lst):
                        secs['list'].body()
                        lst.append(v)
                elif k == 'pop':
                    with d:
                        secs['dict'].body()
                        n = d.get(v, 0)
                        if n:
                            sim.yield_point('pop')
                            if n > 1:
                                d[v] -= 1
                            else:
                                del d[v]
                            gone['dict', v] = gone.get(('dict', v), 0) + 1
                elif k == 'take':
                    with lst:
                        secs['list'].body()
                        if len(lst):
                            x = lst[-1]
                            sim.yield_point('pop')
                            if v:
                                del lst[slice(-1, None) if v > 1 else len(lst) - 1]
                            else:
                                lst[-1] = 7
                                sim.yield_point('pop')
                                if lst[-1] != 7 or lst[:1] != [lst[0]]:
                                    raise Violation('lost-update', 'an item set is not there')
                                del lst[-1]
                            gone['list'] = gone.get('list', 0) + 1
                elif k == 'copy':
                    # a copy is a monitor in its own right
                    how = copy.copy if v else copy.deepcopy
                    for obj, sec in ((d, 'dict'), (lst, 'list')):
                        with obj:
                            secs[sec].body()
                            other = how(obj)
                            if type(other) is not type(obj) or other != obj:
                                raise Violation('copy', 'a copy differs')
                            with other:
                                if sec == 'dict':
                                    other['x'] = 1
                                else:
                                    other.append('x')
                                if 'x' in obj or 'x' not in other:
                                    raise Violation('copy', 'a copy shares its content')
                elif k == 'ls':
                    with ls:
                        secs['shared'].body()
                        x = ls[v] if v in ls else 0
                        sim.yield_point('rmw')
                        ls[v] = x + 1
                else:
                    with ls2:
                        secs['shared'].body()
                        n = len(ls2)
                        sim.yield_point('rmw')
                        ls2.append(n)

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        for v, ops in ins.items():
            if sum(1 for o in ops if o.value is True) != 1:
                raise Violation('insert-once', 'insert_and_check(%r) succeeded %d times: %s' % (
                    v, sum(1 for o in ops if o.value is True), ops))
            if v not in s:
                raise Violation('insert-once', '%r is missing from the set' % (v,))
        cnt = {}
        for prog in p['progs']:
            for k, v in prog:
                cnt[k, v] = cnt.get((k, v), 0) + 1
                cnt[k] = cnt.get(k, 0) + 1
        for v in range(3):
            if d.get(v, 0) != cnt.get(('dict', v), 0) - gone.get(('dict', v), 0) or (v in d) != bool(d.get(v)):
                raise Violation('lost-update', 'MonitorDict updates lost')
            with ls:
                if (ls[v] if v in ls else 0) != cnt.get(('ls', v), 0):
                    raise Violation('lost-update', 'LockedStructure updates lost')
        if len(lst) != cnt.get('list', 0) - gone.get('list', 0):
            raise Violation('lost-update', 'MonitorList appends lost')
        if list(ls2) != list(range(cnt.get('ls2', 0))):
            raise Violation('lost-update', 'LockedStructure list is %r' % (list(ls2),))


SCENARIOS = [Monitors(), Collections()]
