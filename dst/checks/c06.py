"""C06 LockedDataset"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn
from .c05 import Section

from satella.coding.concurrent import LockedDataset
from satella.exceptions import ResourceNotLocked, WouldWaitMore, ResourceLocked


def outside():
    return 1


class DS(LockedDataset):
    def __init__(self):
        super().__init__()
        with self:
            self.counter = 0
            self.log = ()
            self.fn = outside

    @LockedDataset.locked()
    def inc(self, sim):
        v = self.counter
        sim.yield_point('rmw')
        self.counter = v + 1
        return v

    @LockedDataset.locked(timeout=0.5)
    def inc_t(self, sim):
        v = self.counter
        sim.yield_point('rmw')
        self.counter = v + 1

    @LockedDataset.locked(blocking=False)
    def inc_nb(self, sim):
        v = self.counter
        sim.yield_point('rmw')
        self.counter = v + 1


class Dataset(Scenario):
    name = 'dataset'

    def gen(self, rng):
        kinds = ['with', 'inc', 'hold', 'timeout', 'nb', 'inc_t', 'inc_nb', 'raise', 'bare']
        kinds = rng.sample(kinds, rng.randint(2, len(kinds)))
        return {'progs': [[[rng.choice(kinds), rng.choice([0.3, 1.0, 4.0])]
                           for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))],
                'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        ds = DS()
        sec = Section(sim)
        total = [0]
        held = []

        def body(md):
            if md is not ds:
                raise Violation('identity', 'the context does not yield the dataset')
            sec.enter()
            v = md.counter
            sim.yield_point('rmw')
            md.counter = v + 1
            if ds.counter != v + 1:
                raise Violation('lost-update', 'somebody else wrote while the lock was held')
            sec.leave()
            total[0] += 1

        def client(prog):
            for k, d in prog:
                t0 = sim.now
                try:
                    if k == 'with':
                        with ds as md:
                            body(md)
                    elif k == 'inc':
                        ds.inc(sim)
                        total[0] += 1
                    elif k == 'hold':
                        with ds as md:
                            held.append(d)
                            body(md)
                            time.sleep(d)
                            md.log = md.log + (1,)
                    elif k == 'raise':
                        try:
                            with ds as md:
                                body(md)
                                raise KeyError('x')
                        except KeyError:
                            pass
                        else:
                            raise Violation('swallowed', 'an exception raised in the block was lost')
                        for e in (WouldWaitMore, ResourceNotLocked, ResourceLocked):
                            mine = e('mine')
                            try:
                                with (ds if d < 1 else ds(blocking=True, timeout=-1)) as md:
                                    body(md)
                                    raise mine
                            except e as got:
                                if got is not mine:
                                    raise
                            else:
                                raise Violation('swallowed', 'a %s raised in the block was lost' % e.__name__)
                    elif k == 'timeout':
                        with ds(blocking=True, timeout=0.5) as md:
                            body(md)
                    elif k == 'nb':
                        with ds(blocking=False) as md:
                            body(md)
                    elif k == 'inc_t':
                        ds.inc_t(sim)
                        total[0] += 1
                    elif k == 'inc_nb':
                        ds.inc_nb(sim)
                        total[0] += 1
                    elif k == 'bare' and len(p['progs']) == 1:
                        try:
                            ds.counter
                            raise Violation('unlocked-access', 'read allowed while nobody holds the lock')
                        except ResourceNotLocked:
                            pass
                        try:
                            ds.counter = 7
                            raise Violation('unlocked-access', 'write allowed while nobody holds the lock')
                        except ResourceNotLocked:
                            pass
                except ResourceNotLocked as e:
                    raise Violation('not-locked', '%s: ResourceNotLocked raised to the lock holder' % k)
                except (WouldWaitMore, ResourceLocked) as e:
                    if k in ('with', 'inc', 'hold', 'raise'):
                        raise Violation('spurious-timeout', '%s gave up although it was told to block '
                                        'indefinitely' % k)
                    if k in ('timeout', 'inc_t') and sim.now - t0 < 0.5 - 1e-3:
                        raise Violation('spurious-timeout', '%s gave up after %.4f s' % (k, sim.now - t0))
                    if k in ('nb', 'inc_nb') and sim.now - t0 > sim.stall_total + 0.1:
                        raise Violation('late-timeout', '%s blocked for %.3f s' % (k, sim.now - t0))
                    if len(p['progs']) == 1:
                        raise Violation('spurious-timeout', '%s gave up though nobody else exists' % k)
                    sim.probe('gave-up')
                else:
                    if k in ('timeout', 'inc_t') and sim.now - t0 > 0.6 + sim.stall_total:
                        raise Violation('late-timeout', '%s took %.3f s' % (k, sim.now - t0))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        for fn in (lambda: ds.counter, lambda: setattr(ds, 'counter', 5), lambda: ds.fn,
                   lambda: setattr(ds, 'fn', None)):
            try:
                fn()
            except ResourceNotLocked:
                pass
            else:
                raise Violation('unlocked-access', 'access allowed while nobody holds the lock')
        with ds as md:
            if md.counter != total[0]:
                raise Violation('lost-update', 'counter is %d after %d increments' % (md.counter, total[0]))
            if len(md.log) != len(held):
                raise Violation('lost-update', 'log')


SCENARIOS = [Dataset()]
