"""C33 CPU time: occupancy factor, profile, CPU-aware sleeping and threads"""
import collections
import math
import multiprocessing
import threading
import time

import psutil

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.instrumentation.cpu_time import (calculate_occupancy_factor, sleep_cpu_aware, get_own_cpu_usage,
                                              CPUTimeAwareIntervalTerminableThread, CPUTimeManager)
from satella.instrumentation.cpu_time import collector

CPU = 4
Times = collections.namedtuple('Times', 'user nice system idle iowait irq softirq steal guest guest_nice')
Own = collections.namedtuple('Own', 'user system children_user children_system iowait')


def percentile(values, p):
    values = sorted(values)
    k = (len(values) - 1) * p
    f, c = math.floor(k), math.ceil(k)
    return values[f] + (values[c] - values[f]) * (k - f)


class Boom(Exception):
    pass


class CPUTime(Scenario):
    name = 'cpu'
    max_steps = 800000

    def gen(self, rng):
        progs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                k = rng.choice(['of', 'of', 'of', 'sleep', 'sleep', 'own', 'own', 'perc', 'race', 'race', 'request', 'window', 'thread', 'thread'])
                if k == 'sleep':
                    ops.append([k, rng.choice([0.5, 1, 3, 7.25, '5s']), rng.choice([None, 0.0, 0.2, 0.5]), rng.choice([None, 0.6, 0.9]), rng.choice([1, 1, 0.5])])
                elif k == 'thread':
                    ops.append([k, rng.choice([2, 5, 10, '10s', 3.5, 30, 30]), rng.choice([None, None, 0, 1, 3, 20]), rng.choice([0.3, 0.5, 0.9]), rng.choice([3, 1, '3s']),
                                rng.choice([0, 0, 0.5, 2.0, 2.3, 12.0]), rng.choice([0.0, 3.0, 20.0, 41.5, 130.0]), rng.choice(['ok', 'ok', 'ok', 'boom', 'prepare', 'end'])])
                elif k == 'window':
                    ops.append([k, rng.choice([2, 3, 6]), rng.choice([1, '2s', 5])])
                else:
                    ops.append([k, rng.choice([0.1, 0.3, 0.5, 0.9, 0.95]) if k != 'race' else round(rng.random(), 3), rng.choice([0, 0, 0.1, 1.0, 2.5])])
            progs.append(ops)
        exact = rng.random() < 0.4
        return {'progs': progs, 'loads': [[rng.choice([0.5, 2, 5, 20]), rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]), rng.choice([0.0, 0.3, 1.0])] for _ in range(rng.randint(1, 8))],
                'guest': rng.choice([[0.0, 0.0], [0.0, 0.0], [0.5, 0.25], [0.25, 0.0]]),
                'same': rng.random() < 0.3, 'exact': exact, 'window': rng.choice([None, 2, 2]),
                'sched': gen_sched(rng, stalls=not exact, stall_max=(0.001, 0.05, 0.5), tick=0 if exact else None)}

    def run(self, sim, p):
        start = sim.now
        p['exact'] = p['exact'] and not p['sched']['pstall'] and not p['sched']['tick']
        loads = p['loads']
        if p['same']:
            loads = [[x[0], loads[0][1], x[2]] for x in loads]

        def used(which):
            """the time used since the start, as the kernel counts it"""
            t = sim.now - start
            u = 1000.0
            while True:
                for x in loads:
                    d = min(t, x[0])
                    u += d * x[which]
                    t -= d
                    if t <= 0:
                        return u

        samples = []        # (seq, time, used)
        own = []            # (seq, time, user)
        windows = []        # data of each window of the builder, with the times when it began and ended
        builders = set()

        def cpu_times():
            u = used(1) * CPU
            samples.append((sim.seq(), sim.now, u))
            # the time given to guests is, for the kernel and psutil, a part of user and nice
            guest, guest_nice = p.get('guest', (0.0, 0.0))
            return Times(u * 0.5, u * 0.25, u * 0.125, 1000.0 * CPU + (sim.now - start) * CPU - u, 0.0,
                         u * 0.0625, u * 0.0625, 0.0, u * guest, u * guest_nice)

        class Process:
            def __init__(self, pid=None):
                builders.add(sim.seq())

            def cpu_times(self):
                u = used(2)
                own.append((sim.seq(), sim.now, u))
                return Own(u, u / 2, 0.0, 0.0, 0.0)

        psutil.Process = Process
        psutil.cpu_times = cpu_times
        multiprocessing.cpu_count = lambda: CPU
        original = collector.calculate_occupancy_factor
        values = {}
        happened = threading.Event()

        def factor():
            s0 = sim.seq()
            got = original()
            self.check_factor(sim, p, got, s0, samples)
            me = threading.current_thread()
            values.setdefault(me, []).append((sim.seq(), got))
            if isinstance(me, collector._CPUProfileBuilderThread):
                happened.set()
            return got

        collector.calculate_occupancy_factor = factor
        low, high = min(x[1] for x in loads), max(x[1] for x in loads)
        left = [len(p['progs'])]
        started = []

        def thread(i, prog):
            for op in prog:
                k = op[0]
                if k in ('of', 'own', 'perc', 'request') and op[2]:
                    time.sleep(op[2])
                if k == 'of':
                    factor()
                elif k == 'sleep':
                    self.do_sleep(sim, p, op, values)
                elif k == 'own':
                    self.do_own(sim, p, own)
                elif k == 'perc':
                    self.do_perc(sim, p, op[1], values)
                elif k == 'request':
                    collector._CPUProfileBuilderThread.get_instance().request_percentile(op[1])
                elif k == 'race':
                    # ask for one more while the profile is being made
                    happened.clear()
                    if happened.wait(12):
                        collector._CPUProfileBuilderThread.get_instance().request_percentile(op[1])
                        for _ in range(3):
                            self.do_perc(sim, p, op[1], values)
                elif k == 'window':
                    CPUTimeManager.set_window_size(op[1])
                    CPUTimeManager.set_refresh_each(op[2])
                else:
                    self.do_thread(sim, p, op, started)
            left[0] -= 1

        if p['window']:
            CPUTimeManager.set_window_size(p['window'])
            CPUTimeManager.set_refresh_each('1s')
        for i, prog in enumerate(p['progs']):
            spawn(sim, thread, i, prog)
        while left[0]:
            time.sleep(0.5)
        time.sleep(15)
        for q in (0.5, 0.9):
            self.do_perc(sim, p, q, values)
        self.do_own(sim, p, own)
        n = sum(isinstance(x, collector._CPUProfileBuilderThread) for x in threading.enumerate())
        if n > 1 or len(builders) > 1:
            raise Violation('two-builders', '%d CPU profile builders were started' % max(n, len(builders)))
        if n == 0 and builders:
            raise Violation('no-builder', 'the CPU profile builder has ended')
        for t in started:
            if t.is_alive() and not t._terminating:
                t.terminate()

    def check_factor(self, sim, p, got, s0, samples):
        if not isinstance(got, float):
            raise Violation('factor', 'the factor is %r' % (got,))
        if got < -1e-9:
            raise Violation('factor', 'the occupancy factor is negative: %r' % got)
        if not p['exact']:
            return
        t, u = sim.now, None
        for s, ts, us in reversed(samples):
            if u is None:
                if abs(ts - t) > 0.005:
                    raise Violation('factor', 'the factor was not calculated now')
                u = us
            elif ts < t:
                want = (u - us) / (t - ts) / CPU
                # (a clock that does not move on its own is moved by a millisecond from time to time, lest loops hang)
                if t - ts > 0.02 and abs(want - got) > 0.004 / (t - ts) + 1e-6:
                    raise Violation('factor', 'the occupancy factor is %r, expected %r' % (got, want))
                return
        raise Violation('factor', 'a factor out of one sample')

    def do_sleep(self, sim, p, op, values):
        _, secs, below, above, each = op
        n = float(str(secs).rstrip('s'))
        slack = p['sched']['stall'] * (len(p['progs']) + 1) if p['sched']['pstall'] else 0
        t = sim.now
        stalled = sim.stall_total
        me = threading.current_thread()
        known = len(values.get(me, ()))
        got = sleep_cpu_aware(secs, below, above, check_each=each)
        took = sim.now - t
        mine = [v for s, v in values.get(me, ())][known:]
        if got is not True and got is not False:
            raise Violation('sleep', 'sleep_cpu_aware() gave %r' % (got,))
        hits = [above is not None and v > above or below is not None and v < below for v in mine[1:]]      # the first one only primes
        if got:
            if not hits or not hits[-1] or any(hits[:-1]):
                raise Violation('sleep', 'awoken with factors %s, below %s above %s' % (mine, below, above))
            sim.probe('awoken')
        else:
            if any(hits):
                raise Violation('sleep', 'not awoken with factors %s, below %s above %s' % (mine, below, above))
            if took < n - 1e-6:
                raise Violation('sleep', 'slept for %.3f s of %.3f' % (took, n))
        most = n + (0.3 if p['sched']['tick'] else 0.1 * (len(mine) + 2) * (len(p['progs']) + 2)) + 0.05 + (sim.stall_total - stalled) + slack
        if took > most:
            raise Violation('sleep', 'slept for %.3f s instead of %.3f' % (took, n))
        if below is None and above is None and mine:
            raise Violation('sleep', 'the factor was looked at with no condition')

    def do_own(self, sim, p, own):
        before = len(own)
        got = get_own_cpu_usage()
        if got is None:
            if before > 2 and (len(own) < 2 or own[-1][1] - own[-2][1] > 0):
                raise Violation('own', 'no own usage in spite of %d measurements' % before)
            return
        if abs(got.user - 2 * got.system) > 1e-6 or got.children_user or got.children_system or got.iowait:
            raise Violation('own', 'own usage is %r' % (got,))
        if got.user < -1e-9:
            raise Violation('own', 'own usage is negative: %r' % (got,))
        if p['exact']:
            # one more measurement may come while the last two are looked at
            last = own[-4:]
            cand = [(b[2] - a[2]) / (b[1] - a[1]) for i, b in enumerate(last) for a in last[max(0, i - 2):i] if b[1] > a[1]]
            if not any(abs(c - got.user) < 0.01 for c in cand):
                raise Violation('own', 'own usage is %r, expected one of %r' % (got.user, cand))
            sim.probe('own')

    def do_perc(self, sim, p, q, values):
        b = collector._CPUProfileBuilderThread.get_instance()
        none = not b.data
        got = CPUTimeManager.percentile(q)
        mine = [v for t, vs in list(values.items()) if isinstance(t, collector._CPUProfileBuilderThread) for s, v in vs]
        if got == 0 and none:
            return
        # a window is a run of consecutive values of the builder, the first of which only primes
        for size in (10, 2, 3, 6):
            for end in range(len(mine), 0, -1):
                w = mine[max(0, end - size):end]
                if len(w) == size and abs(percentile(w, q) - got) < 1e-6:
                    sim.probe('percentile')
                    return
        if not mine and got == 0:
            return
        raise Violation('percentile', 'percentile %s is %r, of no window of %s' % (q, got, mine[-20:]))

    def do_thread(self, sim, p, op, started):
        _, secs, sooner, perc, wakeup, dur, lifetime, how = op
        n = float(str(secs).rstrip('s'))
        slack = p['sched']['stall'] * (len(p['progs']) + 1) if p['sched']['pstall'] else 0
        early = n * 0.1 if sooner is None else sooner
        calls = []
        log = []

        class Mine(CPUTimeAwareIntervalTerminableThread):
            def prepare(self):
                log.append('prepare')
                if how == 'prepare':
                    raise Boom()

            def loop(self):
                calls.append((sim.now, sim.stall_total))
                if dur:
                    time.sleep(dur)
                if how == 'boom' and len(calls) > 1:
                    raise Boom()
                if how == 'end' and len(calls) > 1:
                    self.terminate()

            def on_overrun(self, taken):
                log.append('overrun')
                if taken < n - 1e-6:
                    raise Violation('overrun', 'overrun was reported after %.3f of %.3f s' % (taken, n))

            def cleanup(self):
                log.append('cleanup')

        kw = {} if sooner is None else {'max_sooner': sooner}
        t = Mine(secs, percentile=perc, wakeup_interval=wakeup, terminate_on=Boom, **kw)
        t.start()
        started.append(t)
        time.sleep(lifetime)
        t.terminate()
        bound = max(float(str(wakeup).rstrip('s')), 2) + dur + 1 + sim.stall_total
        t.join(bound)
        if t.is_alive():
            raise Violation('not-ended', 'the thread did not end within %.2f s of terminate()' % bound)
        if log.count('prepare') != 1 or log.count('cleanup') != 1 or log[-1] != 'cleanup':
            raise Violation('cleanup', 'the thread did %s' % log)
        if how == 'prepare' and calls:
            raise Violation('loop', 'loop() was called though prepare() failed')
        for (a, sa), (b, sb) in zip(calls, calls[1:]):
            gap = b - a
            if gap < max(n - early, dur) - (sb - sa) - 0.05 - slack:
                raise Violation('too-soon', 'loop() was called %.3f s after the last time, of %.3f s, at most %.3f sooner' % (gap, n, early))
            if gap > max(n, dur) + (0.3 if p['sched']['tick'] else 0.1 * (n * 2 + 4) * (len(p['progs']) + 2)) + (sim.stall_total - sa) + 0.05 + slack:
                raise Violation('too-late', 'loop() was called %.3f s after the last time, of %.3f s' % (gap, n))
        if how in ('ok', 'end') and lifetime > 1 and not calls:
            raise Violation('loop', 'loop() was not called')
        if dur > n + 1e-6 and how == 'ok' and log.count('overrun') < len(calls) - 1:
            raise Violation('overrun', 'the overrun was not reported')


SCENARIOS = [CPUTime()]
