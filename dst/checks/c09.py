"""C09 life cycle of TerminableThread, IntervalTerminableThread, CPUTimeAwareIntervalTerminableThread,
SingleStartThread, BogusTerminableThread, ThreadCollection"""
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

import satella.coding.concurrent.thread as thread_mod
from satella.coding.concurrent import TerminableThread, IntervalTerminableThread, SingleStartThread, \
    BogusTerminableThread, ThreadCollection, Condition
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Other(Exception):
    pass


EXC = {'Boom': Boom, 'SubBoom': SubBoom, 'Other': Other, 'SystemExit': SystemExit}


class Rec:
    """what happened to one thread"""

    def __init__(self, sim):
        self.sim = sim
        self.ev = []       # (kind, seq, time)

    def add(self, kind, th):
        if threading.current_thread() is not th:
            raise Violation('wrong-thread', '%s called in another thread' % kind)
        self.ev.append((kind, self.sim.seq(), self.sim.now))

    def count(self, kind):
        return sum(e[0] == kind for e in self.ev)


class CtypesStub:
    """delivers the asynchronous exception when the target leaves its next sleep"""

    def __init__(self, sim, pending):
        outer = self

        class api:
            @staticmethod
            def PyThreadState_SetAsyncExc(ident, exc):
                ident = getattr(ident, 'value', ident)
                if exc == 0 or exc is None:
                    pending.pop(ident, None)
                    return 0
                exc = getattr(exc, 'value', exc)
                for t in sim.threads:
                    if t.ident == ident and t.state not in ('done', 'crashed'):
                        pending[ident] = exc
                        return 1
                return 0
        self.pythonapi = api

    class c_long:
        def __init__(self, v):
            self.value = v

    c_ulong = c_long

    class py_object:
        def __init__(self, v):
            self.value = v


def check_life(sim, rec, th, spec, term_at, errors):
    """spec: prep (None or exception name), body list, terminate_on"""
    kinds = [e[0] for e in rec.ev]
    if kinds.count('prepare') != 1 or kinds[0] != 'prepare':
        raise Violation('prepare', 'events: %s' % kinds)
    if kinds.count('cleanup') != 1 or kinds[-1] != 'cleanup':
        raise Violation('cleanup', 'events: %s' % kinds)
    ton = spec['ton']
    ton = tuple(EXC[x] for x in ton)
    expected = None
    if spec['prep'] is not None:
        expected = EXC[spec['prep']]
        if 'loop' in kinds:
            raise Violation('loop', 'loop called though prepare raised')
    elif rec.count('raise'):
        expected = EXC[spec['exc']]
        if kinds[-2] != 'raise':
            raise Violation('loop', 'loop called again after an exception: %s' % kinds)
    errs = [e for n, e in errors if n == th.name]
    if expected is not None:
        swallowed = expected is SystemExit or (ton and issubclass(expected, ton))
        if swallowed and errs:
            raise Violation('terminate-on', '%s should have been swallowed' % expected.__name__)
        if not swallowed and [type(e) for e in errs] != [expected]:
            raise Violation('exception', '%s should end the thread with a traceback, got %r' % (
                expected.__name__, errs))
        if swallowed and expected is not SystemExit and not rec.terminating:
            raise Violation('terminating', 'terminating not set after a terminate_on exception')
    elif errs:
        raise Violation('exception', 'thread ended with %r' % (errs,))
    else:
        if term_at is None:
            raise Violation('stopped', 'thread stopped though nobody terminated it')
    if term_at is not None:
        late = sum(1 for e in rec.ev if e[0] == 'loop' and e[1] > term_at)
        if late > 1:
            raise Violation('loop', 'loop called %d times after terminate()' % late)


class Life(Scenario):
    name = 'life'
    weight = 3

    def gen(self, rng):
        return {'prep': rng.choice([None, None, None, None, 'Boom', 'SubBoom', 'Other', 'SystemExit']),
                'exc': rng.choice([None, None, 'Boom', 'SubBoom', 'Other', 'SystemExit']),
                'at': rng.randint(1, 4), 'ton': rng.choice([[], ['Boom'], ['Boom'], ['Boom', 'Other'], ['Other']]),
                'single': rng.random() < 0.5, 'body': rng.choice(['spin', 'sleep', 'safe', 'safe', 'cond', 'cond']),
                'wake': rng.choice([None, 0.5, 3.0]), 'dur': rng.choice([0.2, 5.0, 30.0]),
                'ctx': rng.random() < 0.3, 'term': rng.choice([0, 0.1, 0.7, 3.0, 12.0]),
                'early': rng.random() < 0.1, 'two': rng.random() < 0.3, 'notify': rng.choice([None, 0.3, 2.0]),
                'dont_raise': rng.random() < 0.3, 'str': rng.random() < 0.2,
                'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        rec = Rec(sim)
        cond = Condition()
        notified = []
        kw = {} if p['wake'] is None else {'wake_up_each': '%ss' % p['wake'] if p['str'] and p['body'] == 'cond' else p['wake']}
        wake = p['wake'] or 2.0
        term = [None, None]

        class T(TerminableThread):
            n = 0

            def prepare(self):
                rec.add('prepare', self)
                if p['prep']:
                    raise EXC[p['prep']]()

            def loop(self):
                rec.add('loop', self)
                self.n += 1
                if p['exc'] and self.n == p['at']:
                    rec.add('raise', self)
                    raise EXC[p['exc']]()
                if p['body'] == 'spin':
                    time.sleep(0.01)
                elif p['body'] == 'sleep':
                    time.sleep(p['dur'])
                elif p['body'] == 'safe':
                    t0 = sim.now
                    try:
                        self.safe_sleep(p['dur'], **kw)
                    except SystemExit:
                        if term[0] is None:
                            raise Violation('safe-sleep', 'SystemExit though not terminated')
                        if sim.now - max(term[0], t0) > wake + 0.1 + sim.stall_total:
                            raise Violation('safe-sleep', 'termination noticed after %.3f s' % (
                                sim.now - term[0]))
                        if sim.now - t0 > p['dur'] + 0.1 + sim.stall_total:
                            raise Violation('safe-sleep', 'slept %.3f s of %s' % (sim.now - t0, p['dur']))
                        sim.probe('safe-sleep-interrupted')
                        raise
                    if sim.now - t0 < p['dur'] - 1e-3:
                        raise Violation('safe-sleep', 'slept %.3f s of %s' % (sim.now - t0, p['dur']))
                    if sim.now - t0 > p['dur'] + 0.1 + sim.stall_total:
                        raise Violation('safe-sleep', 'slept %.3f s of %s' % (sim.now - t0, p['dur']))
                    if term[1] is not None and max(term[1], t0) < sim.now - 0.1 - sim.stall_total - wake:
                        raise Violation('safe-sleep', 'returned normally though terminated')
                elif p['body'] == 'cond':
                    t0 = sim.now
                    nn = len(notified)
                    dur = p['dur'] if not p['str'] else '%ss' % p['dur']
                    try:
                        self.safe_wait_condition(cond, dur, dont_raise=p['dont_raise'], **kw)
                        r = 'ok'
                    except WouldWaitMore:
                        r = 'timeout'
                        if p['dont_raise']:
                            raise Violation('safe-wait', 'raised with dont_raise')
                    except SystemExit:
                        if term[0] is None:
                            raise Violation('safe-wait', 'SystemExit though not terminated')
                        if sim.now - max(term[0], t0) > wake + 0.1 + sim.stall_total:
                            raise Violation('safe-wait', 'termination noticed after %.3f s' % (
                                sim.now - term[0]))
                        if sim.now - t0 > p['dur'] + 0.1 + sim.stall_total:
                            raise Violation('safe-wait', 'waited %.3f s of %s' % (sim.now - t0, p['dur']))
                        sim.probe('safe-wait-interrupted')
                        raise
                    el = sim.now - t0
                    if term[1] is not None and max(t0, term[1]) < sim.now - 0.1 - sim.stall_total - wake:
                        raise Violation('safe-wait', 'went on waiting for %.3f s though terminated' % (sim.now - max(t0, term[1])))
                    if el > p['dur'] + 0.2 + sim.stall_total:
                        raise Violation('safe-wait', 'waited %.3f s of %s' % (el, p['dur']))
                    timed_out = r == 'timeout' or (p['dont_raise'] and len(notified) == nn)
                    if timed_out and el < p['dur'] - 1e-3:
                        raise Violation('safe-wait', 'gave up after %.3f s of %s, %d notifications' % (
                            el, p['dur'], len(notified) - nn))
                    if r == 'ok' and not p['dont_raise'] and len(notified) == nn:
                        raise Violation('safe-wait', 'returned without a notification')
                    if r == 'timeout' and len(notified) - nn > 4 and not sim.stall_total:
                        raise Violation('safe-wait', 'missed %d notifications' % (len(notified) - nn))

            def cleanup(self):
                rec.add('cleanup', self)
                rec.terminating = self.terminating

        ton = tuple(EXC[x] for x in p['ton'])
        if p['single'] and len(ton) == 1:
            ton = ton[0]
        th = T(terminate_on=ton) if ton else T()
        th.daemon = True
        done = []

        def notifier():
            while not done:
                time.sleep(p['notify'])
                notified.append(sim.now)
                cond.notify_all()

        nt = spawn(sim, notifier) if p['body'] == 'cond' and p['notify'] else None
        if th.terminating:
            raise Violation('terminating', 'set initially')

        def terminate():
            s = sim.seq()
            t = sim.now
            if term[0] is None:
                term[0] = t
            if th.terminate() is not th:
                raise Violation('result', 'terminate() does not return self')
            if term[1] is None:
                term[1] = sim.now
            if not th.terminating:
                raise Violation('terminating', 'not set by terminate()')
            return sim.seq()

        term_seq = None
        if p['early'] and not p['ctx']:
            term_seq = terminate()
        if p['ctx']:
            try:
                with th as th2:
                    if th2 is not th:
                        raise Violation('result', '__enter__')
                    time.sleep(p['term'])
                    term[0] = sim.now
                    if p['two']:
                        raise Other()
                if p['two']:
                    raise Violation('exception', 'context swallowed an exception')
            except Other:
                if not p['two']:
                    raise
            term_seq = sim.seq()
            if th.is_alive():
                raise Violation('alive', 'alive after leaving the context')
        else:
            if th.start() is not th:
                raise Violation('result', 'start() does not return self')
            if p['two']:
                spawn(sim, terminate)
            time.sleep(p['term'])
            natural = p['prep'] or p['exc']
            if not natural and term[0] is None and not th.is_alive():
                raise Violation('stopped', 'died before it was terminated')
            s = terminate()
            term_seq = s if term_seq is None else min(s, term_seq)
            th.join()
        done.append(1)
        check_life(sim, rec, th, p, term_seq, sim.thread_errors)
        if p['early'] and not p['ctx'] and rec.count('loop'):
            raise Violation('loop', 'looped although terminated before start')


class Interval(Scenario):
    name = 'interval'
    weight = 3

    def gen(self, rng):
        return {'sec': rng.choice([0.5, 1.0, 3.0]), 'durs': [rng.choice([0, 0.1, 0.4, 0.9, 1.5, 4.0])
                                                            for _ in range(rng.randint(1, 4))],
                'prep': rng.choice([None] * 6 + ['Boom', 'Other']), 'exc': rng.choice([None] * 4 + ['Boom', 'SubBoom', 'Other', 'SystemExit']),
                'at': rng.randint(1, 4), 'ton': rng.choice([[], ['Boom'], ['Boom', 'Other']]),
                'term': rng.choice([0, 0.3, 2.5, 7.1, 12.0]), 'str': rng.random() < 0.2, 'cpu': rng.random() < 0.25,
                'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        rec = Rec(sim)
        sec = p['sec']
        durs = p['durs']
        starts, overruns = [], []
        base = IntervalTerminableThread
        kw = {}

        class T(base):
            def prepare(self):
                rec.add('prepare', self)
                if p['prep']:
                    raise EXC[p['prep']]()

            def loop(self):
                rec.add('loop', self)
                i = len(starts)
                starts.append([sim.now, None, sim.stall_total])
                if p['exc'] and i + 1 == p['at']:
                    rec.add('raise', self)
                    raise EXC[p['exc']]()
                d = durs[i % len(durs)]
                if d:
                    time.sleep(d)
                starts[-1][1] = sim.now

            def on_overrun(self, time_taken):
                rec.add('overrun', self)
                overruns.append((len(starts) - 1, time_taken))

            def cleanup(self):
                rec.add('cleanup', self)
                rec.terminating = self.terminating

        ton = tuple(EXC[x] for x in p['ton'])
        if ton:
            kw['terminate_on'] = ton
        th = T('%ss' % sec if p['str'] else sec, **kw)
        th.daemon = True
        th.start()
        time.sleep(p['term'])
        t0 = sim.now
        th.terminate()
        ts = sim.seq()
        th.join()
        check_life(sim, rec, th, p, ts, sim.thread_errors)
        slack = sim.stall_total + 0.1
        end = rec.ev[-1][2]
        if not p['prep'] and not (p['exc'] and len(starts) >= p['at']):
            last = durs[(len(starts) - 1) % len(durs)] if starts else 0
            if end - t0 > max(2.0, last) + slack:
                raise Violation('late-termination', 'ended %.3f s after terminate()' % (end - t0))
        over = dict(overruns)
        if len(over) != len(overruns):
            raise Violation('overrun', 'on_overrun called twice for one loop: %s' % overruns)
        for i, (s, e, st) in enumerate(starts):
            if e is None:
                continue
            took = e - s
            if i in over:
                if over[i] < took - 1e-3 or over[i] > took + slack:
                    raise Violation('overrun', 'loop took %.3f, on_overrun(%.3f)' % (took, over[i]))
                if took < sec - slack:
                    raise Violation('overrun', 'called for a loop of %.3f s' % took)
                sim.probe('overrun')
            if i + 1 < len(starts):
                gap = starts[i + 1][0] - s
                if took > sec + 1e-3 and i not in over:
                    raise Violation('overrun', 'not called for a loop of %.3f s' % took)
                if gap > max(sec, took) + slack:
                    raise Violation('interval', 'loops started %.3f s apart' % gap)
                if took < sec and gap < sec - 1e-3 - sim.stall_total:
                    raise Violation('interval', 'loops started %.3f s apart, interval is %.2f' % (gap, sec))


class Force(Scenario):
    name = 'force'

    def gen(self, rng):
        return {'term': rng.choice([0.0, 0.5, 2.0]), 'dead': rng.random() < 0.2, 'sched': gen_sched(rng)}

    def run(self, sim, p):
        pending = {}
        thread_mod.ctypes = CtypesStub(sim, pending)
        rec = Rec(sim)

        class T(TerminableThread):
            def loop(self):
                rec.add('loop', self)
                while True:         # never looks at terminating
                    time.sleep(0.1)
                    e = pending.pop(threading.get_ident(), None)
                    if e is not None:
                        raise e()
                    if p['dead']:
                        raise SystemExit()

            def cleanup(self):
                rec.add('cleanup', self)
                rec.terminating = self.terminating

        a, b = T(daemon=True), T(daemon=True)
        a.start()
        if not p['dead']:       # (thread identifiers are recycled)
            b.start()
        time.sleep(p['term'])
        if p['dead']:
            a.join()
            try:
                a.terminate(force=True)
            except RuntimeError:
                pass
            else:
                raise Violation('force', 'no RuntimeError for a dead thread')
            if not a.terminating:
                raise Violation('force', 'terminating not set')
            return
        try:
            if a.terminate(force=True) is not a:
                raise Violation('result', 'terminate(force=True)')
        except RuntimeError:
            # it noticed that it is terminating and ended before the exception could be injected
            if a.is_alive() and not rec.count('cleanup'):
                raise Violation('force', 'RuntimeError for a running thread')
            sim.probe('ended-meanwhile')
        a.join(timeout=50)
        if a.is_alive():
            raise Violation('force', 'thread survived terminate(force=True)')
        if not b.is_alive():
            raise Violation('force', 'another thread was killed')


class Single(Scenario):
    name = 'single'

    def gen(self, rng):
        return {'progs': [[rng.choice([0, 0, 0.1, 1.0]) for _ in range(rng.randint(1, 3))]
                          for _ in range(rng.randint(2, 3))], 'refused': rng.choice([0, 0, 0, 1, 2]), 'sched': gen_sched(rng)}

    def run(self, sim, p):
        ran = []
        refused = [p['refused']]

        def limit(th):
            if isinstance(th, S) and refused[0]:
                refused[0] -= 1
                return True
            return False

        sim.thread_limit = limit

        class S(SingleStartThread):
            def run(self):
                ran.append(threading.current_thread())
                time.sleep(0.5)

        s = S(daemon=True)
        failures = []

        def client(prog):
            for d in prog:
                if d:
                    time.sleep(d)
                try:
                    if s.start() is not s:
                        raise Violation('result', 'start() does not return self')
                except RuntimeError:
                    failures.append(1)

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        if any(p['progs']):
            if len(failures) != p['refused'] - refused[0]:
                raise Violation('start', 'start() failed %d times, the system refused to start a thread %d times' % (len(failures), p['refused'] - refused[0]))
            refused[0] = 0
            s.start()       # it may be started after failing to
            s.join()
            s.start()
            time.sleep(2)
            if ran != [s]:
                raise Violation('count', 'run() executed %d times' % len(ran))


class Bogus(Scenario):
    name = 'bogus'

    def gen(self, rng):
        return {'timeout': rng.choice([None, 0.5, 3.0, 10.0]), 'after': rng.choice([0, 0.2, 2.0, 5.0]),
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        b = BogusTerminableThread()
        for fn in (b.join, lambda: b.join(timeout=1)):
            try:
                fn()
            except RuntimeError:
                pass
            else:
                raise Violation('bogus', 'join before start')
        if b.is_alive():
            raise Violation('bogus', 'alive before start')
        b.start()
        try:
            b.start()
        except RuntimeError:
            pass
        else:
            raise Violation('bogus', 'started twice')
        if not b.is_alive():
            raise Violation('bogus', 'not alive after start')
        t0 = sim.now
        tt = [None]

        def term():
            time.sleep(p['after'])
            b.terminate()
            tt[0] = sim.now

        th = spawn(sim, term)
        try:
            b.join() if p['timeout'] is None else b.join(timeout=p['timeout'])
        except WouldWaitMore:
            if p['timeout'] is None or sim.now - t0 < p['timeout'] - 1e-3:
                raise Violation('bogus', 'spurious WouldWaitMore')
            if sim.now - t0 > p['timeout'] + 1.1 + sim.stall_total:
                raise Violation('bogus', 'late WouldWaitMore')
            sim.probe('timeout')
        else:
            if not b.terminated:
                raise Violation('bogus', 'join returned before termination')
            if sim.now - t0 > p['after'] + 1.1 + sim.stall_total:
                raise Violation('bogus', 'join returned late')
            if p['timeout'] is not None and sim.now - t0 > p['timeout'] + 1.1 + sim.stall_total:
                raise Violation('bogus', 'join waited for %.1f s with timeout %.1f' % (sim.now - t0, p['timeout']))
            if b.is_alive():
                raise Violation('bogus', 'alive after join')
            try:
                b.start()
            except RuntimeError:
                pass
            else:
                raise Violation('bogus', 'started after termination')
        th.join()


class Coll(Scenario):
    name = 'collection'
    weight = 2

    def build(self, how, T, n):
        if how == 'class':
            return ThreadCollection.from_class(T, range(n), daemon=True)
        ts = [T(i) for i in range(n)]
        if how == 'list':
            tc = ThreadCollection(ts)
            ts.append(None)
            return tc
        if how == 'iter':
            return ThreadCollection(iter(ts))
        tc = tc0 = ThreadCollection()
        if how == 'iadd':
            # threads one by one, then collections, then iterables of them
            for i, t in enumerate(ts):
                tc += [t, ThreadCollection([t]), [t], iter((t,))][i % 4]
        elif how == 'add':
            for i, t in enumerate(ts):
                tc1 = tc + [t, ThreadCollection([t]), (t,), iter([t])][i % 4]
                if tc1 is tc or len(tc) != i:
                    raise Violation('collection', '+ changed the collection')
                tc = tc1
        elif how == 'append':
            for i, t in enumerate(ts):
                if (tc.add(t) if i % 2 else tc.append(t)) is not tc:
                    raise Violation('collection', 'append() does not return self')
        elif how == 'sum':
            half = n // 2
            a, b = ThreadCollection(ts[:half]), ThreadCollection(ts[half:])
            tc = a + b
            if len(a) != half or len(b) != n - half:
                raise Violation('collection', '+ changed the collections')
        if how in ('iadd', 'append') and tc is not tc0:
            raise Violation('collection', 'another collection')
        return tc

    def gen(self, rng):
        return {'n': rng.randint(1, 4), 'slow': rng.choice([None, None, 5.0, 20.0]), 'plain': rng.random() < 0.3,
                'timeout': rng.choice([None, 1.0, 8.0, 8.0, 0]), 'term': rng.random() < 0.85,
                'build': rng.choice(['class', 'class', 'list', 'iadd', 'add', 'append', 'sum', 'iter']), 'bogus': rng.random() < 0.25,
                'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        cleaned = []

        class T(TerminableThread):
            def __init__(self, i, **kw):
                super().__init__(**kw)
                self.i = i

            def loop(self):
                if p['slow'] and self.i == 0:
                    time.sleep(p['slow'])
                else:
                    self.safe_sleep(100, 0.5)

            def cleanup(self):
                cleaned.append(self.i)

        tc = self.build(p['build'], T, p['n'])
        if p['build'] != 'class':
            if tc.daemon:
                raise Violation('collection', 'daemon with no thread a daemon')
            tc.threads[-1].daemon = True
            if not tc.daemon:
                raise Violation('collection', 'not daemon with a thread that is')
            tc.daemon = True
        if not tc.daemon or not all(t.daemon for t in tc):
            raise Violation('collection', 'not all are daemons')
        if len(tc) != p['n'] or [t.i for t in tc] != list(range(p['n'])):
            raise Violation('collection', 'from_class')
        if tc.is_alive():
            raise Violation('collection', 'alive before start')
        if tc.start() is not tc or not tc.is_alive():
            raise Violation('collection', 'start()')
        if not all(t.is_alive() for t in tc):
            raise Violation('collection', 'not all threads were started')
        running = list(ThreadCollection.get_currently_running())
        others = list(ThreadCollection.get_currently_running(include_main_thread=False))
        for t in tc:
            if t not in running and t.is_alive() or t not in others and t.is_alive():
                raise Violation('collection', 'a running thread is not among the running')
        if [t for t in others if isinstance(t, threading._MainThread)] or len(set(map(id, running))) != len(running):
            raise Violation('collection', 'get_currently_running')
        if p['bogus']:
            # one that only pretends, and does as it is told
            b = BogusTerminableThread()
            b.start()
            tc.add(b)
        if p['plain']:
            # a thread that has no terminate()
            pt = threading.Thread(target=time.sleep, args=(3.0,), daemon=True)
            pt.start()
            tc.threads.insert(0, pt)
        time.sleep(0.3)
        if p['term']:
            if tc.terminate() is not tc:
                raise Violation('collection', 'terminate()')
            if not all(t.terminating for t in tc if isinstance(t, T)) or p['bogus'] and not b.terminated:
                raise Violation('collection', 'not all threads were terminated')
        elif p['timeout'] is None:
            return
        t0 = sim.now
        try:
            r = tc.join() if p['timeout'] is None else tc.join(timeout=p['timeout'])
        except WouldWaitMore:
            if p['timeout'] is None or sim.now - t0 < p['timeout'] - 1e-3:
                raise Violation('collection', 'spurious WouldWaitMore')
            sim.probe('timeout')
            if not tc.is_alive() and not sim.stall_total and p['timeout']:
                raise Violation('collection', 'WouldWaitMore though all ended')
        else:
            if r is not tc:
                raise Violation('collection', 'join()')
            if tc.is_alive() or any(t.is_alive() for t in tc):
                raise Violation('collection', 'join() returned with a thread alive')
            if sorted(cleaned) != list(range(p['n'])):
                raise Violation('cleanup', 'cleanups: %s' % cleaned)


SCENARIOS = [Life(), Interval(), Force(), Single(), Bogus(), Coll()]
