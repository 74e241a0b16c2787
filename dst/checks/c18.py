"""C18 measuring time and sleeping"""
import time
from concurrent.futures import Future as PythonFuture

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.exceptions import WouldWaitMore
from satella.time import measure, sleep

EPS = 0.02


class Stopwatch(Scenario):
    """one thread operates a measure(), others read it"""
    name = 'stopwatch'
    weight = 3

    def gen(self, rng):
        ops = [[rng.choice(['start', 'stop', 'reset', 'rstart', 'rstop', 'read', 'read', 'with', 'adjust', 'timeout']),
                rng.choice([0, 0, 0.5, 1.5, 4.0]), rng.choice([0.25, 1.0, 2.0])] for _ in range(rng.randint(2, 12))]
        return {'progs': [ops], 'stopped': rng.random() < 0.4, 'sos': rng.random() < 0.85,
                'adjust': rng.choice([0, 0, 1.0, -2.0]), 'timeout': rng.choice([None, 0, 1.0, 3.0]),
                'clock': rng.choice([None, None, 'fast', 'jumpy']), 'readers': rng.choice([0, 0, 1, 2]),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        kw = {}
        scale = 1.0
        if p['clock'] == 'fast':
            scale = 3.0
            kw['time_getter_callable'] = lambda: time.monotonic() * 3.0
        if p['timeout'] is not None:
            kw['timeout'] = p['timeout'] * scale
        if p['adjust']:
            kw['adjust'] = p['adjust'] * scale
        m = measure(stop_on_stop=p['sos'], create_stopped=p['stopped'], **kw)
        sos = p['sos']
        running = not p['stopped'] or not sos
        acc = 0.0                       # measured before the last start
        since = sim.now + p['adjust']
        end = [False]

        def reader():
            while not end[0]:
                v = m()
                if not isinstance(v, (int, float)):
                    raise Violation('elapsed', 'reading while it is being operated gave %r' % (v,))
                m.timeouted, m.time_remaining
                time.sleep(0.3)

        rs = [spawn(sim, reader) for _ in range(p['readers'])]
        for op, delay, arg in p['progs'][0]:
            if delay:
                time.sleep(delay)
            if p['clock'] == 'jumpy':
                sim.wall_jump(arg * 100 - 150)
            now = sim.now
            elapsed = acc + (now - since if running else 0.0)

            def check(v, what='measured'):
                if abs(v / scale - elapsed) > EPS:
                    raise Violation('elapsed', '%s %.3f s, in fact %.3f s' % (what, v / scale, elapsed))

            def refused(f):
                try:
                    f()
                except TypeError:
                    return
                raise Violation('refused', '%s did not raise TypeError' % op)

            if op in ('start', 'stop') and not sos or op == 'rstop' and not sos:
                refused(m.start if op == 'start' else m.stop if op == 'stop' else m.reset_and_stop)
            elif op == 'start':
                if running:
                    refused(m.start)
                else:
                    m.start()
                    running, since = True, now
            elif op == 'stop':
                if not running:
                    refused(m.stop)
                else:
                    m.stop()
                    acc, running = elapsed, False
            elif op == 'reset' and sos:
                m.reset()
                acc, running = 0.0, False
            elif op == 'reset':
                m.reset()       # it cannot be stopped, so it counts anew
                acc, since = 0.0, now
            elif op == 'rstart' and sos:
                m.reset_and_start()
                acc, running, since = 0.0, True, now
            elif op == 'rstop':
                if not running:
                    refused(m.reset_and_stop)
                else:
                    m.reset_and_stop()
                    acc, running = 0.0, False
            elif op == 'with':
                with m as n:
                    if n is not m:
                        raise Violation('with', 'the context manager gave something else')
                    if not running:
                        running, since = True, sim.now
                    time.sleep(arg)
                    elapsed = acc + sim.now - since
                    check(m())
                if sos:
                    acc, running = acc + sim.now - since, False
            elif op == 'adjust' and running:
                m.adjust(arg * scale)
                since += arg
            elif op == 'timeout' and p['timeout'] is not None:
                left = p['timeout'] - elapsed
                if abs(left) > EPS:
                    if m.timeouted != (left < 0):
                        raise Violation('timeouted', 'timeouted is %s with %.3f s left' % (m.timeouted, left))
                    try:
                        m.assert_not_timeouted()
                        ok = True
                    except WouldWaitMore:
                        ok = False
                    if ok != (left > 0):
                        raise Violation('timeouted', 'assert_not_timeouted: %s with %.3f s left' % (ok, left))
                r = m.time_remaining
                for lim in (elapsed - 1, elapsed + 1):
                    if m.has_exceeded(lim * scale) != (lim < elapsed):
                        raise Violation('exceeded', 'has_exceeded(%.3f) after %.3f s' % (lim, elapsed))
                    try:
                        m.raise_if_exceeded(lim * scale, LookupError)
                        ok = True
                    except LookupError:
                        ok = False
                    if ok != (lim > elapsed):
                        raise Violation('exceeded', 'raise_if_exceeded(%.3f): %s after %.3f s' % (lim, ok, elapsed))
                if r < 0 or abs(r / scale - max(0, left)) > EPS:
                    raise Violation('timeouted', '%.3f s remaining, in fact %.3f' % (r / scale, left))
            elif op == 'timeout':
                m.assert_not_timeouted()
                if m.timeouted or m.time_remaining is not None:
                    raise Violation('timeouted', 'timeouted without a timeout')
            now = sim.now
            elapsed = acc + (now - since if running else 0.0)
            check(m())
            if sos and m.stopped == running:
                raise Violation('stopped', 'stopped is %s' % m.stopped)
        end[0] = True
        for t in rs:
            t.join()


class Sleeping(Scenario):
    """satella.time.sleep under interrupts and stalls"""
    name = 'sleep'
    weight = 2

    def gen(self, rng):
        return {'progs': [[[rng.choice([0, 0.5, 2.0, 2.0, 61.0, -1.0, -0.001]), rng.random() < 0.3, rng.random() < 0.3,
                            [rng.choice([0.0, 0.1, 0.5, 1.0]) for _ in range(rng.choice([0, 0, 1, 2, 5]))]]
                           for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 3]))],
                'sched': gen_sched(rng, stall_max=(0.01, 0.5, 3.0))}

    def run(self, sim, p):
        import threading
        plans = {}
        real = time.sleep

        def interruptible(d):
            plan = plans.get(threading.get_ident())
            if plan and d > 0:
                after = plan.pop(0)
                real(min(d, after))
                sim.fault('keyboard-interrupt')
                raise KeyboardInterrupt()
            return real(d)

        def client(prog):
            for secs, as_str, abort, plan in prog:
                plan = list(plan)
                n = len(plan)
                arg = secs
                if as_str and secs in (0.5, 2.0):
                    arg = '%ss' % secs
                plans[threading.get_ident()] = plan
                t0 = sim.now
                r = sleep(arg, abort) if abort else sleep(arg)
                el = sim.now - t0
                slack = 0.02 + sim.stall_total
                if secs < 0:
                    if r is not False or el > slack:
                        raise Violation('negative', 'sleep(%s) returned %r after %.3f s' % (secs, r, el))
                    continue
                interrupted = len(plan) < n
                if abort and interrupted:
                    if r is not False or el > secs + slack:
                        raise Violation('abort', 'interrupted sleep(%s) returned %r after %.3f s' % (secs, r, el))
                    if el > 1.0 + slack:
                        raise Violation('abort', 'sleep went on after an interrupt')
                    continue
                if r is not True:
                    raise Violation('result', 'sleep(%s) returned %r' % (secs, r))
                if el < secs - 1e-6:
                    raise Violation('short', 'sleep(%s) took %.3f s' % (secs, el))
                if el > secs + slack:
                    raise Violation('long', 'sleep(%s) took %.3f s' % (secs, el))

        time.sleep = interruptible
        try:
            ts = [spawn(sim, client, prog) for prog in p['progs']]
            for t in ts:
                t.join()
        finally:
            time.sleep = real


class Decorated(Scenario):
    """functions and futures measured by many threads"""
    name = 'decorated'
    weight = 2

    def gen(self, rng):
        return {'progs': [[[rng.choice(['fun', 'fun', 'method', 'raises', 'future', 'done', 'gen']), rng.choice([0, 0.5, 1.0, 3.0]),
                            rng.choice([0, 0.7])] for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))],
                'stopped': rng.random() < 0.3, 'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        stopped = p['stopped']
        seen = set()

        def body(m, d, e):
            if id(m) in seen:
                raise Violation('shared', 'two calls share a measure')
            seen.add(id(m))
            keep.append(m)
            sim.yield_point('body')
            t0 = sim.now
            if stopped:
                if m() != 0:
                    raise Violation('elapsed', 'not stopped')
                m.start()
            time.sleep(d)
            slack = EPS + sim.stall_total
            t1 = sim.now
            v = m()
            if not t1 - t0 - EPS - slack <= v <= sim.now - t0 + EPS + sim.stall_total + slack:
                raise Violation('elapsed', 'measured %.3f s, in fact %.3f s' % (v, sim.now - t0))
            return m

        keep = []

        @measure(create_stopped=stopped)
        def fun(m, d, e=0):
            body(m, d, e)
            if e:
                raise LookupError()
            return 'result', m

        class X:
            @measure(create_stopped=stopped)
            def method(self, m, d, e=0):
                if not isinstance(self, X):
                    raise Violation('self', 'not self')
                body(m, d, e)
                return 'result', m

        x = X()

        @measure(create_stopped=stopped)
        def gen(m, d, e=0):
            body(m, d / 2, e)
            got = yield m
            if got != 'sent':
                raise Violation('result', 'the generator was sent %r' % (got,))
            time.sleep(d / 2)
            yield 'two'
            return 'result'

        def client(prog):
            for op, d, e in prog:
                t0 = sim.now
                if op in ('fun', 'method'):
                    r, m = (fun if op == 'fun' else x.method)(d)
                    if r != 'result':
                        raise Violation('result', 'returned %r' % (r,))
                elif op == 'gen':
                    g = gen(d)
                    m = next(g)
                    time.sleep(e)
                    if g.send('sent') != 'two':
                        raise Violation('result', 'not what the generator yields')
                    if not stopped and m() < d + e - EPS:
                        raise Violation('elapsed', 'a generator running for %.3f s measured %.3f' % (d + e, m()))
                    try:
                        next(g)
                    except StopIteration as ex:
                        if ex.value != 'result':
                            raise Violation('result', 'the generator returned %r' % (ex.value,))
                    else:
                        raise Violation('result', 'the generator did not end')
                elif op == 'raises':
                    try:
                        fun(d, e=1)
                    except LookupError:
                        pass
                    else:
                        raise Violation('result', 'exception swallowed')
                    continue
                else:
                    fut = PythonFuture()
                    if op == 'done':
                        fut.set_result(1)
                        m = measure(fut)
                    else:
                        m = measure(fut)
                        fut.set_running_or_notify_cancel()

                        def finish():
                            time.sleep(d)
                            if e:
                                fut.set_exception(LookupError())
                            else:
                                fut.set_result(1)
                        t = spawn(sim, finish)
                        t.join()
                    el = sim.now - t0
                    time.sleep(1.5)
                    v = m()
                    if not (0 if op == 'done' else d - EPS) <= v <= el + EPS:
                        raise Violation('elapsed', 'the future took %.3f s, measured %.3f s' % (el, v))
                    continue
                if not stopped:
                    # the measurement ended with the call
                    el = sim.now - t0
                    time.sleep(0.5 + e)
                    if not m() <= el + EPS:
                        raise Violation('elapsed', 'still measuring after the call')

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()


SCENARIOS = [Stopwatch(), Sleeping(), Decorated()]
