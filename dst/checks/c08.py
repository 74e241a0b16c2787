"""C08 running functions in other threads: sync_threadpool, parallel_execute, parallel_construct,
call_in_separate_thread, run_as_future, call_in_future, ExecutorWrapper"""
import threading
import time
from concurrent.futures import ThreadPoolExecutor, CancelledError

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import sync_threadpool, parallel_execute, parallel_construct, \
    call_in_separate_thread, run_as_future, Future
from satella.coding.concurrent.futures import call_in_future, ExecutorWrapper, WrappingFuture
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


class Sync(Scenario):
    name = 'sync'
    weight = 3

    def gen(self, rng):
        rounds = []
        for _ in range(rng.randint(1, 2)):
            rounds.append([[[rng.choice([0, 0.01, 0.3, 1.0, 3.0]), rng.random() < 0.2]
                            for _ in range(rng.randint(0, 6))],
                           rng.choice([None, None, 0.2, 1.0, 2.5, 20.0])])
        return {'workers': rng.randint(1, 4), 'progs': rounds, 'wrap': rng.random() < 0.3,
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        n = p['workers']
        tpe = ThreadPoolExecutor(max_workers=n)
        ex = ExecutorWrapper(tpe) if p['wrap'] else tpe
        jobs = []       # [start, end]

        def job(rec, d, raises):
            if d:
                time.sleep(d)
            else:
                sim.yield_point('job')
            rec[0] = sim.now
            if raises:
                raise Boom()

        for rnd in p['progs']:
            if len(rnd) != 2:
                continue
            specs, mw = rnd
            for d, raises in specs:
                rec = [None]
                jobs.append(rec)
                ex.submit(job, rec, d, raises)
            t0 = sim.now
            st0 = sim.stall_total
            try:
                if mw is None:
                    r = sync_threadpool(ex)
                else:
                    r = sync_threadpool(ex, max_wait=mw)
            except WouldWaitMore:
                el = sim.now - t0
                if mw is None:
                    raise Violation('spurious-timeout', 'WouldWaitMore without max_wait')
                if el < mw - 1e-3:
                    raise Violation('spurious-timeout', 'WouldWaitMore after %.3f s of %s' % (el, mw))
                slack = 1.2 + sim.stall_total
                if el > mw + slack:
                    raise Violation('late-timeout', 'WouldWaitMore after %.3f s of %s' % (el, mw))
                ends = [j[0] for j in jobs]
                if None not in ends and max(ends, default=t0) < t0 + mw - slack:
                    raise Violation('spurious-timeout', 'WouldWaitMore although all jobs were done in time')
                sim.probe('timeout')
            else:
                if r is not None:
                    raise Violation('result', 'sync_threadpool returned %r' % (r,))
                if any(j[0] is None for j in jobs):
                    raise Violation('not-done', 'sync_threadpool returned before %d of %d jobs finished' % (
                        sum(j[0] is None for j in jobs), len(jobs)))
                last = max([j[0] for j in jobs] + [t0])
                if sim.now - last > 1.2 + sim.stall_total:
                    raise Violation('late', 'returned %.3f s after the last job' % (sim.now - last))
                sim.probe('synced')
        # the pool is usable: all its workers can work at the same time, and finish
        started = [0]
        ev = threading.Event()

        def together():
            started[0] += 1
            if started[0] == n:
                ev.set()
            ev.wait()
            return 7

        for f in [ex.submit(together) for _ in range(n)]:
            if f.result(timeout=100) != 7:
                raise Violation('pool', 'wrong result')
        if any(j[0] is None for j in jobs):
            # FIFO: everything submitted before was at least started
            sim.probe('unfinished-after-timeout')
        ex.shutdown(True)
        if any(j[0] is None for j in jobs):
            raise Violation('pool', 'a job was lost')


class Parallel(Scenario):
    name = 'parallel'
    weight = 4

    def gen(self, rng):
        how = ['separate', 'future', 'pool', 'wrapper', 'cif']
        return {'progs': [[rng.choice(how), rng.randint(0, 4), rng.choice([0, 0, 0.2, 0.6]),
                           rng.random() < 0.4, rng.random() < 0.4]
                          for _ in range(rng.randint(1, 3))],
                'exc': rng.choice(['Boom', 'Boom', 'System']),
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def shrink(self, p):
        for i in range(len(p['progs'])):
            if len(p['progs']) > 1:
                q = dict(p)
                q['progs'] = p['progs'][:i] + p['progs'][i + 1:]
                yield q

    def run(self, sim, p):
        tpe = ThreadPoolExecutor(max_workers=16)

        def client(cid, how, n, praise, meet, with_kw):
            count = {}
            started = [0]
            ev = threading.Event()
            raises = [(i * 7 + cid) % 10 < praise * 10 for i in range(n)]
            me = threading.get_ident()

            def work(i, cid2, x=None, y=5):
                if threading.get_ident() == me:
                    raise Violation('thread', 'executed in the thread of the caller')
                if cid2 != cid or x != (i if with_kw else None):
                    raise Violation('arguments', 'arguments not passed through')
                count[i] = count.get(i, 0) + 1
                started[0] += 1
                if meet:
                    # finishes only when all of them run at the same time
                    if started[0] == n:
                        ev.set()
                    ev.wait()
                else:
                    time.sleep(0.1 * ((i * 3) % 4))
                if raises[i]:
                    raise Boom(i)
                return (cid, i)

            if how == 'separate':
                c = call_in_separate_thread(daemon=True)(work)
            elif how == 'future':
                c = run_as_future(work)
            elif how == 'pool':
                c = lambda *a, **k: tpe.submit(work, *a, **k)
            elif how == 'wrapper':
                w = ExecutorWrapper(tpe)
                c = lambda *a, **k: w.submit(work, *a, **k)
            else:
                c = lambda *a, **k: call_in_future(tpe, work, *a, **k)('ignored', ign=2)
            args = [(i, cid) for i in range(n)]
            if with_kw:
                it = parallel_execute(c, args, [{'x': i} for i in range(n)])
            else:
                it = parallel_execute(c, iter(args))
            got = list(it)
            exp = [Boom(i).args if raises[i] else (cid, i) for i in range(n)]
            got2 = [g.args if isinstance(g, Boom) else g for g in got]
            if got2 != exp:
                raise Violation('results', '%s: expected %s got %s' % (how, exp, got))
            if any(count.get(i) != 1 for i in range(n)):
                raise Violation('count', 'executed %s' % count)

        for t in [spawn(sim, client, i, *prog) for i, prog in enumerate(p['progs'])]:
            t.join()
        # the shared pool is intact
        if tpe.submit(lambda: 3).result(timeout=100) != 3:
            raise Violation('pool', 'pool unusable')


class Construct(Scenario):
    name = 'construct'
    weight = 1

    def gen(self, rng):
        return {'workers': rng.randint(1, 3), 'progs': [[rng.choice([0, 0, 0, 1, 1, 2]) if rng.random() < 0.8 else 0,
                                                        rng.choice([0, 0.1, 0.5])]
                                                       for _ in range(rng.randint(0, 6))],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        n = len(p['progs'])
        with ThreadPoolExecutor(max_workers=p['workers']) as tpe:
            count = {}

            def fn(i):
                k, d = (p['progs'][i] + [0, 0])[:2]
                count[i] = count.get(i, 0) + 1
                if d:
                    time.sleep(d)
                if k == 2:
                    raise Boom(i)
                return None if k == 1 else (i, k)

            kinds = [(q + [0, 0])[0] for q in p['progs']]
            try:
                r = parallel_construct(range(n), fn, tpe)
            except Boom as e:
                if 2 not in kinds or e.args != (kinds.index(2),):
                    raise Violation('exception', 'unexpected %r' % (e,))
            else:
                if 2 in kinds:
                    raise Violation('exception', 'exception swallowed, returned %s' % (r,))
                if r != [(i, k) for i, k in enumerate(kinds) if k != 1]:
                    raise Violation('results', 'kinds %s result %s' % (kinds, r))
                if any(count.get(i) != 1 for i in range(n)):
                    raise Violation('count', 'executed %s' % count)


class Separate(Scenario):
    name = 'separate'
    weight = 2

    def gen(self, rng):
        return {'progs': [[rng.choice(['separate', 'separate', 'future']), rng.choice(['ok', 'ok', 'boom', 'exit', 'kbd']),
                           rng.choice([0, 0, 0.5, 2.0]), rng.choice([None, None, 0, 0.1]), rng.random() < 0.3]
                          for _ in range(rng.randint(1, 3))], 'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        def client(how, outcome, delay, cancel, noattr):
            ran = []

            def fn(a, b=None):
                ran.append((threading.get_ident(), sim.now, threading.current_thread()))
                if (a, b) != (1, 2):
                    raise Violation('arguments', 'not passed through')
                sim.yield_point('fn')
                if outcome == 'boom':
                    raise Boom('x')
                if outcome == 'exit':
                    raise SystemExit()
                if outcome == 'kbd':
                    raise KeyboardInterrupt()
                return 'result'

            t0 = sim.now
            if how == 'future':
                f = run_as_future(fn)(1, b=2)
                delay_ = 0
            else:
                kw = {'delay': delay} if delay else {}
                f = call_in_separate_thread(daemon=True, no_thread_attribute=noattr, **kw)(fn)(1, b=2)
                delay_ = delay
            cancelled = False
            if cancel is not None:
                if cancel:
                    time.sleep(cancel)
                cancelled = f.cancel()
            try:
                r = ('ok', f.result(timeout=1000))
            except CancelledError:
                r = ('cancelled',)
            except (Boom, SystemExit, KeyboardInterrupt) as e:
                r = ('exc', type(e).__name__)
            time.sleep(10)
            if cancelled != (r == ('cancelled',)):
                raise Violation('cancel', 'cancel() returned %s, result is %s' % (cancelled, r))
            if cancelled:
                sim.probe('cancelled')
                if ran:
                    raise Violation('cancel', 'executed though cancelled')
                return
            exp = {'ok': ('ok', 'result'), 'boom': ('exc', 'Boom'), 'exit': ('exc', 'SystemExit'),
                   'kbd': ('exc', 'KeyboardInterrupt')}[outcome]
            if r != exp:
                raise Violation('results', 'expected %s got %s' % (exp, r))
            if len(ran) != 1:
                raise Violation('count', 'executed %d times' % len(ran))
            if ran[0][0] == threading.get_ident():
                raise Violation('thread', 'executed in the thread of the caller')
            if ran[0][1] - t0 < delay_ - 1e-3:
                raise Violation('delay', 'executed after %.3f s of %s' % (ran[0][1] - t0, delay_))
            if how == 'separate':
                if (getattr(f, 'thread', None) is not None) == noattr:
                    raise Violation('attribute', 'thread attribute')
                if not noattr and (f.thread is not ran[0][2] or f.thread.future is not f):
                    raise Violation('attribute', 'thread attribute is another thread')

        for t in [spawn(sim, client, *prog) for prog in p['progs'] if len(prog) == 5]:
            t.join()


class Wrapped(Scenario):
    name = 'wrapped'
    weight = 2

    def gen(self, rng):
        return {'progs': [[rng.choice(['wrapper', 'cif']), rng.random() < 0.3, rng.choice([0, 0, 0.1, 1.0]),
                           rng.choice([False, False, True])] for _ in range(rng.randint(1, 4))],
                'workers': rng.randint(1, 2), 'sched': gen_sched(rng)}

    def run(self, sim, p):
        tpe = ThreadPoolExecutor(max_workers=p['workers'])
        w = ExecutorWrapper(tpe)

        def client(i, how, raises, d, cancel):
            n = []

            def fn(a, b=None):
                n.append(1)
                if (a, b) != (i, 'b'):
                    raise Violation('arguments', 'not passed through')
                if d:
                    time.sleep(d)
                if raises:
                    raise Boom(i)
                return i

            f = w.submit(fn, i, b='b') if how == 'wrapper' else call_in_future(w, fn, i, b='b')('x', y=2)
            if not isinstance(f, Future):
                raise Violation('type', 'not a Satella future')
            seen = []
            f.add_done_callback(lambda fut: seen.append((fut is f, fut.cancelled())))
            c = f.cancel() if cancel else False
            try:
                r = f.result(timeout=1000)
            except CancelledError:
                r = 'cancelled'
            except Boom as e:
                r = e.args
            exp = 'cancelled' if c else ((i,) if raises else i)
            if r != exp:
                raise Violation('results', 'expected %s got %s' % (exp, r))
            for _ in range(100):
                if seen and (c or n):
                    break
                time.sleep(0.1)
            if seen != [(True, c)]:
                raise Violation('callback', 'done callback: %s' % seen)
            if len(n) != (0 if c else 1):
                raise Violation('count', 'executed %d times' % len(n))

        for t in [spawn(sim, client, i, *prog) for i, prog in enumerate(p['progs']) if len(prog) == 4]:
            t.join()
        w.shutdown(True)
        try:
            tpe.submit(lambda: 1)
        except RuntimeError:
            pass
        else:
            raise Violation('shutdown', 'underlying executor not shut down')


SCENARIOS = [Sync(), Parallel(), Construct(), Separate(), Wrapped()]
