"""C27 structures with metrics: they do the work of the plain ones and count all of it"""
import gc
import threading
import time
import weakref
from concurrent.futures import CancelledError, ThreadPoolExecutor
from concurrent.futures.thread import BrokenThreadPool

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn
from .c25 import entries

from satella.instrumentation.metrics import AggregateMetric, getMetric
from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedExclusiveWritebackCache, \
    MetrifiedLRUCacheDict, MetrifiedThreadPoolExecutor

EPS = 1e-3


class Boom(Exception):
    pass


class Thing:
    pass


def value(m, name=None):
    e = entries(m.to_metric_data())
    return e[(name or m.name, ())]


class Pool(Scenario):
    name = 'pool'
    weight = 4
    horizon = 5000.0

    def gen(self, rng):
        progs = [[[rng.choice(['task', 'task', 'task', 'raise', 'cancel', 'nested']), rng.choice([0, 0, 0.3, 2.0]),
                   rng.choice([0, 0, 0.5])] for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
        return {'progs': progs, 'workers': rng.randint(1, 3), 'end': rng.choice(['wait', 'wait', 'nowait', 'cancel', 'drop', 'drop']),
                'early': rng.random() < 0.4, 'prefix': rng.random() < 0.5, 'typ': rng.choice(['summary', 'histogram', 'aggregate', None]),
                'waiting': rng.random() < 0.4, 'init': rng.choice([None, None, None, 'ok', 'fail', 'slow']),
                'level': rng.choice([2, 2, 3]), 'barrier': rng.random() < 0.3, 'sched': gen_sched(rng)}

    def run(self, sim, p):
        if p['waiting'] and p['end'] == 'drop':
            p = dict(p, waiting=False)      # the metric refers to the executor then
        if p['end'] == 'drop' and p['init'] == 'fail':
            p = dict(p, end='wait')         # as in the standard library, nobody is left to break the pool
        kw = {}
        if p['typ']:
            t = p['typ'] if p['typ'] != 'aggregate' else 'summary'
            mw, me = getMetric('p.waiting', t), getMetric('p.executing', t)
            kw = {'time_spent_waiting': AggregateMetric(mw) if p['typ'] == 'aggregate' else mw, 'time_spent_executing': me}
        if p['waiting']:
            cm = getMetric('p.queue', 'callable')
            kw['waiting_tasks'] = cm
        if p['level'] == 3:
            from satella.instrumentation.metrics import MetricLevel
            kw['metric_level'] = MetricLevel.DEBUG
        if p['prefix']:
            kw['thread_name_prefix'] = 'mypool'
        inits = [0]

        def init(x):
            if x != 'arg':
                raise Violation('arguments', 'initializer called with %r' % (x,))
            inits[0] += 1
            if p['init'] == 'fail':
                sim.fault('initializer-fails')
                raise Boom()
            if p['init'] == 'slow':
                time.sleep(0.7)
        if p['init']:
            kw['initializer'], kw['initargs'] = init, ('arg',)
        ex = [MetrifiedThreadPoolExecutor(p['workers'], **kw)]
        n = p['workers']
        recs = []       # task id -> dict
        running, peak = [0], [0]
        idles = 0
        closing = [None]
        names = set()

        def submit(kind, d):
            e = ex[0]
            rec = {'kind': kind, 'd': d, 'runs': 0, 'sub0': sim.now, 'id': len(recs), 'start': None, 'end': None, 'fut': None,
                   'cancelled': False}

            def task(a, b=None):
                rec['runs'] += 1
                if (a, b) != (rec['id'], 7):
                    raise Violation('arguments', 'task got %r' % ((a, b),))
                names.add(threading.current_thread().name)
                running[0] += 1
                peak[0] = max(peak[0], running[0])
                if running[0] > n:
                    raise Violation('workers', '%d tasks at once in %d workers' % (running[0], n))
                rec['start'] = sim.now
                if d:
                    time.sleep(d)
                else:
                    sim.yield_point('task')
                rec['end'] = sim.now
                running[0] -= 1
                if kind == 'raise':
                    sim.fault('task-raises')
                    raise Boom(a)
                if kind == 'nested' and ex[0] is not None and closing[0] is None:
                    try:
                        submit('task', 0)
                    except RuntimeError:
                        if closing[0] is None and p['init'] != 'fail':
                            raise
                return a + 100
            recs.append(rec)
            try:
                rec['fut'] = e.submit(task, rec['id'], b=7)
            except RuntimeError as x:
                if closing[0] is None and not (p['init'] == 'fail' and isinstance(x, BrokenThreadPool)):
                    raise Violation('refused', 'submit refused: %r' % (x,))
                rec['kind'] = 'refused'
            rec['sub1'] = sim.now
            return rec

        def client(prog):
            for kind, d, delay in prog:
                if delay:
                    time.sleep(delay)
                if ex[0] is None:
                    return
                rec = submit(kind, d)
                if kind == 'cancel' and rec['fut'] is not None:
                    if delay:
                        time.sleep(delay)
                    else:
                        sim.yield_point('c')
                    rec['cancelled'] = rec['fut'].cancel()
                if p['waiting']:
                    q0 = value(cm)
                    if not 0 <= q0 <= len(recs) + (n + 2 if closing[0] is not None else 0):
                        raise Violation('queue', 'queue length of %r with %d tasks' % (q0, len(recs)))

        ths = [spawn(sim, client, prog) for prog in p['progs']]
        if not p['early']:
            for t in ths:
                t.join()
        else:
            time.sleep(0.2)
        if p['barrier'] and p['end'] != 'drop' and p['init'] != 'fail':
            # as many tasks as there are workers can wait for each other
            if not p['early']:
                here, ev = [0], threading.Event()

                def meet():
                    here[0] += 1
                    if here[0] == n:
                        ev.set()
                    return ev.wait(4000)
                futs = [ex[0].submit(meet) for _ in range(n)]
                for r in recs:
                    if r['fut'] is not None and not r['cancelled']:
                        r['fut'].exception()
                if not all(f.result() for f in futs):
                    raise Violation('parallel', '%d tasks do not run at once in %d workers' % (n, n))
            else:
                futs = []
        else:
            futs = []
        if not p['early'] and p['end'] != 'drop' and p['init'] != 'fail' and not p['barrier']:
            for r in recs:
                if r['fut'] is not None and not r['cancelled']:
                    r['fut'].exception()
            # workers with nothing to do are used again, and do not keep what they were given
            time.sleep(10 + sim.stall_total)
            before = threading.active_count() if any(r['runs'] for r in recs) else None
            for _ in range(2):
                arg = Thing()
                ref = weakref.ref(arg)
                extra_fut = ex[0].submit(lambda a: 5, arg)
                del arg
                if extra_fut.result() != 5:
                    raise Violation('result', 'another task gave %r' % extra_fut.result())
                del extra_fut
                idles += 1
                time.sleep(10 + sim.stall_total)
                if ref() is not None:
                    gc.collect()
                    if ref() is not None:
                        raise Violation('kept', 'the argument of a task done with long ago is still held')
            if before is not None and threading.active_count() > before:
                raise Violation('threads', 'another worker was started with all of them idle')
        e = ex[0]
        threads = e._threads
        closing[0] = sim.now
        if p['end'] == 'drop':
            for t in ths:
                t.join()
            sim.fault('executor-dropped')
            ex[0] = None
            del e
        elif p['end'] == 'wait':
            e.shutdown(wait=True)
            for r in recs:
                if r['fut'] is not None and not r['fut'].done():
                    raise Violation('shutdown', 'shutdown(wait=True) returned before task %d was done' % r['id'])
        elif p['end'] == 'nowait':
            e.shutdown(wait=False)
        else:
            e.shutdown(wait=True, cancel_futures=True)
            sim.fault('futures-cancelled')
        for t in ths:
            t.join()
        for t in list(threads):
            t.join(3000)
            if t.is_alive():
                raise Violation('worker', 'worker still there long after the end')
        ran = 0
        lo = hi = wlo = whi = 0.0
        for r in recs:
            f = r['fut']
            if f is None:
                if r['runs']:
                    raise Violation('runs', 'refused task ran')
                continue
            if not f.done():
                raise Violation('lost', 'task %d (%s) never completed; ran %d times' % (r['id'], r['kind'], r['runs']))
            if f.cancelled():
                if not r['cancelled'] and p['end'] != 'cancel':
                    raise Violation('lost', 'task %d cancelled by nobody' % r['id'])
                want = 0
            else:
                if r['cancelled']:
                    raise Violation('cancel', 'cancel() returned True, the task is not cancelled')
                x = f.exception()
                if isinstance(x, BrokenThreadPool) and p['init'] == 'fail':
                    want = 0
                else:
                    want = 1
                    if r['kind'] == 'raise':
                        if not isinstance(x, Boom) or x.args != (r['id'],):
                            raise Violation('result', 'task %d ended with %r' % (r['id'], x))
                    elif x is not None:
                        raise Violation('result', 'task %d ended with %r' % (r['id'], x))
                    elif f.result() != r['id'] + 100:
                        raise Violation('result', 'task %d returned %r' % (r['id'], f.result()))
            if r['runs'] != want:
                raise Violation('runs', 'task %d ran %d times, not %d' % (r['id'], r['runs'], want))
            ran += want
            if want:
                lo += r['end'] - r['start']
                wlo += max(0, r['start'] - r['sub1'] - EPS - sim.stall_total)
                whi += r['start'] - r['sub0']
        if p['prefix'] and any(not x.startswith('mypool') for x in names):
            raise Violation('prefix', 'workers are called %r' % (names,))
        if p['init'] == 'ok' and ran and not inits[0]:
            raise Violation('initializer', 'initializer was not called')
        if p['typ']:
            pre = value(mw, 'waiting.count'), value(me, 'executing.count')
            most = sum(r['fut'] is not None for r in recs) + len(futs) + idles
            least = ran + len(futs) + idles
            if p['level'] == 3:
                least = most = 0        # the metrics are at RUNTIME
            for c in pre:
                if not least <= c <= most:
                    raise Violation('count', '%d tasks ran, %d submitted: measured %r' % (least, most, pre))
            if p['level'] == 2 and not futs:
                w, x = value(mw, 'waiting.sum'), value(me, 'executing.sum')
                if x < lo - EPS:
                    raise Violation('time', 'executing took at least %r, measured %r' % (lo, x))
                if x > lo + sim.stall_total + EPS * (1 + most):
                    raise Violation('time', 'executing took %r, measured %r' % (lo, x))
                if most == ran + idles and not wlo - EPS <= w <= whi + idles * sim.stall_total + EPS * (1 + idles):
                    raise Violation('time', 'waiting took between %r and %r, measured %r' % (wlo, whi, w))
        if p['waiting'] and value(cm) not in (0, 1, 2, 3) and p['end'] != 'nowait':
            raise Violation('queue', 'queue length of %r after the end' % value(cm))


class Caches(Scenario):
    name = 'caches'
    weight = 3

    def gen(self, rng):
        progs = [[[rng.choice(['read'] * 7 + ['bad', 'inv', 'set']), rng.randint(0, 3), rng.choice([0, 0, 0, 0.5, 3.0, 12.0])]
                  for _ in range(rng.randint(2, 8))] for _ in range(rng.randint(1, 3))]
        return {'progs': progs, 'kind': rng.choice(['cache', 'lru', 'lru', 'wbc']), 'size': rng.randint(1, 3),
                'slow': rng.choice([0, 0, 0.2]), 'failures': rng.choice([None, None, 2]), 'pbad': rng.choice([0, 0, 0.3]),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        kind = p['kind']
        hits, miss = getMetric('h', 'counter'), getMetric('m', 'counter')
        refreshes, evictions = getMetric('r', 'counter'), getMetric('e', 'counter')
        how = getMetric('how', 'summary')
        calls, lo, hi = [0], [0.0], [0.0]
        ended = [0]

        def getter(k):
            calls[0] += 1
            t = sim.now
            if p['slow']:
                time.sleep(p['slow'])
            else:
                sim.yield_point('get')
            lo[0] += sim.now - t
            ended[0] += 1
            if p['pbad'] and sim.flip('get', p['pbad']):
                sim.fault('getter-fails')
                raise KeyError(k)
            return k * 10

        exe = ThreadPoolExecutor(max_workers=4)
        if kind == 'wbc':
            waiting = getMetric('w', 'callable')
            store = {}

            def writer(k, v):
                sim.yield_point('w')
                store[k] = v

            def reader(k):
                sim.yield_point('r')
                if k in store:
                    return store[k]
                if p['pbad']:
                    raise KeyError(k)
                return k * 10
            c = MetrifiedExclusiveWritebackCache(writer, reader, None, exe, cache_hits=hits, cache_miss=miss, entries_waiting=waiting)
        else:
            kw = dict(cache_failures_interval=p['failures'], cache_hits=hits, cache_miss=miss, refreshes=refreshes,
                      how_long_refresh_takes=how)
            if kind == 'lru':
                c = MetrifiedLRUCacheDict(2, 10, getter, exe, max_size=p['size'], evictions=evictions, **kw)
            else:
                c = MetrifiedCacheDict(2, 10, getter, exe, **kw)
        reads, sets, alone = [0], [0], len(p['progs']) == 1
        valid = {}      # key -> time it was got at, known only if there's one thread
        counts = {'hit': 0, 'miss': 0}

        def read(k):
            reads[0] += 1
            h0, m0 = value(hits), value(miss)
            known = None
            if alone and kind != 'wbc':
                known = c.has_info_about(k)
            try:
                v = c[k]
            except KeyError:
                if not p['pbad']:
                    raise
                v = None
            if v is not None and v != k * 10 and v < 1000:
                raise Violation('value', '%r read for %r' % (v, k))
            if alone:
                d = value(hits) - h0, value(miss) - m0
                if sum(d) != 1 or known is not None and d != ((1, 0) if known else (0, 1)):
                    raise Violation('count', 'a read of %s key counted as %d hits, %d misses' % (
                        'a known' if known else 'an unknown', d[0], d[1]))

        def client(prog):
            for op, k, d in prog:
                if d:
                    time.sleep(d)
                if op == 'read' or op == 'bad':
                    read(k)
                elif op == 'set':
                    c[k] = 1000 + k
                    sets[0] += 1
                elif kind != 'wbc':
                    c.invalidate(k)

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        if kind == 'wbc':
            c.sync()
            if value(waiting) != 0:
                raise Violation('queue', '%r entries wait after sync' % value(waiting))
        exe.shutdown(wait=True)
        got = value(hits) + value(miss)
        if got != reads[0]:
            raise Violation('count', '%d reads, %d hits and %d misses' % (reads[0], value(hits), value(miss)))
        if kind != 'wbc':
            if value(refreshes) != calls[0]:
                raise Violation('refreshes', '%d refreshes counted, %d in fact' % (value(refreshes), calls[0]))
            if value(how, 'how.count') != calls[0] or not lo[0] - EPS <= value(how, 'how.sum') <= lo[0] + EPS * (1 + calls[0]) + 0.01:
                raise Violation('time', '%d refreshes of %r s in all measured, %d of %r in fact' % (
                    value(how, 'how.count'), value(how, 'how.sum'), calls[0], lo[0]))
        if kind == 'lru':
            if len(c) > p['size']:
                raise Violation('size', 'holds %d, at most %d' % (len(c), p['size']))
            inv = any(op[0] == 'inv' for prog in p['progs'] for op in prog)
            keys = {op[1] for prog in p['progs'] for op in prog if op[0] != 'inv'}
            if not p['pbad'] and not inv and not value(evictions) >= len(keys) - len(c):
                raise Violation('evictions', '%d keys, %d held, %r evicted' % (len(keys), len(c), value(evictions)))
            if len(keys) <= p['size'] and value(evictions):
                raise Violation('evictions', '%d keys for %d places, but %r evicted' % (len(keys), p['size'], value(evictions)))


SCENARIOS = [Pool(), Caches()]
