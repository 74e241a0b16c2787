"""C35 Subqueue and consumers made by queue_get and loop_while"""
import queue
import time

from ..core import Violation
from ..lin import LinOp, linearizable
from ..runner import Scenario, gen_sched, spawn
from .common import EPS, deadline_seq

from satella.coding.concurrent import PeekableQueue
from satella.coding.decorators import loop_while, queue_get
from satella.coding.structures import Subqueue
from satella.exceptions import Empty


def step(state, o):
    if o.name == 'put':
        return (state + (o.args,),)
    if o.name == 'empty':
        return (state,) if not state else None
    if state and state[0] == o.args:
        return (state[1:],)
    return None


class Named(Scenario):
    name = 'subqueue'
    weight = 3

    def gen(self, rng):
        names = ['q%d' % i for i in range(rng.randint(1, 4))]
        progs, v = [], 0
        for _ in range(rng.randint(2, 4)):
            ops = []
            for _ in range(rng.randint(1, 5)):
                k = rng.choice(['put', 'put', 'put', 'get', 'get', 'any', 'any', 'qsize', 'sleep'])
                n = rng.choice(names)
                if k == 'put':
                    ops.append(['put', n, v])
                    v += 1
                elif k == 'get':
                    ops.append(['get', n] + rng.choice([[True, None], [True, 0.5], [True, 2.0], [False, None], [True, 0.05]]))
                elif k == 'sleep':
                    ops.append(['sleep', rng.choice([0.1, 1.0])])
                else:
                    ops.append([k])
            progs.append(ops)
        return {'names': names, 'progs': progs, 'sched': gen_sched(rng, stall_max=(0.01, 0.5, 4.0))}

    def run(self, sim, p):
        sq = Subqueue()
        hist = []
        pending = {}

        def client(i, prog):
            for op in prog:
                if op[0] == 'sleep':
                    time.sleep(op[1])
                    continue
                if op[0] == 'get':
                    pending[i] = op[1]
                f = {'put': sq.put, 'get': sq.get, 'any': sq.get_any, 'qsize': sq.qsize}[op[0]]
                hist.append(sim.call(op[0], f, *op[1:]))
                pending.pop(i, None)
            done.append(i)

        done = []
        ths = [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]
        extra = 100000
        for i, t in enumerate(ths):
            while t.is_alive():
                t.join(20.0)
                if not t.is_alive():
                    break
                n = pending.get(i)
                if n is None:
                    continue
                q = sq.subqueues.get(n) if hasattr(sq, 'subqueues') else None
                if q is not None and q.qsize():
                    t.join(1000 + 3 * sim.stall_total)
                    if t.is_alive() and pending.get(i) == n and q.qsize():
                        raise Violation('lost-wakeup', 'a consumer of %s stays blocked although there are items: %s' % (n, hist))
                    continue
                hist.append(sim.call('put', sq.put, n, extra))
                extra += 1
        # nobody is there any more
        size = sq.qsize()
        k = 0
        while True:
            o = sim.call('any', sq.get_any)
            hist.append(o)
            if not o.ok:
                break
            k += 1
        if k != size:
            raise Violation('qsize', 'qsize() gave %d, and there were %d items' % (size, k))
        if sq.qsize() != 0:
            raise Violation('qsize', 'qsize() gave %d of empty queues' % sq.qsize())
        self.judge(sim, p, hist)

    def judge(self, sim, p, hist):
        ops = {n: [] for n in p['names']}
        put = 0
        for o in hist:
            if not o.ok and not (o.name in ('get', 'any') and o.exc == 'Empty'):
                raise Violation('unexpected-exception', '%r: %r' % (o, o.r))
            if o.name == 'put':
                put += 1
                ops[o.args[0]].append(LinOp(o.inv, o.ret, 'put', o.args[1], None))
            elif o.name == 'get':
                n, block, to = o.args
                inv = o.inv
                if o.ok:
                    ops[n].append(LinOp(inv, o.ret, 'get', o.r[1], None))
                    continue
                if block:
                    if to is None:
                        raise Violation('early-empty', '%r raised with no timeout given' % (o,))
                    if o.t1 < o.t0 + to - EPS:
                        raise Violation('early-empty', '%r gave up after %.4f s' % (o, o.t1 - o.t0))
                    inv = min(max(inv, deadline_seq(hist, o.t0 + to - EPS)), o.ret - 0.25)
                ops[n].append(LinOp(inv, o.ret, 'empty', None, None))
            elif o.name == 'any':
                if o.ok:
                    if not isinstance(o.r[1], tuple) or len(o.r[1]) != 2 or o.r[1][0] not in ops:
                        raise Violation('result', 'get_any() returned %r' % (o.r[1],))
                    ops[o.r[1][0]].append(LinOp(o.inv, o.ret, 'get', o.r[1][1], None))
                else:
                    for n in ops:
                        ops[n].append(LinOp(o.inv, o.ret, 'empty', None, None))
            elif o.name == 'qsize':
                least = (sum(1 for x in hist if x.name == 'put' and x.ret < o.inv)
                         - sum(1 for x in hist if x.name in ('get', 'any') and x.ok and x.inv < o.ret))
                most = (sum(1 for x in hist if x.name == 'put' and x.inv < o.ret)
                        - sum(1 for x in hist if x.name in ('get', 'any') and x.ok and x.ret < o.inv))
                if not least <= o.r[1] <= most:
                    raise Violation('qsize', '%r, between %d and %d items were there: %s' % (o, least, most, hist))
            if o.name in ('any', 'put', 'qsize') and o.t1 > o.t0 + sim.stall_total + EPS:
                raise Violation('waits', '%r took %.3f s' % (o, o.t1 - o.t0))
            if o.name == 'get' and o.args[1] and o.args[2] is not None and o.t1 > o.t0 + o.args[2] + sim.stall_total + 0.5:
                raise Violation('late-timeout', '%r took %.3f s' % (o, o.t1 - o.t0))
        for n, l in ops.items():
            got = [x.args for x in l if x.name == 'get']
            if len(got) != len(set(got)):
                raise Violation('duplicate', 'an item of %s was returned twice: %s' % (n, hist))
            if len(l) <= 22 and linearizable(l, (), step) is False:
                raise Violation('not-linearizable', 'no FIFO order of %s explains: %s' % (n, l))


class Odd(Exception):
    pass


class Consumers(Scenario):
    """workers made of loop_while and queue_get"""
    name = 'consumers'
    weight = 2

    def gen(self, rng):
        items = [rng.choice(['ok', 'ok', 'ok', 'ok', 'empty', 'odd']) for _ in range(rng.randint(0, 8))]
        return {'progs': [[[rng.choice([0, 0, 0.3, 1.0]), x] for x in items]], 'workers': rng.randint(1, 3),
                'queue': rng.choice(['queue', 'peekable', 'subqueue']), 'timeout': rng.choice([0.3, 0.5, 2.0]),
                'how': rng.choice(['name', 'callable', 'none']), 'getter': rng.randint(0, 1), 'cost': rng.choice([0, 0, 0.2]),
                # a clock that does not stand still, or a wait for the last 1e-17 s goes on for long
                'sched': gen_sched(rng, stall_max=(0.01, 0.5), tick=rng.choice([0.000001, 0.0001]))}

    def run(self, sim, p):
        kind = p['queue']
        q = {'queue': queue.Queue, 'peekable': PeekableQueue, 'subqueue': Subqueue}[kind]()
        kw = {'timeout': p['timeout']}
        if kind == 'peekable':
            kw['exception_empty'] = Empty
        elif kind == 'subqueue':
            kw['queue_get_method'] = lambda x, timeout: x.get('q', timeout=timeout)
        idle = []
        taken, handled, raised = [], [], []

        def on_empty(*a):
            idle.append((sim.now, a))
        if p['how'] == 'callable':
            kw['method_to_execute_on_empty'] = on_empty
        elif p['how'] == 'name':
            kw['method_to_execute_on_empty'] = 'nothing_came'
        calls = []

        class Worker:
            ended = False

            def __init__(self):
                self.my_queue = q

            def nothing_came(self):
                on_empty(self)

            @queue_get('my_queue' if p['getter'] else lambda self: self.my_queue, **kw)
            def one(self, item):
                """handle it"""
                taken.append((item, self))
                if p['cost']:
                    time.sleep(p['cost'])
                if item[1] == 'odd':
                    raise Odd(item)
                if item[1] == 'empty':
                    raise (Empty if kind == 'peekable' else queue.Empty)(item)
                handled.append(item)
                return ('done', item)

            @loop_while(lambda self: not self.ended)
            def run(self, pause):
                t = sim.now
                n = len(calls)
                calls.append(None)
                before = len(idle)
                try:
                    r = self.one()
                except (Odd, Empty, queue.Empty) as e:
                    raised.append((type(e).__name__, e.args[0] if e.args else None))
                    calls[n] = (self, t, sim.now, 'raised', before)
                    return
                calls[n] = (self, t, sim.now, r, before)
                if pause:
                    time.sleep(pause)

        over = Worker()
        over.ended = True
        over.run(0)
        if calls:
            raise Violation('loop', 'a loop was entered although its condition did not hold')
        rounds = []

        @loop_while(lambda: len(rounds) < p['workers'])
        def plain():
            rounds.append(sim.now)

        plain()
        if len(rounds) != p['workers']:
            raise Violation('loop', 'a loop had %d rounds instead of %d' % (len(rounds), p['workers']))
        workers = [Worker() for _ in range(p['workers'])]
        ths = [spawn(sim, w.run, 0.1) for w in workers]
        for i, (wait, what) in enumerate(p['progs'][0]):
            if wait:
                time.sleep(wait)
            q.put('q', (i, what)) if kind == 'subqueue' else q.put((i, what))
        n = len(p['progs'][0])
        limit = sim.now + 100 + 3 * sim.stall_total
        while len(taken) < n:
            time.sleep(0.5)
            if sim.now > limit + 3 * sim.stall_total:
                raise Violation('not-consumed', '%d items of %d were handed over' % (len(taken), n))
        for w in workers:
            w.ended = True
        for t in ths:
            t.join(100 + 10 * sim.stall_total)
            if t.is_alive():
                raise Violation('no-end', 'a loop goes on although its condition does not hold')
        got = sorted(x[0] for x in taken)
        if got != [(i, w) for i, (_, w) in enumerate(p['progs'][0])]:
            raise Violation('items', 'handed over: %s' % got)
        if sorted(handled) != [x for x in got if x[1] == 'ok']:
            raise Violation('items', 'handled: %s' % handled)
        if sorted(x[1] for x in raised) != [x for x in got if x[1] != 'ok']:
            raise Violation('swallowed', 'of what the function raised, only %s came out, handed over were %s' % (raised, got))
        for w, t0, t1, r, before in calls:
            if r is None and t1 < t0 + p['timeout'] - EPS:
                raise Violation('early', 'gave up waiting after %.3f s of %s' % (t1 - t0, p['timeout']))
            if isinstance(r, tuple) and r[0] != 'done':
                raise Violation('result', 'the function gave %r' % (r,))
        nothing = sum(1 for c in calls if c[3] is None)
        if p['how'] != 'none' and len(idle) != nothing:
            raise Violation('on-empty', 'called %d times, nothing came %d times' % (len(idle), nothing))
        if p['how'] == 'name' and any(len(a) != 1 or a[0] not in workers for _, a in idle) or p['how'] == 'callable' and any(a for _, a in idle):
            raise Violation('on-empty', 'called with %s' % [a for _, a in idle])


SCENARIOS = [Named(), Consumers()]
