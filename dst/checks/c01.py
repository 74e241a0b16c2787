"""C01 PeekableQueue"""
from ..core import Violation
from ..lin import LinOp, linearizable
from ..runner import Scenario, gen_sched, spawn, join_all

from satella.coding.concurrent import PeekableQueue

from .common import EPS, deadline_seq


def step(state, o):
    if o.name == 'put':
        return (state + (o.args,),)
    if o.name == 'put_many':
        return (state + tuple(o.args),)
    if o.name == 'get':
        if o.res[0] == 'ok':
            if state and state[0] == o.res[1]:
                return (state[1:],)
            return None
        return (state,) if not state else None
    if o.name == 'peek':
        if o.res[0] == 'ok':
            return (state,) if state and state[0] == o.res[1] else None
        return (state,) if not state else None
    if o.name == 'qsize':
        return (state,) if len(state) == o.res[1] else None
    raise AssertionError(o.name)


class Mixed(Scenario):
    name = 'mixed'
    weight = 3

    def gen(self, rng):
        nprod = rng.randint(1, 2)
        ncons = rng.randint(1, 3)
        progs = []
        v = 0
        total = 0
        timeouts = rng.random() < 0.6
        for _ in range(nprod):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                if k < 0.55:
                    ops.append(['put', v])
                    v += 1
                    total += 1
                elif k < 0.85:
                    n = rng.randint(0, 3)
                    ops.append(['put_many', list(range(v, v + n)), rng.randint(0, 1)])
                    v += n
                    total += n
                else:
                    ops.append(['sleep', rng.choice([0.1, 1.0, 3.0])])
            progs.append(ops)
        for _ in range(ncons):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                to = rng.choice([0, 0.05, 1.0, 2.5]) if timeouts and rng.random() < 0.5 else None
                if k < 0.6:
                    ops.append(['get', to])
                elif k < 0.9:
                    ops.append(['peek', to])
                else:
                    ops.append(['qsize'])
            progs.append(ops)
        return {'progs': progs, 'sched': gen_sched(rng, stall_max=(0.01, 0.5, 4.0))}

    def run(self, sim, p):
        q = PeekableQueue()
        hist = []

        def client(prog):
            for op in prog:
                if op[0] == 'put':
                    hist.append(sim.call('put', q.put, op[1]))
                elif op[0] == 'put_many':
                    items = op[1] if op[2] else (x for x in op[1])
                    o = sim.call('put_many', q.put_many, items, show=tuple(op[1]))
                    hist.append(o)
                elif op[0] == 'sleep':
                    import time
                    time.sleep(op[1])
                elif op[0] == 'qsize':
                    hist.append(sim.call('qsize', q.qsize))
                else:
                    o = sim.call(op[0], getattr(q, op[0]), op[1])
                    hist.append(o)

        ths = [spawn(sim, client, prog) for prog in p['progs']]
        # feed the queue until nobody can be legitimately blocked
        import time
        extra = 100000
        for t in ths:
            while t.is_alive():
                t.join(20.0)
                if t.is_alive() and not q.qsize():
                    hist.append(sim.call('put', q.put, extra))
                    extra += 1
                    sim.probe('fed')
                elif t.is_alive():
                    t.join(1000 + 3 * sim.stall_total)
                    if t.is_alive():
                        raise Violation('lost-wakeup', 'a consumer stays blocked although the queue '
                                        'holds %d items: %s' % (q.qsize(), hist))
        # drain
        while q.qsize():
            hist.append(sim.call('get', q.get, 0))
            if not hist[-1].ok:
                raise Violation('conservation', 'qsize()>0 but get(0) raised: %s' % hist)
        hist.append(sim.call('get', q.get, 0))
        judge(sim, hist)


def judge(sim, hist):
    ops = []
    for o in hist:
        if not o.ok and o.exc != 'Empty':
            raise Violation('unexpected-exception', '%r: %r' % (o, o.r))
        if o.name == 'put_many':
            prev = None
            for x in o.args:
                prev = LinOp(o.inv, o.ret, 'put', x, ('ok', None), prev)
                ops.append(prev)
        elif o.name == 'put':
            ops.append(LinOp(o.inv, o.ret, 'put', o.args[0], o.r))
        elif o.name in ('get', 'peek'):
            inv = o.inv
            if not o.ok:
                to = o.args[0]
                if to is None:
                    raise Violation('early-empty', '%r raised with no timeout given' % (o,))
                if to > 0:
                    if o.t1 < o.t0 + to - EPS:
                        raise Violation('early-empty', '%r gave up after %.4f s' % (o, o.t1 - o.t0))
                    inv = max(inv, deadline_seq(hist, o.t0 + to - EPS))
                    inv = min(inv, o.ret - 0.25)
            if o.args[0] is not None and o.t1 > o.t0 + o.args[0] + sim.stall_total + 0.5:
                raise Violation('late-timeout', '%r took %.3f s' % (o, o.t1 - o.t0))
            ops.append(LinOp(inv, o.ret, o.name, None, o.r[:2]))
        else:
            ops.append(LinOp(o.inv, o.ret, 'qsize', None, o.r[:2]))
    # every item that came out went in, once
    got = [o.res[1] for o in ops if o.name == 'get' and o.res[0] == 'ok']
    if len(set(got)) != len(got):
        raise Violation('duplicate', 'an item was returned twice: %s' % hist)
    if len(ops) <= 24:
        r = linearizable(ops, (), step)
        if r is False:
            raise Violation('not-linearizable', 'no FIFO order explains: %s' % ops)
        if any(o.name == 'put_many' and len(o.args) > 1 for o in hist):
            # what was put at once stays together; qsize is approximate
            whole = [LinOp(o.inv, o.ret, 'put_many', o.args, ('ok', None)) for o in hist if o.name == 'put_many']
            ids = {x for o in hist if o.name == 'put_many' for x in o.args}
            whole += [o for o in ops if o.name != 'qsize' and not (o.name == 'put' and o.args in ids)]
            if linearizable(whole, (), step) is False:
                raise Violation('torn', 'items put at once do not stay together: %s' % ops)
        sim.probe('lin-checked')
    sim.probe('blocked-get' if any(o.t1 - o.t0 > 0.04 for o in hist) else 'no-blocked-get')


SCENARIOS = [Mixed()]
