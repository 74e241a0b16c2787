"""C04 IDAllocator, SequentialIssuer"""
from ..core import Violation
from ..lin import LinOp, linearizable
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import IDAllocator, SequentialIssuer


class Alloc(Scenario):
    name = 'idalloc'
    weight = 3

    def gen(self, rng):
        start = rng.choice([0, 0, 1, 5, 100])
        size = rng.choice([None, None, 1, 2, 3, 9, 10, 11, 12])
        top = None if size is None else start + size
        progs = []
        for _ in range(rng.randint(2, 3)):
            ops = []
            for _ in range(rng.randint(2, 5)):
                k = rng.random()
                if k < 0.5:
                    ops.append(['alloc'])
                elif k < 0.75:
                    ops.append(['free_mine'])
                elif k < 0.82:
                    ops.append(['free', start + rng.randint(-1, 3)])
                else:
                    ops.append(['mark', start + rng.choice([-1, 0, 1, 2, 3, 11, 25])])
            progs.append(ops)
        return {'progs': progs, 'start': start, 'top': top, 'pre': rng.choice([0, 0, 8, 9, 10]),
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        start, top = p['start'], p['top']
        a = IDAllocator(start_at=start, top_limit=top) if top is not None else IDAllocator(start_at=start)
        hist = []

        def call(name, fn, *args):
            o = sim.call(name, fn, *args)
            hist.append(o)
            return o

        held0 = []
        for _ in range(p['pre']):
            o = call('alloc', a.allocate_int)
            if o.ok:
                held0.append(o.value)

        def client(prog):
            mine = []
            for op in prog:
                if op[0] == 'alloc':
                    o = call('alloc', a.allocate_int)
                    if o.ok:
                        mine.append(o.value)
                elif op[0] == 'free_mine':
                    if mine:
                        call('free', a.mark_as_free, mine.pop(0))
                elif op[0] == 'free':
                    call('free', a.mark_as_free, op[1])
                else:
                    o = call('mark', a.mark_as_allocated, op[1])

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        # exhaust a limited allocator
        if top is not None and top - start <= 12:
            for _ in range(top - start + 1):
                if not call('alloc', a.allocate_int).ok:
                    break
            else:
                raise Violation('limit', 'allocated more than the limit allows: %s' % hist)

        def step(st, o):
            kind = o.name
            if kind == 'alloc':
                if o.res[0] == 'ok':
                    x = o.res[1]
                    if x in st or x < start or (top is not None and x >= top):
                        return None
                    return (st | {x},)
                if o.res[1] != 'Empty':
                    return None
                return (st,) if top is not None and len(st) == top - start else None
            x = o.args[0]
            if kind == 'free':
                if o.res[0] == 'ok':
                    return (st - {x},) if x in st else None
                return (st,) if o.res[1] == 'ValueError' and x not in st else None
            if o.res[0] == 'ok':
                if x in st or x < start or (top is not None and x >= top):
                    return None
                return (st | {x},)
            if o.res[1] == 'AlreadyAllocated':
                return (st,) if x in st else None
            if o.res[1] == 'ValueError':
                return (st,) if x < start or (top is not None and x >= top) else None
            return None

        ops = [LinOp(o.inv, o.ret, o.name, o.args, o.r[:2]) for o in hist]
        for o in ops:
            if o.name == 'alloc' and o.res[0] == 'ok':
                if not isinstance(o.res[1], int) or o.res[1] < start or (top is not None and o.res[1] >= top):
                    raise Violation('limit', 'allocated %r outside of [%r, %r)' % (o.res[1], start, top))
        if linearizable(ops, frozenset(), step) is False:
            raise Violation('not-unique', 'start=%r top=%r: no sequential order explains %s' % (start, top, ops))
        sim.probe('empty' if any(o.res == ('exc', 'Empty') for o in ops) else 'not-empty')


class Issuer(Scenario):
    name = 'issuer'
    weight = 2

    def gen(self, rng):
        return {'progs': [[rng.choice([None, None, rng.randint(0, 12)]) for _ in range(rng.randint(1, 5))]
                          for _ in range(rng.randint(2, 4))], 'start': rng.choice([0, 0, 3]),
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        s = SequentialIssuer(p['start'])
        hist = []

        def client(prog):
            for x in prog:
                if x is None:
                    hist.append(sim.call('issue', s.issue))
                else:
                    hist.append(sim.call('nlt', s.no_less_than, x))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        vals = []
        for o in hist:
            if not o.ok:
                raise Violation('unexpected-exception', repr(o.r))
            vals.append(o.value)
            if o.name == 'nlt' and o.value < o.args[0]:
                raise Violation('bound', '%r is less than asked for' % (o,))
            if o.value < p['start']:
                raise Violation('bound', '%r is less than the start value' % (o,))
        if len(set(vals)) != len(vals):
            raise Violation('not-unique', 'issued twice: %s' % hist)
        for a in hist:
            for b in hist:
                if a.ret < b.inv and a.value >= b.value:
                    raise Violation('not-monotonic', '%r precedes %r' % (a, b))


SCENARIOS = [Alloc(), Issuer()]
