"""C02 AtomicNumber"""
import operator
import time

from ..core import Violation
from ..lin import LinOp, linearizable
from ..runner import Scenario, gen_sched, spawn
from .common import EPS, deadline_seq

from satella.coding.concurrent import AtomicNumber

INPLACE = {
    '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv,
    '/=': operator.itruediv, '&=': operator.iand, '|=': operator.ior, '^=': operator.ixor,
    '<<=': operator.ilshift, '>>=': operator.irshift, '**=': operator.ipow,
}
PURE = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv,
    '/': operator.truediv, '&': operator.and_, '|': operator.or_, '^': operator.xor,
    '<<': operator.lshift, '>>': operator.rshift, '**': operator.pow,
    '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
    '>=': operator.ge,
}
RPURE = ['r+', 'r-', 'r*', 'r//', 'r/', 'r&', 'r|', 'r^', 'r<<', 'r>>', 'r**']
UNARY = {'int': int, 'float': float, 'bool': bool, 'abs': abs, 'neg': operator.neg,
         'pos': operator.pos, 'str': str, 'repr': repr}
ARGS = {'+=': [1, 2, 5, -3], '-=': [1, 2, 7], '*=': [2, 3, -1], '//=': [2, 3], '/=': [2], '&=': [6, 3, 255],
        '|=': [1, 8, 5], '^=': [3, 12], '<<=': [1, 2], '>>=': [1, 2], '**=': [2], }


def pure(state, name, arg):
    if name in UNARY:
        if name == 'repr':
            return 'AtomicNumber(%s)' % (state,)
        return UNARY[name](state)
    if name == 'powm':
        return pow(state, arg, 7)
    if name in ('r+', 'r-', 'r*', 'r//', 'r/', 'r&', 'r|', 'r^', 'r<<', 'r>>', 'r**'):
        return PURE[name[1:]](arg, state)
    return PURE[name](state, arg)


def step(state, o):
    k = o.name
    i = o.args[0]
    if k in INPLACE:
        s = list(state)
        try:
            s[i] = INPLACE[k](s[i], o.args[1])
        except Exception as e:
            return (state,) if o.res == ('exc', type(e).__name__) else None
        if o.res[0] != 'ok':
            return None
        return (tuple(s),)
    if k == 'cmp':
        return (state,) if o.res == ('ok', state[i] == state[o.args[1]]) else None
    if k == 'wue':
        want = state[i] == o.args[1]
        return (state,) if want == (o.res[0] == 'ok') else None
    try:
        v = ('ok', pure(state[i], k, o.args[1] if len(o.args) > 1 else None))
    except Exception as e:
        v = ('exc', type(e).__name__)
    return (state,) if v == o.res and type(v[1]) is type(o.res[1]) else None


def canon(v):
    return v


class Arith(Scenario):
    name = 'arith'
    weight = 3

    def gen(self, rng):
        n = rng.randint(2, 3)
        k = rng.randint(1, 2)
        fl = rng.random() < 0.2
        small = rng.random() < 0.3      # so that numbers may be shifted by it
        progs = []
        budget_pow = 1
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(2, 4)):
                i = rng.randrange(k)
                r = rng.random()
                if r < 0.6:
                    op = rng.choice(sorted(INPLACE))
                    if (op == '/=' and not fl) or (fl and op in ('&=', '|=', '^=', '<<=', '>>=')):
                        op = '+='
                    if op == '**=':
                        if not budget_pow:
                            op = '-='
                        else:
                            budget_pow -= 1
                    if small and op in ('*=', '<<=', '**='):
                        op = '+='
                    ops.append([op, i, rng.choice(ARGS[op])])
                elif r < 0.75:
                    op = rng.choice(sorted(PURE))
                    ops.append([op, i, rng.choice([1, 2, 3, 5])])
                elif r < 0.77:
                    ops.append(['powm', i, rng.choice([1, 2, 3])])
                elif r < 0.82:
                    ops.append([rng.choice(['r+', 'r-', 'r*', 'r&', 'r|', 'r^', 'r/', 'r//'] + (['r<<', 'r>>', 'r**'] * 4 if small else [])), i,
                                rng.choice([1, 7, 64])])
                elif r < 0.92 or k == 1:
                    ops.append([rng.choice(sorted(UNARY)), i])
                else:
                    ops.append(['cmp', i, 1 - i])
            progs.append(ops)
        return {'progs': progs, 'init': [rng.choice([0, 1, 5, 12]) for _ in range(k)],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        nums = [AtomicNumber(v) for v in p['init']]
        hist = []

        def do(op):
            k, a = op[0], nums[op[1]]
            if k in INPLACE:
                r = INPLACE[k](a, op[2])
                if r is not a:
                    raise Violation('identity', '%s did not return the AtomicNumber itself: %r' % (k, r))
                return None
            if k == 'cmp':
                return a == nums[op[2]]
            if k in UNARY:
                return UNARY[k](a)
            if k == 'powm':
                return pow(a, op[2], 7)
            if k[0] == 'r' and k[1:] in PURE:
                return PURE[k[1:]](op[2], a)
            return PURE[k](a, op[2])

        def client(prog):
            for op in prog:
                o = sim.call(op[0], do, op)
                o.args = tuple(op[1:])
                hist.append(o)

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        for i, a in enumerate(nums):
            o = sim.call('pos', lambda: +a)
            o.args = (i,)
            hist.append(o)
        ops = [LinOp(o.inv, o.ret, o.name, o.args, o.r[:2]) for o in hist]
        r = linearizable(ops, tuple(p['init']), step)
        if r is False:
            raise Violation('not-atomic', 'init %r: no sequential order explains %s' % (p['init'], ops))
        if r:
            sim.probe('lin-checked')


class EqCross(Scenario):
    """a == b, b == a and a == a at the same time must not lock up"""
    name = 'eqcross'

    def gen(self, rng):
        return {'progs': [[[rng.randrange(2), rng.randrange(2)] for _ in range(rng.randint(1, 4))]
                          for _ in range(rng.randint(2, 3))], 'sched': gen_sched(rng),
                'init': [rng.randint(0, 1), rng.randint(0, 1)], 'writer': rng.choice([0, 0, 2, 5])}

    def run(self, sim, p):
        nums = [AtomicNumber(v) for v in p['init']]
        if p['writer']:
            # the first is always behind the second
            p = dict(p, init=[3, 4])
            nums = [AtomicNumber(3), AtomicNumber(4)]

        def writer():
            for _ in range(p['writer']):
                nums[1].__iadd__(1)
                nums[0].__iadd__(1)

        def client(prog):
            for i, j in prog:
                if (nums[i] == nums[j]) != (p['init'][i] == p['init'][j]):
                    raise Violation('not-atomic', 'wrong comparison result')

        for t in [spawn(sim, client, prog) for prog in p['progs']] + [spawn(sim, writer)]:
            t.join()


class Wait(Scenario):
    name = 'wait'
    weight = 3

    def gen(self, rng):
        init = rng.choice([0, 3, 8])
        target = rng.choice([1, 2, 5, 12, 16, 0])
        writers = []
        for _ in range(rng.randint(1, 2)):
            ops = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.3:
                    ops.append(['sleep', rng.choice([0.01, 1.0, 2.0])])
                op = rng.choice(sorted(INPLACE))
                ops.append([op, rng.choice(ARGS[op])])
            writers.append(ops)
        waiters = []
        for _ in range(rng.randint(1, 3)):
            to = rng.choice([None, None, 0, 0.5, 2.0, 10.0])
            if rng.random() < 0.65:
                waiters.append(['wue', target, to])
            else:
                waiters.append(['wait', to, rng.random() < 0.5])
        return {'progs': writers, 'waiters': waiters, 'init': init, 'target': target,
                'last': rng.choice(sorted(INPLACE)),
                'sched': gen_sched(rng, stall_max=(0.01, 0.5, 3.0))}

    def shrink(self, p):
        for i in range(len(p['waiters'])):
            if len(p['waiters']) > 1:
                q = dict(p)
                q['waiters'] = p['waiters'][:i] + p['waiters'][i + 1:]
                yield q
        yield from super().shrink(p)

    def run(self, sim, p):
        a = AtomicNumber(p['init'])
        hist = []

        def inplace(op, arg):
            INPLACE[op](a, arg)

        def writer(prog):
            for op in prog:
                if op[0] == 'sleep':
                    time.sleep(op[1])
                else:
                    o = sim.call(op[0], inplace, op[0], op[1])
                    o.args = (0, op[1])
                    hist.append(o)

        def waiter(w):
            if w[0] == 'wue':
                o = sim.call('wue', a.wait_until_equal, w[1], w[2])
                o.args = (0, w[1], w[2])
            else:
                o = sim.call('wait', a.wait, w[1], w[2])
                o.args = (0, w[1], w[2])
            hist.append(o)

        ws = [spawn(sim, waiter, w, name='waiter') for w in p['waiters']]
        ths = [spawn(sim, writer, prog, name='writer') for prog in p['progs']]
        for t in ths:
            t.join()
        sim.faults_on = False
        time.sleep(100 + 3 * sim.stall_total)
        # everyone left is waiting for something that has not happened; make it happen, using the
        # operator under test for the last step
        last = p['last']
        cur = int(a)
        inv = {'+=': (lambda v, t: (t - 1, 1)), '-=': (lambda v, t: (t + 1, 1)),
               '*=': (lambda v, t: (t, 1) if t % 2 else (t // 2, 2)),
               '//=': (lambda v, t: (t * 2, 2)), '/=': (lambda v, t: (t * 2, 2)),
               '&=': (lambda v, t: (t | 256, 255)), '|=': (lambda v, t: (t & (t - 1), t)),
               '^=': (lambda v, t: (t ^ 64, 64)), '<<=': (lambda v, t: (t >> 1, 1) if t % 2 == 0 else (t - 1, None)),
               '>>=': (lambda v, t: (t << 1, 1)), '**=': (lambda v, t: (4, 2) if t == 16 else (t - 1, None))}
        if p['target']:
            pre, arg = inv[last](cur, p['target'])
        else:
            pre, arg = {'*=': (5, 0), '//=': (1, 2), '&=': (256, 255), '^=': (64, 64), '>>=': (1, 1)}.get(last, (1, None))
        fin = (last, arg) if arg is not None else ('+=', p['target'] - pre)
        if isinstance(+a, float) or fin == ('*=', 1):
            fin = ('+=', 1)
            pre = p['target'] - 1

        def setval(op, arg):
            o = sim.call(op, inplace, op, arg)
            o.args = (0, arg)
            hist.append(o)

        v = +a
        if isinstance(v, float):
            setval('//=', 1)
            setval('-=', int(v // 1))
            setval('+=', pre)
        else:
            setval('+=', pre - v)
        time.sleep(50)
        left = [w for w in ws if w.is_alive()]
        for w, spec in zip(ws, p['waiters']):
            if w.is_alive() and spec[0] == 'wait' and pre != v:
                raise Violation('lost-wakeup', 'wait() not woken by a change from %r to %r' % (v, pre))
        if left:
            sim.probe('woken-by-' + fin[0])
        setval(*fin)
        time.sleep(50)
        if +a != p['target'] and not isinstance(+a, float):
            raise Violation('not-atomic', 'value is %r, expected %r after %s' % (+a, p['target'], fin))
        for w, spec in zip(ws, p['waiters']):
            if w.is_alive() and not (spec[0] == 'wait' and pre + 0 == +a):
                raise Violation('lost-wakeup', '%s(%r) still blocked although the value became %s by '
                                '%s at least 50 s ago' % (spec[0], spec[1:], +a, fin))
        ops = []
        changes = [o for o in hist if o.name in INPLACE]
        for o in hist:
            if o.name in ('wait', 'wue'):
                if not o.ok and o.exc not in ('WouldWaitMore', 'ResourceLocked'):
                    raise Violation('unexpected-exception', '%r %r' % (o, o.r))
                to = o.args[1] if o.name == 'wait' else o.args[2]
                if to is not None and o.t1 > o.t0 + to + sim.stall_total + 0.5:
                    raise Violation('late-timeout', '%r took %.3f' % (o, o.t1 - o.t0))
                timed_out = not o.ok
                if o.name == 'wait':
                    if o.ok and to is not None and not o.args[2] and o.t1 >= o.t0 + to - EPS:
                        timed_out = True
                    if not o.ok and not o.args[2] and not (o.exc == 'ResourceLocked' and (sim.stall_total or not to)):
                        raise Violation('unexpected-exception', 'wait(throw_exception=False) raised')
                    if not timed_out and not any(c.inv < o.ret and c.ret > o.inv for c in changes):
                        raise Violation('spurious', 'wait() returned without any change: %s' % hist)
                    if timed_out:
                        sl = sim.stall_total + 0.05      # by then it is surely waiting
                        if any(c.t0 >= o.t0 + sl and c.t1 <= o.t0 + to - EPS for c in changes
                               if c.args[1] and not (c.name in ('*=', '/=', '//='))):
                            if sim.stall_total == 0 and any(
                                    c.name in ('+=', '-=') and c.t0 >= o.t0 + sl and
                                    c.t1 <= o.t0 + to - EPS for c in changes):
                                raise Violation('lost-wakeup', 'wait timed out in spite of a change: %s' % hist)
                if not o.ok:
                    if to is None or o.t1 < o.t0 + to - EPS:
                        raise Violation('early-timeout', '%r gave up after %.4f' % (o, o.t1 - o.t0))
                if o.name == 'wue':
                    i = o.inv
                    if not o.ok:
                        i = min(max(i, deadline_seq(hist, o.t0 + to - EPS)), o.ret - .25)
                    ops.append(LinOp(i, o.ret, 'wue', o.args, o.r[:2]))
            else:
                ops.append(LinOp(o.inv, o.ret, o.name, o.args, o.r[:2]))
        if len(ops) < 16:
            if linearizable(ops, (p['init'],), step) is False:
                raise Violation('not-atomic', 'init %r: nothing explains %s' % (p['init'], ops))


SCENARIOS = [Arith(), EqCross(), Wait()]
