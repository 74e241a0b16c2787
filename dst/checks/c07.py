"""C07 CallableGroup, CallNoOftenThan"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import CallableGroup, CallNoOftenThan, CancellableCallback


class Boom(Exception):
    pass


class Group(Scenario):
    name = 'group'
    weight = 4

    def gen(self, rng):
        nreg = rng.randint(1, 4)
        praise = rng.choice([0, 0, 0.2, 0.4])
        pone = rng.choice([0, 0.3, 0.7])
        cid = [0]

        def newc():
            cid[0] += 1
            return [cid[0], rng.random() < pone, rng.random() < praise, rng.random() < 0.3]

        initial = [newc() for _ in range(nreg)]
        progs = []
        mine = [c[0] for c in initial]
        pc = rng.choice([0, 0.15])
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k = rng.random()
                if k < 0.55:
                    ops.append(['call'])
                elif k < 0.85 - pc:
                    ops.append(['add', newc()])
                elif k < 0.9:
                    ops.append(['cancel', rng.choice(mine)])
                elif k < 0.95:
                    ops.append(['rmc'])
                else:
                    ops.append(['readd', rng.choice(mine)])
            progs.append(ops)
        return {'initial': initial, 'progs': progs, 'gather': rng.random() < 0.7,
                'swallow': rng.random() < 0.5, 'slow': rng.random() < 0.3,
                'sched': gen_sched(rng)}

    def shrink(self, p):
        yield from super().shrink(p)
        for i in range(len(p['initial'])):
            q = dict(p)
            q['initial'] = p['initial'][:i] + p['initial'][i + 1:]
            yield q

    def run(self, sim, p):
        g = CallableGroup(gather=p['gather'], swallow_exceptions=p['swallow'])
        calls = []          # (seq, cid, invocation, kw)
        adds, cancels, cbs, info, invs = {}, {}, {}, {}, []

        def mk(cid, raises):
            def fn(iid, kw=None):
                calls.append((sim.seq(), cid, iid))
                if kw != iid + 1000:
                    raise Violation('arguments', 'keyword argument not passed through')
                if p['slow']:
                    time.sleep(0.01)
                else:
                    sim.yield_point('cb')
                if raises:
                    raise Boom(cid, iid)
                return (cid, iid)
            return fn

        def add(spec):
            cid, one, raises, cancellable = spec
            fn = mk(cid, raises)
            obj = CancellableCallback(fn) if cancellable else fn
            info[cid] = spec
            adds[cid] = [sim.seq(), None]
            o = g.add(obj, one_shot=True) if one else g.add(obj)
            adds[cid][1] = sim.seq()
            if cancellable and o is not obj:
                raise Violation('add-result', 'add returned a different CancellableCallback')
            cbs[cid] = o

        def invoke():
            iid = len(invs)
            rec = [sim.seq(), None, None]
            invs.append(rec)
            try:
                r = ('ok', g(iid, kw=iid + 1000))
            except Boom as e:
                r = ('exc', e.args)
            rec[1], rec[2] = sim.seq(), r

        def client(prog):
            for op in prog:
                if op[0] == 'call':
                    invoke()
                elif op[0] == 'add':
                    add(op[1])
                elif op[0] == 'cancel':
                    if op[1] in cbs:
                        cancels.setdefault(op[1], [sim.seq(), 1 << 60])
                        cbs[op[1]].cancel()
                        cancels[op[1]][1] = min(cancels[op[1]][1], sim.seq())
                elif op[0] == 'rmc':
                    g.remove_cancelled()
                elif op[0] == 'readd':
                    # adding something registered again changes nothing
                    if op[1] in cbs and not info[op[1]][1] and op[1] not in cancels:
                        if g.add(cbs[op[1]]) is not cbs[op[1]]:
                            raise Violation('add-result', 'adding again returned something else')

        for spec in p['initial']:
            add(spec)
        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        g.remove_cancelled()
        if g.has_cancelled_callbacks:
            raise Violation('cancelled', 'cancelled callbacks remain after remove_cancelled()')
        for how in ('remove', 'call'):
            # someone cancelled is known to be there until it is removed, or until everyone is called
            extra = g.add(lambda *a, **k: None, one_shot=p['slow'])
            if g.has_cancelled_callbacks:
                raise Violation('cancelled', 'a new callback counts as cancelled')
            extra.cancel()
            if not g.has_cancelled_callbacks:
                raise Violation('cancelled', 'a cancelled callback is not noticed')
            if how == 'remove':
                g.remove_cancelled()
            else:
                invoke()
            if g.has_cancelled_callbacks:
                raise Violation('cancelled', 'a cancelled callback remains registered')
        # as a raising callable stops an invocation, look at what is left one by one
        for _ in range(len(info)):
            if invs[-1][2][0] == 'ok':
                break
            c = invs[-1][2][1][0]
            cancels.setdefault(c, [sim.seq(), 0])
            cbs[c].cancel()
            cancels[c][1] = sim.seq()
            invoke()

        per = {}
        for s, c, i in calls:
            per.setdefault(i, []).append(c)
        total = {}
        for s, c, i in calls:
            total[c] = total.get(c, 0) + 1
        for i, (inv, ret, r) in enumerate(invs):
            called = per.get(i, [])
            if len(set(called)) != len(called):
                raise Violation('twice', 'invocation %d called %s' % (i, called))
            for a, b in zip(called, called[1:]):
                if adds[b][1] is not None and adds[b][1] < adds[a][0]:
                    raise Violation('order', 'invocation %d called %s' % (i, called))
            # results
            stopped = None
            for n, c in enumerate(called):
                if info[c][2] and not p['swallow']:
                    stopped = c
                    if n != len(called) - 1:
                        raise Violation('exception', 'went on after an exception: %s' % called)
            if stopped is not None:
                if r != ('exc', (stopped, i)):
                    raise Violation('exception', 'invocation %d: %s raised, result is %s' % (i, stopped, r))
            else:
                if r[0] != 'ok':
                    raise Violation('exception', 'invocation %d raised %s' % (i, r))
                if p['gather']:
                    exp = [('exc', c, i) if info[c][2] else (c, i) for c in called]
                    got = []
                    for x in (r[1] or []):
                        if isinstance(x, Boom):
                            got.append(('exc',) + x.args)
                        elif x is None:
                            pass        # cancelled while the invocation was running
                        else:
                            got.append(x)
                    if got != exp:
                        raise Violation('results', 'expected %s got %s' % (exp, r[1]))
                elif r[1] is not None:
                    raise Violation('results', 'expected None got %r' % (r[1],))
            # who had to be called
            for c, (a0, a1) in adds.items():
                can = cancels.get(c)
                if can is not None and can[1] < inv:
                    if c in called:
                        raise Violation('cancelled', '%d called though cancelled' % c)
                    continue
                if can is not None and can[0] < ret:
                    continue
                if a1 is None or a1 > inv or info[c][1] or c in called:
                    continue
                if stopped is not None and not adds[c][1] < adds[stopped][0]:
                    continue
                raise Violation('not-called', 'invocation %d did not call %d: %s' % (i, c, called))
        for c, spec in info.items():
            if spec[1]:
                if total.get(c, 0) > 1:
                    raise Violation('one-shot', 'one-shot %d called %d times' % (c, total[c]))
                if total.get(c, 0) == 0 and c not in cancels:
                    raise Violation('one-shot', 'one-shot %d never called' % c)
        sim.probe('raised' if any(r[2][0] == 'exc' for r in invs) else 'quiet')


class NoOften(Scenario):
    name = 'no-often'
    weight = 2

    def gen(self, rng):
        return {'interval': rng.choice([0.5, 1.0, 5.0]),
                'progs': [[rng.choice([0, 0, 0.1, 0.5, 0.6, 1.0, 1.1, 5.0, 6.0]) for _ in range(rng.randint(2, 6))]
                          for _ in range(rng.randint(1, 3))],
                'raises': rng.random() < 0.3, 'slow': rng.choice([0, 0, 0.3, 2.0]),
                'sched': gen_sched(rng, stall_max=(0.01, 0.4))}

    def run(self, sim, p):
        iv = p['interval']
        recs = {}

        def fn(i, kw=None):
            if kw != i or i not in recs or recs[i][2] is not None:
                raise Violation('arguments', 'arguments not passed through')
            recs[i][2] = sim.now
            if p['slow']:
                time.sleep(p['slow'])
            if p['raises'] and i % 3 == 0:
                raise Boom(i)

        c = CallNoOftenThan(iv, fn)

        def client(k, prog):
            for j, d in enumerate(prog):
                if d:
                    time.sleep(d)
                i = k * 100 + j
                recs[i] = [sim.now, None, None]
                try:
                    c(i, kw=i)
                except Boom as e:
                    if e.args != (i,):
                        raise Violation('exception', 'somebody else\'s exception')
                recs[i][1] = sim.now

        for t in [spawn(sim, client, k, prog) for k, prog in enumerate(p['progs'])]:
            t.join()
        ex = [r for r in recs.values() if r[2] is not None]
        if not ex:
            raise Violation('not-called', 'never called at all')
        for a in ex:
            for b in ex:
                if a is not b and max(a[2], b[2]) - min(a[0], b[0]) < iv - 1e-6:
                    raise Violation('too-often', 'called at %.4f and at %.4f, interval %.2f' % (
                        a[2] - sim.base, b[2] - sim.base, iv))
        for r in recs.values():
            if r[2] is None:
                if not any(e[0] <= r[1] and e[2] > r[0] - iv - 1e-6 for e in ex):
                    raise Violation('not-called', 'call at %.4f skipped, executed calls at %s' % (
                        r[0] - sim.base, ['%.4f' % (e[2] - sim.base) for e in ex]))
                sim.probe('skipped')


SCENARIOS = [Group(), NoOften()]
