"""C11 Condition, DeferredValue"""
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import Condition, DeferredValue
from satella.exceptions import WouldWaitMore, ResourceLocked


class Cond(Scenario):
    name = 'condition'
    weight = 3

    def gen(self, rng):
        waiters = [[rng.choice([None, None, 0, -1, 0.2, 3, 30, '5s', '1m']), rng.random() < 0.4,
                    rng.choice([0, 0, 0, 0.1, 1.0])] for _ in range(rng.randint(1, 4))]
        progs = [[[rng.choice(['notify', 'notify', 'all', 'n2', 'n3', 'with', 'n0']), rng.choice([0, 0.05, 1.5, 4.0])]
                  for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]
        return {'waiters': waiters, 'progs': progs, 'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def shrink(self, p):
        yield from super().shrink(p)
        for i in range(len(p['waiters'])):
            q = dict(p)
            q['waiters'] = p['waiters'][:i] + p['waiters'][i + 1:]
            yield q

    def run(self, sim, p):
        c = Condition()
        recs = []
        notes = []          # [t0, t1, n]

        def waiter(rec, to, dr, d):
            if d:
                time.sleep(d)
            rec['t0'], rec['inv'] = sim.now, sim.seq()
            kw = {}
            if to is not None:
                kw['timeout'] = to
            if dr:
                kw['dont_raise'] = True
            try:
                r = c.wait(**kw)
                if r is not None:
                    raise Violation('result', 'wait() returned %r' % (r,))
                rec['r'] = 'ok'
            except WouldWaitMore:
                rec['r'] = 'timeout'
            except ResourceLocked:
                rec['r'] = 'locked'
            rec['t1'], rec['ret'] = sim.now, sim.seq()

        def notifier(prog):
            for k, d in prog:
                if d:
                    time.sleep(d)
                rec = {'t0': sim.now, 'inv': sim.seq()}
                notes.append(rec)
                if k == 'notify':
                    c.notify()
                    rec['n'] = 1
                elif k == 'all':
                    c.notify_all()
                    rec['n'] = 1 << 30
                elif k == 'with':
                    # usable inside its own lock as well
                    with c:
                        c.notify_all()
                    rec['n'] = 1 << 30
                else:
                    c.notify(int(k[1:]))
                    rec['n'] = int(k[1:])
                rec['t1'], rec['ret'] = sim.now, sim.seq()

        ws = []
        for to, dr, d in p['waiters']:
            rec = {'to': to, 'dr': dr, 'r': None}
            recs.append(rec)
            ws.append(spawn(sim, waiter, rec, to, dr, d, name='waiter'))
        for t in [spawn(sim, notifier, prog) for prog in p['progs']]:
            t.join()
        time.sleep(200)
        # those that wait without a timeout and were not notified
        left = [t for t in ws if t.is_alive()]
        for t, rec in zip(ws, recs):
            if t.is_alive() and rec['to'] is not None:
                raise Violation('late-timeout', 'wait(%r) did not time out' % (rec['to'],))
        if left:
            n = (len(left) + 1) // 2
            before = len(left)
            c.notify(n)
            time.sleep(5)
            woken = before - sum(t.is_alive() for t in left)
            if woken != n:
                raise Violation('notify-count', 'notify(%d) woke %d of %d' % (n, woken, before))
            c.notify_all()
            time.sleep(5)
            if any(t.is_alive() for t in left):
                raise Violation('lost-wakeup', 'notify_all() left somebody waiting')
            sim.probe('left-waiting')
        final = bool(left)
        total_n = sum(min(x['n'], 1 << 20) for x in notes)
        ok_before = 0
        for rec, t in zip(recs, ws):
            to = rec['to']
            secs = None if to is None else (max(0, to) if not isinstance(to, str) else {'5s': 5.0, '1m': 60.0}[to])
            if rec['r'] is None:
                raise Violation('stuck', 'waiter did not finish')
            el = rec['t1'] - rec['t0']
            if rec['r'] in ('timeout', 'locked'):
                if secs is None:
                    raise Violation('spurious-timeout', '%s from wait() without a timeout' % rec['r'])
                if el < secs - 1e-3:
                    raise Violation('spurious-timeout', '%s after %.4f of %s s' % (rec['r'], el, to))
                if rec['r'] == 'timeout' and rec['dr']:
                    raise Violation('dont-raise', 'WouldWaitMore in spite of dont_raise')
                if rec['r'] == 'locked' and not (secs < 0.5):
                    raise Violation('spurious-timeout', 'ResourceLocked after %s s' % secs)
                sim.probe('timeout')
            if secs is not None and el > secs + 0.1 + sim.stall_total:
                raise Violation('late-timeout', 'wait(%r) took %.3f s' % (to, el))
            if t in left:
                continue
            timed_out = rec['r'] != 'ok' or (rec['dr'] and secs is not None and el >= secs - 1e-3)
            if not timed_out:
                ok_before += 1
                if not any(x['inv'] < rec['ret'] and x.get('ret', 1 << 60) > rec['inv'] and x.get('n', 1) for x in notes):
                    raise Violation('spurious-wakeup', 'wait() returned without being notified')
            else:
                # notify_all during the wait must have woken it
                for x in notes:
                    if x['n'] > 1000 and x['t0'] > rec['t0'] + 0.05 + sim.stall_total and \
                            x['t1'] < rec['t0'] + secs - 0.05 - sim.stall_total:
                        raise Violation('lost-wakeup', 'wait(%r) timed out in spite of notify_all' % (to,))
        if ok_before > total_n:
            raise Violation('notify-count', '%d notifications woke %d waiters' % (total_n, ok_before))


class CondHeld(Scenario):
    """somebody holds the lock when the wait begins"""
    name = 'condition-held'

    def gen(self, rng):
        return {'hold': rng.choice([0.5, 2.0, 10.0]), 'waiters': [[rng.choice([0, 0.3, 1.0, 3.0, '4s', 15.0, None]), rng.choice([0.05, 0.2, 1.0]), rng.random() < 0.3]
                                                                   for _ in range(rng.randint(1, 3))],
                'notify': rng.choice([0.3, 1.0, 3.0, 12.0, 40.0]), 'sched': gen_sched(rng, stall_max=(0.01, 0.05))}

    def run(self, sim, p):
        c = Condition()
        start = sim.now
        free = [None]

        def waiter(to, d, dr):
            time.sleep(d)
            t0 = sim.now
            if to is not None and t0 + float(str(to).rstrip('s')) > start + p['hold'] and t0 < start + p['hold']:
                sim.probe('waited-for-lock')
            try:
                c.wait(to, dont_raise=dr)
                r = 'ok'
            except WouldWaitMore:
                r = 'timeout'
            except ResourceLocked:
                r = 'locked'
            recs.append((to, t0, sim.now, r, dr))

        recs = []
        with c:
            ws = [spawn(sim, waiter, *w) for w in p['waiters']]
            time.sleep(p['hold'])
            c.notify(0)     # wakes nobody
        free[0] = sim.now
        time.sleep(p['notify'])
        n0 = sim.now
        c.notify(0)
        c.notify_all()
        n1 = sim.now
        time.sleep(30)
        c.notify_all()
        time.sleep(1)
        slack = 0.05 + sim.stall_total
        if len(recs) != len(ws):
            raise Violation('stuck', '%d of %d waiters are left' % (len(ws) - len(recs), len(ws)))
        for to, t0, t1, r, dr in recs:
            if to is None:
                if r != 'ok' or t1 < n0:
                    raise Violation('spurious-wakeup', 'wait() %s at %.3f, notified at %.3f' % (r, t1 - start, n0 - start))
                if t0 < n0 - slack and t1 > n1 + slack:
                    raise Violation('lost-wakeup', 'wait() was not woken')
                continue
            end = t0 + float(str(to).rstrip('s'))
            if t1 > end + slack:
                raise Violation('late-timeout', 'wait(%r) took %.3f s' % (to, t1 - t0))
            if r in ('timeout', 'locked') and t1 < end - 1e-3:
                raise Violation('spurious-timeout', '%s after %.4f of %s s' % (r, t1 - t0, to))
            if r == 'ok' and t1 < n0 and not (dr and t1 >= end - 1e-3):
                raise Violation('spurious-wakeup', 'wait(%r) returned without being notified' % (to,))
            if r == 'locked' and end > max(free[0], t0) + slack:      # others wait and so take it for moments
                raise Violation('locked', 'ResourceLocked, though the lock was there %.3f s before the timeout' % (end - max(free[0], t0)))
            if r == 'timeout' and dr:
                raise Violation('dont-raise', 'WouldWaitMore in spite of dont_raise')
            if n1 < end - slack and max(t0, free[0]) < n0 - slack and (r != 'ok' or t1 > n1 + slack):
                raise Violation('lost-wakeup', 'wait(%r): %s at %.3f in spite of notify_all at %.3f' % (to, r, t1 - start, n1 - start))


class CondPred(Scenario):
    """the usual pattern: check a predicate under the lock, wait; change it, notify"""
    name = 'condition-predicate'
    weight = 2

    def gen(self, rng):
        progs = [[[rng.choice(['locked', 'all', 'all', 'one']), rng.choice([0, 0, 0.05, 1.0]), rng.randint(1, 2)]
                  for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]
        n = sum(x[2] for q in progs for x in q)
        cons = []
        while n > 0:
            k = min(n, rng.randint(1, 3))
            cons.append([k, rng.choice([None, None, 0.5, 20])])
            n -= k
        return {'progs': progs, 'cons': cons[:5], 'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def shrink(self, p):
        return ()

    def run(self, sim, p):
        c = Condition()
        items, got = [], []

        def producer(prog):
            for k, d, n in prog:
                if d:
                    time.sleep(d)
                if k == 'locked':
                    with c:
                        items.extend([1] * n)
                        c.notify(n)
                elif k == 'all':
                    items.extend([1] * n)
                    c.notify_all()
                else:
                    for _ in range(n):
                        items.append(1)
                        c.notify()

        def consumer(n, to):
            for _ in range(n):
                with c:
                    while not items:
                        if to is None:
                            c.wait()
                        else:
                            c.wait(to, dont_raise=True)
                    got.append(items.pop())
                    sim.yield_point('consume')

        ths = [spawn(sim, consumer, n, to) for n, to in p['cons']]
        ths += [spawn(sim, producer, q) for q in p['progs']]
        for t in ths:
            t.join(500)
            if t.is_alive():
                raise Violation('lost-wakeup', 'a thread that checked its predicate under the lock was not woken; %d items are '
                                'there' % len(items))
        if len(got) != sum(x[0] for x in p['cons']):
            raise Violation('exclusion', 'items consumed %d' % len(got))


class Deferred(Scenario):
    name = 'deferred'
    weight = 2

    def gen(self, rng):
        return {'setters': [rng.choice([0, 0, 0.1, 1.0, 3.0]) for _ in range(rng.randint(0, 3))],
                'progs': [[[rng.choice([None, None, 0, 0.05, 1.0, 2.0]), rng.choice(['value', 'result']),
                            rng.choice([0, 0, 0.1, 2.0])] for _ in range(rng.randint(1, 2))]
                          for _ in range(rng.randint(1, 3))],
                'none': rng.random() < 0.3, 'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def run(self, sim, p):
        dv = DeferredValue()
        got, sets = [], []

        def setter(i, d):
            if d:
                time.sleep(d)
            rec = {'inv': sim.seq(), 't0': sim.now, 'v': None if p['none'] and i == 0 else i + 100}
            sets.append(rec)
            try:
                r = dv.set_value(rec['v'])
                rec['ok'] = True
                if r is not None:
                    raise Violation('result', 'set_value returned %r' % (r,))
            except ValueError:
                rec['ok'] = False
            rec['ret'], rec['t1'] = sim.seq(), sim.now

        def getter(prog):
            for to, how, d in prog:
                if d:
                    time.sleep(d)
                inv, t0 = sim.seq(), sim.now
                fn = getattr(dv, how)
                try:
                    r = ('ok', fn() if to is None else fn(timeout=to))
                except WouldWaitMore:
                    r = ('timeout',)
                got.append((r, to, inv, sim.seq(), t0, sim.now))

        gs = [spawn(sim, getter, prog, name='getter') for prog in p['progs']]
        for t in [spawn(sim, setter, i, d) for i, d in enumerate(p['setters'])]:
            t.join()
        time.sleep(20)
        if not p['setters']:
            setter(7, 0)
        for t in gs:
            t.join(timeout=50)
            if t.is_alive():
                raise Violation('stuck', 'a reader is still waiting for a value that is set')
        win = [s for s in sets if s['ok']]
        if len(win) != 1:
            raise Violation('set-twice', '%d of %d set_value calls succeeded' % (len(win), len(sets)))
        w = win[0]
        for s in sets:
            if s['ret'] < w['inv']:
                raise Violation('set', 'set_value failed though nothing was set')
        for r, to, inv, ret, t0, t1 in got:
            if r[0] == 'ok':
                if r[1] != w['v'] or ret < w['inv']:
                    raise Violation('value', 'read %r, set %r' % (r[1], w['v']))
            else:
                if to is None or t1 - t0 < to - 1e-3:
                    raise Violation('spurious-timeout', 'WouldWaitMore after %.3f of %s' % (t1 - t0, to))
                if t1 - t0 > to + 0.1 + sim.stall_total:
                    raise Violation('late-timeout', 'WouldWaitMore after %.3f of %s' % (t1 - t0, to))
                if w['ret'] < inv:
                    raise Violation('spurious-timeout', 'WouldWaitMore though the value was set')
                if w['t1'] < t0 + to - 0.05 - sim.stall_total:
                    raise Violation('lost-wakeup', 'WouldWaitMore though the value was set in time')
                sim.probe('timeout')
        if dv.value() != w['v'] or dv.result(timeout=0) != w['v']:
            raise Violation('value', 'final value differs')


SCENARIOS = [Cond(), CondHeld(), CondPred(), Deferred()]
