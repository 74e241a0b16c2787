"""C25 metrics: no update lost, made up or moved"""
import math
import time
from concurrent.futures import Future as PythonFuture

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.instrumentation.metrics import AggregateMetric, LabeledMetric, getMetric

EPS = 1e-6


class Boom(Exception):
    pass


def entries(mdc):
    """{(name, labels): value} of a snapshot"""
    out = {}
    for v in mdc.values:
        key = (v.name, tuple(sorted(v.labels.items())))
        if key in out:
            raise Violation('duplicate', 'two entries of %r in one snapshot' % (key,))
        out[key] = v.value
    return out


FLIP = [0]


def L(label):
    """labels to report with: a+ stands for two of them, in any order"""
    if label is None:
        return {}
    if not str(label).endswith('+'):
        return {'k': label}
    FLIP[0] += 1
    return {'k': label, 'j': 'x'} if FLIP[0] % 2 else {'j': 'x', 'k': label}


def K(label):
    return () if label is None else (('j', 'x'), ('k', label)) if str(label).endswith('+') else (('k', label),)


def close(a, b):
    return abs(a - b) <= EPS * max(1, abs(a), abs(b))


def quantile(values, q):
    k = (len(values) - 1) * q
    f, c = math.floor(k), math.ceil(k)
    return values[f] + (values[c] - values[f]) * (k - f)


class Updates(Scenario):
    """threads report to one metric, others take snapshots"""
    name = 'updates'
    weight = 6
    max_steps = 1500000
    TYPES = ['counter', 'counter', 'summary', 'histogram', 'int', 'linkfail']

    def gen(self, rng):
        typ = rng.choice(self.TYPES)
        mode = rng.choice(['plain', 'labels', 'labels', 'mixed'])
        if typ in ('int', 'linkfail') and mode == 'mixed':
            mode = 'labels'
        names = rng.choice([['a', 'b'], ['a', 'b'], ['a+', 'b'], ['a+', 'b+'], ['1', 1], list('abcdefghijkl')])
        many = len(names) > 2 and typ not in ('linkfail', 'histogram')
        labels = {'plain': [None], 'labels': names if many else names[:rng.randint(1, 2)], 'mixed': [None] + names}[mode]
        progs = []
        for _ in range(rng.randint(2, 4)):
            ops = []
            for _ in range(rng.randint(4, 8) if many else rng.randint(1, 4)):
                k = rng.random()
                if k < 0.75:
                    ops.append(['u', rng.choice(labels), rng.choice([0.5, 1, 2, 3, 7])])
                elif k < 0.83:
                    ops.append(['bad', rng.choice(labels)])
                else:
                    ops.append(['snap'])
            progs.append(ops)
        kw = {}
        if typ == 'counter':
            kw = {'count_calls': rng.random() < 0.6, 'sum_children': rng.random() < 0.8}
        elif typ == 'summary':
            kw = {'last_calls': rng.randint(2, 4), 'count_calls': rng.random() < 0.8,
                  'aggregate_children': rng.random() < 0.7}
        elif typ == 'histogram':
            kw = {'buckets': [1, 2.5, 5], 'aggregate_children': rng.random() < 0.7}
        elif typ == 'linkfail':
            kw = {'consecutive_failures_to_offline': rng.randint(1, 6),
                  'consecutive_successes_to_online': rng.randint(1, 6)}
        return {'progs': progs, 'typ': typ, 'labels': labels, 'kw': kw, 'own': mode == 'plain' and rng.random() < 0.3,
                'via': rng.choice(['handle', 'runtime', 'labeled', 'aggregate']),
                'fill': [rng.choice([1, 1, 2, 5, 0]) for _ in range(rng.randint(1, 4))],
                'addresses': rng.choice([[0], [0], [1, 2]]), 'cbraise': rng.random() < 0.2,
                'levels': rng.random() < 0.2, 'final': rng.randint(0, 5),
                'later': [[rng.randint(0, 5), rng.choice([True, False]), rng.randint(1, 6)] for _ in range(rng.randint(0, 4))], 'sched': gen_sched(rng)}

    def run(self, sim, p):
        typ, kw = p['typ'], dict(p['kw'])
        FLIP[0] = 0
        callbacks = []
        if typ == 'summary':
            n = kw['last_calls']
            kw['quantiles'] = [i / (n - 1) for i in range(n)]
        elif typ == 'linkfail':
            def on(kind):
                def cb(address, labels):
                    callbacks.append((kind, address, tuple(sorted(dict(labels).items()))))
                    if p['cbraise']:
                        sim.fault('callback-raises')
                        raise Boom()
                return cb
            kw['callback_on_online'], kw['callback_on_offline'] = on('online'), on('offline')
        own = {'o': 1} if p['own'] else {}
        if own:
            kw['labels'] = own
        m = getMetric('grp.met', typ, **kw)
        if p['levels']:
            getMetric('grp').level = 3      # DEBUG: everything is taken
        hist = []       # (seq0, t0, label, value, seq1, t1)
        snaps = []
        uid = [0]
        other = getMetric('grp.other', 'counter')
        wraps = {}

        def report(label, *args):
            via = p['via']
            if via == 'labeled':
                if label not in wraps:
                    wraps[label] = LabeledMetric(m, **L(label))
                wraps[label].runtime(*args)
            elif via == 'aggregate' and typ not in ('linkfail',):
                AggregateMetric(m, other).handle(3 if p['levels'] else 2, *args, **L(label))
            elif via == 'handle':
                m.handle(2, *args, **L(label))
            elif p['levels']:
                m.debug(*args, **L(label))
            else:
                m.runtime(*args, **L(label))

        def update(label, value, address=0, same=False):
            rec = [sim.seq(), sim.now, label, value, 1 << 60, None, address]
            if typ == 'int':
                uid[0] += 1
                rec[3] = value = uid[0]
            elif typ == 'summary' and not same:
                uid[0] += 1
                rec[3] = value = value + uid[0] * 16
            hist.append(rec)
            try:
                if typ == 'linkfail':
                    report(label, *((value,) if address == 0 else (value, address)))
                else:
                    report(label, value)
            except Boom:
                pass
            rec[4], rec[5] = sim.seq(), sim.now

        def snap():
            s0 = sim.seq()
            e = entries(m.to_metric_data())
            snaps.append((s0, e, sim.seq()))

        def client(prog, me):
            for op in prog:
                if op[0] == 'snap':
                    snap()
                elif op[0] == 'bad':
                    if typ == 'int':
                        sim.fault('bad-value')
                        try:
                            m.runtime('x', **L(op[1]))
                        except ValueError:
                            pass
                        else:
                            raise Violation('bad-value', 'int metric took "x"')
                elif typ == 'linkfail':
                    update(op[1], False, p['addresses'][int(op[2]) % len(p['addresses'])])
                else:
                    update(op[1], op[2])
                sim.yield_point('op')

        for t in [spawn(sim, client, prog, i) for i, prog in enumerate(p['progs'])]:
            t.join()
        snap()
        getattr(self, 'judge_' + typ)(sim, p, kw, hist, snaps, own)
        if typ == 'linkfail':
            self.finish_linkfail(sim, p, kw, m, hist, callbacks, spawn, update, own)
        if p['via'] == 'aggregate' and typ in ('counter', 'histogram'):
            v = entries(other.to_metric_data())
            total = sum(r[3] for r in hist)
            name = ('other.sum', ()) if ('other.sum', ()) in v else ('other', ())
            if hist and not close(v[name], total):
                raise Violation('aggregate', 'the other metric of the aggregate has %r, not %r' % (v[name], total))
        if typ == 'summary':
            # the window is exactly the last ones
            for label in p['labels'][:1]:
                if label is None and len(p['labels']) > 1:
                    continue
                for i in range(kw['last_calls'] + p['final']):
                    update(label, 5)
                want = sorted(r[3] for r in hist if r[2] == label)[-kw['last_calls']:]
                mine = [r[3] for r in hist if r[2] == label][-kw['last_calls']:]
                e = entries(m.to_metric_data())
                got = [e.get(('met', tuple(sorted(list(K(label)) + [('quantile', q)] + list(own.items()))))) for q in kw['quantiles']]
                if None in got or not all(close(a, b) for a, b in zip(got, sorted(mine))):
                    raise Violation('window', 'the last %d values are %r, quantiles are those of %r' % (
                        kw['last_calls'], sorted(mine), got))
            # and what they are together, equal values as often as they were reported
            names = [x for x in p['labels'] if x is not None]
            if 0 < len(names) <= 2 and kw['aggregate_children']:
                for label in names:
                    for i in range(kw['last_calls']):
                        update(label, p['fill'][i % len(p['fill'])], same=True)
                every = []
                for label in names:
                    every.extend([r[3] for r in hist if r[2] == label][-kw['last_calls']:])
                e = entries(m.to_metric_data())
                for q in kw['quantiles']:
                    v = e.get(('met.total', (('quantile', q),)))
                    if v is None or not close(v, quantile(sorted(every), q)):
                        raise Violation('window', 'quantile %r of all is %r, of %r' % (q, v, sorted(every)))
        sim.probe(typ)
        # a snapshot of the parent has the same, under the full name
        e1 = {('grp.' + n, l): v for (n, l), v in entries(m.to_metric_data()).items()}
        e2 = {k: v for k, v in entries(getMetric('grp').to_metric_data()).items() if k[0].startswith('grp.met')}
        e3 = {k: v for k, v in entries(getMetric().to_metric_data()).items() if k[0].startswith('grp.met')}
        if e1 != e2 or (e3 != {} if p['levels'] else e1 != e3):
            raise Violation('tree', 'metric gives %r, its parent %r, root %r' % (e1, e2, e3))

    @staticmethod
    def bounds(sel, snap, f):
        lo = sum(f(r[3]) for r in sel if r[4] < snap[0])
        hi = sum(f(r[3]) for r in sel if r[0] < snap[2])
        return lo, hi

    def within(self, what, snap, key, sel, f=lambda v: v, absent_ok=True):
        lo, hi = self.bounds(sel, snap, f)
        v = snap[1].get(key)
        if v is None:
            if not absent_ok or any(r[4] < snap[0] for r in sel):
                raise Violation('lost', 'no entry %r, though %d updates were finished, in %r' % (
                    key, sum(r[4] < snap[0] for r in sel), snap[1]))
            return
        if not lo - EPS * max(1, lo) <= v <= hi + EPS * max(1, hi):
            raise Violation('lost' if v < lo else 'made-up', '%s is %r, but must be within [%r, %r]: updates %r' % (
                key, v, lo, hi, [r[:5] for r in sel]))

    def unknown(self, snap, names, hist):
        for name, labels in snap[1]:
            if name not in names:
                raise Violation('unknown-entry', 'entry %r' % ((name, labels),))
            lab = dict(labels).get('k')
            if lab is not None and not any(r[2] == lab and r[0] < snap[2] for r in hist):
                raise Violation('unknown-entry', 'label %r not reported yet' % (lab,))

    def judge_counter(self, sim, p, kw, hist, snaps, own):
        o = tuple(own.items())
        labeled = any(x is not None for x in p['labels'])
        for s in snaps:
            self.unknown(s, ('met', 'met.sum', 'met.count'), hist)
            for label in p['labels']:
                if label is None and labeled:
                    continue
                sel = [r for r in hist if r[2] == label]
                self.within('value', s, ('met', K(label) + o), sel)
                if kw['count_calls']:
                    self.within('count', s, ('met.count', K(label) + o), sel, lambda v: 1)
            if labeled:
                started = [r for r in hist if r[2] is not None and r[4] < s[0]]
                if kw['sum_children'] and (started or ('met.sum', ()) in s[1]):
                    self.within('sum', s, ('met.sum', o), hist, absent_ok=False)
                if kw['count_calls'] and (started or ('met.count', ()) in s[1]):
                    self.within('count', s, ('met.count', o), hist, lambda v: 1, absent_ok=False)

    def judge_summary(self, sim, p, kw, hist, snaps, own):
        o = tuple(own.items())
        if not kw['count_calls']:
            return
        labeled = any(x is not None for x in p['labels'])
        for s in snaps:
            for label in p['labels'] + ([None] if None not in p['labels'] else []):
                sel = hist if label is None else [r for r in hist if r[2] == label]
                if not any(r[4] < s[0] for r in sel):
                    continue
                self.within('sum', s, ('met.sum', K(label) + o), sel)
                self.within('count', s, ('met.count', K(label) + o), sel, lambda v: 1)
            if not labeled:
                n = s[1].get(('met.count', o), 0)

    def judge_histogram(self, sim, p, kw, hist, snaps, own):
        o = tuple(own.items())
        labeled = any(x is not None for x in p['labels'])
        lows, highs = [0.0] + kw['buckets'], kw['buckets'] + [math.inf]
        for s in snaps:
            groups = [(x, 'met', [r for r in hist if r[2] == x]) for x in p['labels'] if not labeled or x is not None]
            if labeled and kw['aggregate_children'] and any(r[2] is not None and r[4] < s[0] for r in hist):
                groups.append((None, 'met.total', hist))
            for label, name, sel in groups:
                if not any(r[4] < s[0] for r in sel):
                    continue
                ol = o if not labeled else ()
                self.within('sum', s, (name + '.sum', tuple(sorted(K(label) + ol))), sel)
                self.within('count', s, (name + '.count', tuple(sorted(K(label) + ol))), sel, lambda v: 1)
                for lo, hi in zip(lows, highs):
                    key = (name, tuple(sorted(K(label) + ol + (('ge', hi), ('le', lo)))))
                    self.within('bucket', s, key, [r for r in sel if lo <= r[3] < hi], lambda v: 1, absent_ok=False)

    def judge_int(self, sim, p, kw, hist, snaps, own):
        for s in snaps:
            for label in p['labels']:
                sel = [r for r in hist if r[2] == label]
                v = s[1].get(('met', tuple(sorted(K(label) + tuple(own.items())))))
                done = [r for r in sel if r[4] < s[0]]
                ok = {r[3] for r in sel if r[0] < s[2] and not any(q[0] > r[4] for q in done)}
                if not done:
                    ok |= {None, 0}
                if v not in ok:
                    raise Violation('register', 'value for %r is %r, not one of %r' % (label, v, ok))

    def judge_linkfail(self, sim, p, kw, hist, snaps, own):
        self.check_links(p, snaps[-1][1], {(label, a): ('f', sum(r[2] == label and r[6] == a for r in hist),
                                                        sum(r[2] == label and r[6] == a for r in hist)
                                                        < kw['consecutive_failures_to_offline'])
                                           for label in p['labels'] for a in p['addresses']}, own)

    def check_links(self, p, e, state, own):
        for (label, a), (kind, n, online) in state.items():
            if not n:
                continue
            used = {a2 for (l2, a2), s2 in state.items() if l2 == label and s2[1]}
            lab = dict(L(label), **own)
            if used != {0}:
                lab['address'] = a
            key = tuple(sorted(lab.items()))
            for name, want in (('met.consecutive_failures', n if kind == 'f' else 0),
                               ('met.consecutive_successes', n if kind == 's' else 0), ('met.status', int(online))):
                if e.get((name, key)) != want:
                    raise Violation('linkfail', '%s of link %r is %r, not %r, after %d consecutive %s: %r' % (
                        name, (label, a), e.get((name, key)), want, n, kind, e))

    def finish_linkfail(self, sim, p, kw, m, hist, callbacks, spawn, update, own):
        state = {}
        want = []
        for label in p['labels']:
            for a in p['addresses']:
                n = sum(r[2] == label and r[6] == a for r in hist)
                off = n >= kw['consecutive_failures_to_offline']
                state[label, a] = ['f', n, not off]
                if off:
                    want.append(('offline', a, tuple(sorted(dict(L(label), **own).items()))))
        if sorted(callbacks, key=repr) != sorted(want, key=repr):
            raise Violation('callback', 'callbacks called %r, should have been %r' % (callbacks, want))
        # successes reported by several threads at once
        each = [p['final'], max(0, 3 - p['final'])]
        used = [la for la in state if state[la][1]]

        def up(n):
            for label, a in used:
                for _ in range(n):
                    update(label, True, a)

        for t in [spawn(sim, up, n) for n in each]:
            t.join()
        for label, a in used:
            st = state[label, a]
            if sum(each):
                st[0], st[1] = 's', sum(each)
                if not st[2] and st[1] >= kw['consecutive_successes_to_online']:
                    st[2] = True
                    want.append(('online', a, tuple(sorted(dict(L(label), **own).items()))))
        def check():
            if sorted(callbacks, key=repr) != sorted(want, key=repr):
                raise Violation('callback', 'callbacks called %r, should have been %r' % (callbacks, want))
            self.check_links(p, entries(m.to_metric_data()), state, own)

        check()
        # and then one by one
        for i, ok, times in p['later']:
            if not used:
                break
            label, a = used[i % len(used)]
            st = state[label, a]
            kind = 's' if ok else 'f'
            for _ in range(times):
                update(label, ok, a)
                st[1] = st[1] + 1 if st[0] == kind else 1
                st[0] = kind
                if st[1] >= kw['consecutive_successes_to_online' if ok else 'consecutive_failures_to_offline'] and st[2] != ok:
                    st[2] = ok
                    want.append(('online' if ok else 'offline', a, tuple(sorted(dict(L(label), **own).items()))))
                check()


class Callables(Scenario):
    """metrics whose values come from functions, wrapped with labels by many threads"""
    name = 'callable'
    weight = 1

    def gen(self, rng):
        return {'progs': [[[rng.choice(['wrap', 'wrap', 'snap', 'report']), rng.choice('abc'), rng.choice(['k', 'l', 'm'])]
                           for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))],
                'own': rng.choice([{}, {}, {'o': 1}, {'k': 'own'}]), 'plain': rng.random() < 0.5, 'fail': rng.choice([0, 0, 3]),
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        calls = [0]

        def value(v):
            def inner():
                calls[0] += 1
                sim.yield_point('value')
                if p['fail'] and calls[0] % p['fail'] == 0:
                    sim.fault('value-getter')
                    raise Boom()
                return v
            return inner

        m = getMetric('grp.fun', 'callable', labels=dict(p['own']), **({'value_getter': value(-1)} if p['plain'] else {}))
        done, begun = {}, {}        # labels => values

        def snap():
            lo = {k: set(v) for k, v in done.items()}
            try:
                e = entries(m.to_metric_data())
            except Boom:
                return
            own = tuple(sorted(p['own'].items()))
            if p['plain']:
                if ('fun', own) not in e:
                    raise Violation('lost', 'the value of the metric itself is not there: %r' % e)
                if e[('fun', own)] != -1 and e[('fun', own)] not in begun.get(own, ()):
                    raise Violation('value', '%r is %r' % (own, e[('fun', own)]))
            for k in lo:
                if ('fun', k) not in e:
                    raise Violation('lost', 'no value for labels %r in %r' % (k, e))
            for name, k in e:
                if k != own and e[name, k] not in begun.get(k, ()):
                    raise Violation('made-up', '%r has %r, never reported for it' % (k, e[name, k]))
            sim.probe('callable')

        def client(me, prog):
            for i, (op, v, key) in enumerate(prog):
                if op == 'wrap':
                    labels = {key: v}
                    k = tuple(sorted(dict(p['own'], **labels).items()))
                    begun.setdefault(k, set()).add(me * 100 + i)
                    LabeledMetric(m, callable=value(me * 100 + i), **labels)
                    done.setdefault(k, set()).add(me * 100 + i)
                elif op == 'snap':
                    snap()
                else:
                    try:
                        m.runtime(5)
                    except TypeError:
                        pass
                    else:
                        raise Violation('report', 'a callable metric took a report')

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()
        snap()
        snap()


class Clicks(Scenario):
    name = 'cps'
    weight = 2

    def gen(self, rng):
        labels = rng.choice([[None], ['a'], ['a', 'b']])
        progs = [[[rng.choice(labels), rng.choice([0, 0, 0.1, 0.7, 1.0, 3.0])] for _ in range(rng.randint(1, 6))]
                 for _ in range(rng.randint(1, 3))]
        return {'progs': progs, 'labels': labels, 'vec': rng.choice([None, [1], [1, 4], [5, 2], [0.5, 1, 20]]),
                'agg': rng.random() < 0.7, 'snaps': [rng.choice([0, 0.1, 0.5, 1.0, 2.5]) for _ in range(rng.randint(1, 6))],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        kw = {} if p['vec'] is None else {'time_unit_vectors': p['vec']}
        m = getMetric('clk', 'cps', aggregate_children=p['agg'], **kw)
        units = p['vec'] or [1]
        hist = []

        def client(prog):
            for label, delay in prog:
                if delay:
                    time.sleep(delay)
                rec = [sim.seq(), sim.now, label, 1 << 60, 1e18]
                hist.append(rec)
                m.runtime(**L(label))
                rec[3], rec[4] = sim.seq(), sim.now

        def snap():
            s0, t0 = sim.seq(), sim.now
            e = entries(m.to_metric_data())
            s1, t1 = sim.seq(), sim.now
            labeled = p['labels'] != [None]
            groups = [(x, 'clk', [r for r in hist if r[2] == x]) for x in p['labels']]
            if labeled and p['agg']:
                groups.append((None, 'clk.total', hist))
            for label, name, sel in groups:
                if labeled and not any(r[3] < s0 for r in sel):
                    continue
                for u in units:
                    got = e.get((name, tuple(sorted(K(label) + (('period', u),)))))
                    lo = sum(r[3] < s0 and r[1] > t1 - u + 1e-6 for r in sel)
                    hi = sum(r[0] < s1 and r[4] >= t0 - u - 1e-6 for r in sel)
                    if got is None or not lo <= got <= hi:
                        raise Violation('clicks', '%s %r: %r clicks in the last %r s, should be within [%d, %d]' % (
                            name, label, got, u, lo, hi))

        def snapper():
            for d in p['snaps']:
                if d:
                    time.sleep(d)
                snap()

        for t in [spawn(sim, client, prog) for prog in p['progs']] + [spawn(sim, snapper)]:
            t.join()
        snap()
        time.sleep(max(units) + 1)
        snap()
        if hist:
            client([[p['labels'][0], 0]])
            snap()


class Measured(Scenario):
    """measure(), measure_future()"""
    name = 'measured'
    weight = 2

    def gen(self, rng):
        progs = [[[rng.choice(['call', 'with', 'gen', 'future']), rng.choice([0, 0.25, 1.0, 3.0]), rng.random() < 0.3]
                  for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
        return {'progs': progs, 'exc': rng.random() < 0.5, 'label': rng.choice([None, 'a']),
                'typ': rng.choice(['summary', 'counter', 'histogram']), 'agg': rng.random() < 0.3,
                'clock': rng.choice([None, None, 'double']), 'sched': gen_sched(rng)}

    def run(self, sim, p):
        kw = {'counter': {'count_calls': True}}.get(p['typ'], {})
        m = getMetric('tim', p['typ'], **kw)
        m2 = getMetric('tim2', p['typ'], **kw)
        target = AggregateMetric(m, m2) if p['agg'] else m
        mkw = dict(L(p['label']))
        scale = 1.0
        if p['clock']:
            scale = 2.0
            mkw['value_getter'] = lambda: time.monotonic() * 2.0
        lo, hi, n = [0.0], [0.0], [0]

        def account(t0, t1, s0, s1):
            n[0] += 1
            lo[0] += t1 - t0
            hi[0] += s1 - s0

        @target.measure(include_exceptions=p['exc'], **mkw)
        def fun(d, fails, marks):
            marks.append(sim.now)
            time.sleep(d)
            marks.append(sim.now)
            if fails:
                raise Boom(d)
            return d + 100

        @target.measure(include_exceptions=p['exc'], **mkw)
        def gen(d, fails, marks):
            marks.append(sim.now)
            yield d
            time.sleep(d)
            marks.append(sim.now)
            if fails:
                raise Boom(d)
            yield d + 100
            return d + 200

        def client(prog):
            for kind, d, fails in prog:
                marks = []
                s0 = sim.now
                try:
                    if kind == 'call':
                        r = fun(d, fails, marks)
                        if r != d + 100 or fails:
                            raise Violation('result', 'measured function returned %r' % (r,))
                    elif kind == 'gen':
                        r, g = [], gen(d, fails, marks)
                        while True:
                            try:
                                r.append(next(g))
                            except StopIteration as ex:
                                r.append(ex.value)
                                break
                        if r != [d, d + 100, d + 200] or fails:
                            raise Violation('result', 'measured generator yielded and returned %r' % (r,))
                    elif kind == 'with':
                        with target.measure(include_exceptions=p['exc'], **mkw):
                            marks.append(sim.now)
                            time.sleep(d)
                            marks.append(sim.now)
                            if fails:
                                raise Boom(d)
                        if fails:
                            raise Violation('result', 'exception swallowed')
                    else:
                        fut = PythonFuture()
                        target.measure_future(fut, **mkw)
                        marks.append(sim.now)
                        if d:
                            time.sleep(d)
                            # somebody else measures it too, from now on
                            q0 = sim.now
                            side.measure_future(fut)
                            q1 = sim.now
                            time.sleep(d)
                        marks.append(sim.now)
                        if fails:
                            fut.set_exception(Boom(d))
                        else:
                            fut.set_result(d)
                        if d:
                            sidel[0] += marks[-1] - q1
                            sideh[0] += sim.now - q0
                        account(marks[0], marks[1], s0, sim.now)
                        continue
                except Boom as e:
                    if not fails or e.args != (d,):
                        raise Violation('result', 'wrong exception %r' % (e,))
                if not fails or p['exc']:
                    account(marks[0], marks[1], s0, sim.now)

        side = getMetric('side', 'summary')
        sidel, sideh = [0.0], [0.0]
        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        for met in ((m, m2) if p['agg'] else (m,)):
            e = entries(met.to_metric_data())
            if not n[0]:
                continue
            tot = [v for (name, labels), v in e.items()
                   if (name.endswith('.sum') or name == met.name and p['typ'] == 'counter') and labels == K(p['label'])]
            cnt = [v for (name, labels), v in e.items() if name.endswith('.count') and labels == K(p['label'])]
            if cnt != [n[0]]:
                raise Violation('count', '%d measurements reported of %d: %r' % (cnt[0] if cnt else 0, n[0], e))
            if len(tot) != 1 or not lo[0] * scale - 1e-3 <= tot[0] <= hi[0] * scale + 1e-3:
                raise Violation('time', 'measured %r, in fact [%r, %r] (times %r)' % (tot, lo[0], hi[0], scale))
        e = entries(side.to_metric_data())
        if not sidel[0] - 1e-3 <= e[('side.sum', ())] <= sideh[0] + 1e-3:
            raise Violation('time', 'the second to measure a future got %r, should be [%r, %r]' % (
                e[('side.sum', ())], sidel[0], sideh[0]))


SCENARIOS = [Updates(), Clicks(), Measured(), Callables()]
