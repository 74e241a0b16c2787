"""C26 the tree of metrics: one metric per name, exported as its level, internal and timestamp say"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn
from .c25 import L, entries

from satella.exceptions import MetricAlreadyExists
from satella.instrumentation.metrics import MetricData, MetricDataCollection, MetricLevel, getMetric
from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus
from satella.instrumentation.metrics.metric_types import CounterMetric, register_metric

DISABLED, RUNTIME, DEBUG, INHERIT = 1, 2, 3, 4
FAIL = []


class Refused(Exception):
    pass


@register_metric
class FussyMetric(CounterMetric):
    """its constructor fails when told to"""
    CLASS_NAME = 'dst-fussy'

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for f in FAIL:
            f()


def ancestors(name):
    parts = name.split('.')
    return [''] + ['.'.join(parts[:i]) for i in range(1, len(parts))]


NAMES = {'a': 'base', 'a.b': 'base', 'a.x': 'counter', 'a.b.y': 'counter', 'z': 'dst-fussy', 'a.b.w': 'dst-fussy',
         'c.v': 'int', 'a.b.c': 'counter'}


class Tree(Scenario):
    """threads get, create, report, fail and take snapshots"""
    name = 'tree'
    weight = 3

    def gen(self, rng):
        names = rng.sample(sorted(NAMES), rng.randint(2, 5))
        progs = []
        for _ in range(rng.randint(2, 4)):
            ops = []
            for _ in range(rng.randint(1, 5)):
                k = rng.random()
                if k < 0.65:
                    ops.append(['use', rng.choice(names), rng.choice(['j', 'k'])])
                elif k < 0.75:
                    ops.append(['wrong', rng.choice(names)])
                elif k < 0.83:
                    ops.append(['under-leaf', rng.choice(names)])
                elif k < 0.9:
                    ops.append(['snap'])
                elif k < 0.95:
                    ops.append(['forbidden'])
                else:
                    ops.append(['reset'])
            progs.append(ops)
        return {'progs': progs, 'pfail': rng.choice([0, 0.3, 0.6]), 'internal': [n for n in names if rng.random() < 0.3],
                'labeled': rng.random() < 0.5,
                'sched': gen_sched(rng, jumps=False)}

    def run(self, sim, p):
        got = {}            # name -> metric
        used = {}           # name -> [seq after first finished report, sum]
        on = [True]

        def fussy():
            if on[0] and p['pfail'] and sim.flip('ctor', p['pfail']):
                sim.fault('constructor-fails')
                raise Refused()
        FAIL.append(fussy)
        snaps = []

        def kwargs(name):
            return {'internal': True} if name in p['internal'] and NAMES[name] != 'base' else {}

        def get(name):
            m = getMetric(name, NAMES[name], **kwargs(name))
            if got.setdefault(name, m) is not m:
                raise Violation('two', 'two metrics called %r' % name)
            if m.get_fully_qualified_name() != name or m.CLASS_NAME != NAMES[name]:
                raise Violation('wrong-metric', 'asked for %r, got %r of type %r' % (
                    name, m.get_fully_qualified_name(), m.CLASS_NAME))
            return m

        def use(name, label):
            m = get(name)
            if NAMES[name] == 'base':
                return
            u = used.setdefault(name, [1 << 60, 0, 0])
            u[2] += 1
            m.runtime(1, **({'k': label} if p['labeled'] and NAMES[name] == 'int' else {}))
            u[0] = min(u[0], sim.seq())
            u[1] += 1

        def snap():
            s0 = sim.seq()
            need = {n for n, u in used.items() if u[0] < s0}
            lows = {n: used[n][1] for n in need}
            mdc = getMetric().to_metric_data()
            e = entries(mdc)
            for n in need:
                mine = {k: v for k, v in e.items() if k[0] == n}
                if not mine:
                    raise Violation('not-exported', '%r was reported to, but is not in %r' % (n, e))
                for k, v in mine.items():
                    if NAMES[n] != 'int' and not lows[n] <= v <= used[n][2]:
                        raise Violation('value', '%r is %r, %d reports finished, %d started' % (n, v, lows[n], used[n][2]))
            for n, labels in e:
                if n not in NAMES and not n.startswith('t.'):
                    raise Violation('unknown', 'entry %r' % (n,))
            text = metric_data_collection_to_prometheus(mdc)
            lines = [x.split('{')[0].split(' ')[0] for x in text.split('\n') if x]
            visible = [n.replace('.', '_') for n, labels in e if n not in p['internal']]
            if sorted(lines) != sorted(visible):
                raise Violation('prometheus', 'rendered %r, of %r (internal: %r)' % (lines, sorted(e), p['internal']))
            snaps.append(s0)

        def client(prog, me):
            for op in prog:
                if op[0] == 'use':
                    try:
                        use(op[1], op[2])
                    except Refused:
                        if not NAMES[op[1]].startswith('dst'):
                            raise Violation('wrong-metric', '%r is of another type' % op[1])
                elif op[0] == 'wrong':
                    if op[1] not in got:
                        continue
                    wrong = 'histogram'
                    sim.fault('wrong-type')
                    try:
                        getMetric(op[1], wrong)
                    except MetricAlreadyExists as e:
                        if (e.name, e.requested_type, e.existing_type) != (op[1], wrong, NAMES[op[1]]):
                            raise Violation('exists', 'MetricAlreadyExists says %r' % ((e.name, e.requested_type, e.existing_type),))
                    else:
                        raise Violation('exists', '%r of type %r got as %r' % (op[1], NAMES[op[1]], wrong))
                elif op[0] == 'under-leaf':
                    if NAMES[op[1]] == 'base' or op[1] not in got:
                        continue
                    sim.fault('child-of-leaf')
                    for _ in range(2):
                        try:
                            m = getMetric(op[1] + '.leaf', 'counter')
                        except TypeError:
                            continue
                        m.runtime(1)
                        e = entries(getMetric().to_metric_data())
                        if not any(n == op[1] + '.leaf' for n, _ in e):
                            raise Violation('not-exported', 'getMetric(%r) succeeded, but it is never exported' % (op[1] + '.leaf'))
                elif op[0] == 'forbidden':
                    try:
                        getMetric('a.b-c', 'counter')
                    except ValueError:
                        continue
                    raise Violation('forbidden', 'a metric called a.b-c')
                elif op[0] == 'reset':
                    # of a subtree nobody else uses
                    n = 't%d' % me
                    c = getMetric('t.' + n)
                    v = getMetric('t.%s.q' % n, 'counter')
                    v.runtime(5)
                    if v.get_fully_qualified_name() != 't.%s.q' % n:
                        raise Violation('wrong-metric', v.get_fully_qualified_name())
                    beside = getMetric('t.%sx.q' % n, 'counter')
                    beside.runtime(7)
                    c.reset()
                    e = entries(getMetric('t').to_metric_data())
                    if any(k[0].startswith('t.' + n + '.') or k[0] == 't.' + n for k in e):
                        raise Violation('reset', 't.%s is reset, but %r is exported' % (n, sorted(e)))
                    if c.to_metric_data().values:
                        raise Violation('reset', 'a metric that was reset has %r' % c.to_metric_data())
                    if getMetric('t.%sx.q' % n, 'counter') is not beside or not e.get(('t.%sx.q' % n, ())):
                        raise Violation('reset', 't.%sx was reset along with t.%s' % (n, n))
                    v2 = getMetric('t.%s.q' % n, 'counter')
                    if v2 is v:
                        raise Violation('reset', 'a child of a metric that was reset is still there')
                    c2 = getMetric('t.' + n)
                    v2.runtime(2)
                    e = entries(getMetric('t').to_metric_data())
                    if e.get(('t.%s.q' % n, ())) != 2:
                        raise Violation('reset', 'made anew after a reset, exported as %r' % (e,))
                    c2.reset()
                    c2.reset()
                else:
                    snap()
                sim.yield_point('op')

        for t in [spawn(sim, client, prog, i) for i, prog in enumerate(p['progs'])]:
            t.join()
        on[0] = False
        for n in sorted({op[1] for prog in p['progs'] for op in prog if op[0] == 'use'}):
            use(n, 'k')
        snap()
        sim.probe('names-%d' % len(got))


class Levels(Scenario):
    """one thread against a model of levels, internal flags and timestamps"""
    name = 'levels'
    weight = 3
    max_steps = 2000000
    LEAVES = ['a.x', 'a.b.y', 'z']

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            if k < 0.3:
                n = rng.choice(['', 'a', 'a.b', 'a.x', 'a.b.y', 'z'])
                ops.append(['level', n, rng.choice([1, 2, 3] + ([4, 4] if n else [])), rng.choice(['set', 'get'])])
            elif k < 0.85:
                ops.append(['handle', rng.choice(self.LEAVES), rng.choice([RUNTIME, RUNTIME, DEBUG]),
                            rng.choice(['a', 'b'])])
            else:
                ops.append(['wait', rng.choice([0.5, 3.0, 100.0]), rng.choice([0, 0, -50.0, 1000.0])])
        return {'progs': [ops], 'types': [rng.choice(['int', 'counter', 'summary', 'histogram', 'float', 'cps']) for _ in self.LEAVES],
                'ts': [rng.random() < 0.5 for _ in self.LEAVES], 'internal': [rng.random() < 0.3 for _ in self.LEAVES],
                'labels': [rng.random() < 0.5 for _ in self.LEAVES], 'create': rng.choice([None, None, 1, 2, 3]),
                'order': rng.random() < 0.5, 'sched': gen_sched(rng, jumps=False, stalls=False)}

    def run(self, sim, p):
        lv = {'': RUNTIME, 'a': INHERIT, 'a.b': INHERIT, 'a.x': INHERIT, 'a.b.y': INHERIT, 'z': INHERIT}
        info = {n: (t, ts, i, lab) for n, t, ts, i, lab in
                zip(self.LEAVES, p['types'], p['ts'], p['internal'], p['labels'])}
        ms = {}
        leaves = list(reversed(self.LEAVES)) if p['order'] else self.LEAVES
        for k, n in enumerate(leaves):
            typ, ts, internal, lab = info[n]
            kw = {'enable_timestamp': True} if ts else {}
            if internal:
                kw['internal'] = True
            if typ == 'histogram':
                kw['buckets'] = [0.5, 2]
            if k == 0 and p['create']:
                kw['metric_level'] = MetricLevel(p['create'])
                lv[n] = p['create']
                for a in ancestors(n):
                    if a:
                        lv[a] = p['create']
            ms[n] = getMetric(n, typ, **kw)
        for n in lv:
            ms.setdefault(n, getMetric(n, ms[n].CLASS_NAME if n in ms else 'base'))
        stamps = {}         # (name, label) -> wall time of the last accepted report
        accepted = {n: 0 for n in self.LEAVES}

        def level(n):
            while lv[n] == INHERIT:
                n = ancestors(n)[-1]
            return lv[n]

        wall = [0.0]

        def check():
            for n in lv:
                if ms[n].level != level(n):
                    raise Violation('level', 'level of %r is %r, not %r: %r' % (n, ms[n].level, level(n), lv))
            for top in ('', 'a', 'a.b'):
                mdc = ms[top].to_metric_data()
                seen = {}
                for v in mdc.values:
                    base = v.name if not top else ('a.' if top == 'a.b' else '') + v.name
                    n = [x for x in self.LEAVES if base == x or base.startswith(x + '.')]
                    if len(n) != 1:
                        raise Violation('unknown', '%r in %r' % (v.name, top))
                    seen.setdefault(n[0], []).append(v)
                for n in self.LEAVES:
                    anc = ancestors(n)
                    if top not in anc:
                        continue
                    path = anc[anc.index(top):] + [n]
                    visible = all(level(c) <= level(q) for q, c in zip(path, path[1:]))
                    typ, ts, internal, lab = info[n]
                    if not visible and n in seen:
                        raise Violation('visible', '%r exported by %r though levels are %r' % (n, top, lv))
                    if visible and n not in seen:
                        raise Violation('not-exported', '%r not exported by %r though levels are %r' % (n, top, lv))
                    for v in seen.get(n, ()):
                        if bool(v.internal) != internal:
                            raise Violation('internal', '%r: internal is %r' % (v, v.internal))
                        if not ts:
                            if v.timestamp is not None:
                                raise Violation('timestamp', '%r has a timestamp, %r has not' % (v, n))
                            continue
                        k = v.labels.get('k')
                        want = stamps.get((n, k))
                        if v.timestamp is None or want is not None and abs(v.timestamp - want) > 0.05:
                            raise Violation('timestamp', '%r has a timestamp of %r, last updated %r' % (n, v.timestamp, want))
                want = MetricDataCollection([MetricData(v.name, v.value, dict(v.labels)) for v in mdc.values])
                if not (mdc == want and want == mdc and mdc.strict_eq(want)):
                    raise Violation('equality', 'snapshot is not equal to an equal one')

        check()
        for op in p['progs'][0]:
            if op[0] == 'level':
                _, n, to, how = op
                if how == 'set':
                    ms[n].level = to
                else:
                    if getMetric(n, ms[n].CLASS_NAME, MetricLevel(to)) is not ms[n]:
                        raise Violation('two', 'two metrics called %r' % n)
                lv[n] = to
            elif op[0] == 'handle':
                _, n, at, label = op
                typ, ts, internal, lab = info[n]
                kw = {'k': label} if lab else {}
                args = (1,) if typ != 'cps' else ()
                ms[n].handle(at, *args, **kw)
                if level(n) >= at:
                    accepted[n] += 1
                    stamps[n, kw.get('k')] = stamps[n, None] = sim.now + sim.wall_offset
            else:
                time.sleep(op[1])
                if op[2]:
                    sim.wall_jump(op[2])
            check()
        for n in self.LEAVES:
            typ = info[n][0]
            if typ in ('counter', 'summary', 'histogram') and accepted[n]:
                ms[n].level = DEBUG
                e = entries(ms[n].to_metric_data())
                tot = sum(v for (name, labels), v in e.items()
                          if (name.endswith('.count') if typ != 'counter' else '.' not in name)
                          and not name.endswith('.total.count') and bool(dict(labels).get('k')) == info[n][3])
                if tot != accepted[n]:
                    raise Violation('value', '%d reports were to be taken at %r, %r were: %r' % (accepted[n], n, tot, e))


class Toggle(Scenario):
    """levels being changed all the time never let in what none of them would"""
    name = 'toggle'
    weight = 1

    def gen(self, rng):
        return {'progs': [[rng.choice(['debug', 'runtime']) for _ in range(rng.randint(2, 6))] for _ in range(rng.randint(1, 2))],
                'toggles': rng.randint(1, 6), 'pair': rng.choice([[4, 2], [2, 4], [3, 4], [2, 3]]), 'sched': gen_sched(rng, jumps=False)}

    def run(self, sim, p):
        m = getMetric('g.h.i', 'counter')
        parent = getMetric('g.h')
        root = getMetric('')
        lo, hi = p['pair']
        if 3 in (lo, hi):
            root.level = DEBUG      # then the lowest is what the pair says
        hist = []

        def toggler():
            for i in range(p['toggles']):
                parent.level = MetricLevel((lo, hi)[i % 2])
                sim.yield_point('t')

        def client(prog):
            for kind in prog:
                (m.debug if kind == 'debug' else m.runtime)(1)
                hist.append(kind)

        parent.level = MetricLevel(hi)
        for t in [spawn(sim, client, x) for x in p['progs']] + [spawn(sim, toggler)]:
            t.join()
        r, d = hist.count('runtime'), hist.count('debug')
        v = entries(m.to_metric_data())[('i', ())]
        levels = {int(root.level) if x == 4 else x for x in (lo, hi)}
        least = r + (d if min(levels) >= DEBUG else 0)
        most = r + (d if max(levels) >= DEBUG else 0)
        if not least <= v <= most:
            raise Violation('gate', '%d runtime and %d debug reports at levels %r: %d taken' % (r, d, sorted(levels), v))


SCENARIOS = [Tree(), Levels(), Toggle()]
