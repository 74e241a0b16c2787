"""C13 dictionaries that clean themselves: ExpiringEntryDict, SelfCleaningDefaultDict"""
import time
import weakref

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import Monitor
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict

EPS = 1e-3


class Val:
    """a value whose life can be observed"""

    def __init__(self, n):
        self.n = n


class Faulty:
    """a dictionary whose cleanup fails"""


class Expiring(Scenario):
    name = 'expiring'
    weight = 4

    def gen(self, rng):
        T = rng.choice([1.0, 4.0, 10.0])
        progs = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.choice(['set', 'set', 'get', 'get', 'in', 'del', 'pop', 'len', 'iter', 'dget', 'items', 'setdef',
                                'new', 'again', 'again'])
                ops.append([k, rng.choice(['a', 'a', 'b', 'c']),
                            rng.choice([0, 0, 0, T / 2, T - 0.01, T + 0.01, T + 0.01, 2 * T, T + 6])])
            progs.append(ops)
        clock = rng.choice([None, None, 'wall', 'fast'])
        return {'T': T, 'ext': rng.random() < 0.6, 'clock': clock,
                'init': rng.choice([0, 0, 1]), 'bad': rng.random() < 0.3, 'none': rng.random() < 0.3, 'progs': progs,
                'sched': gen_sched(rng, stall_max=(0.01, 0.2), jumps=clock != 'wall')}

    def run(self, sim, p):
        T, scale = p['T'], 1.0
        kw = {}
        if p['clock'] == 'wall':
            kw['time_getter'] = time.time
        elif p['clock'] == 'fast':
            scale = 3.0
            kw['time_getter'] = lambda: time.monotonic() * 3.0
        if p['ext']:
            kw['external_cleanup'] = True
        counter = [0]
        alive = {}          # number -> weakref

        def val():
            counter[0] += 1
            v = Val(counter[0])
            alive[v.n] = weakref.ref(v)
            return v

        if p['bad']:
            def bad_clock():
                if broken:
                    raise OSError('no clock today')
                return 0.0
            broken = []
            bad = ExpiringEntryDict(1.0, time_getter=bad_clock, external_cleanup=True)
            bad['x'] = 1
            broken.append(1)
            sim.fault('bad-clock')
        hist = []           # [kind, key, n or None, inv, ret, t0, t1]

        def rec(kind, key):
            r = [kind, key, None, sim.seq(), None, sim.now, None]
            hist.append(r)
            return r

        def done(r, v=None):
            r[2] = v
            r[4], r[6] = sim.seq(), sim.now

        init = {}
        if p['init']:
            init = {'a': val()}
        r = rec('set', 'a')
        d = ExpiringEntryDict(T * scale, init, **kw)
        if init:
            done(r, init['a'].n)
        else:
            hist.remove(r)
        init = None
        keep, extra = [], []
        K = {'a': 'a', 'b': 'b', 'c': None if p['none'] else 'c'}

        def client(prog):
            for k, key, delay in prog:
                if delay:
                    time.sleep(delay)
                v = None
                if k == 'new':
                    # another dictionary made while holding this one
                    with Monitor.acquire(d):
                        sim.yield_point('holding')
                        nd = ExpiringEntryDict(T, external_cleanup=True)
                        v = Val(-1)
                        extra.append(weakref.ref(v))
                        nd['x'] = v
                        keep.append(nd)
                    nd = v = None
                    continue
                if k == 'set':
                    v = val()
                    r = rec('set', key)
                    r[2] = v.n
                    d[K[key]] = v
                    done(r, v.n)
                elif k in ('get', 'dget', 'pop'):
                    r = rec('get' if k == 'dget' else k, key)
                    try:
                        if k == 'get':
                            v = d[K[key]]
                        elif k == 'dget':
                            v = d.get(K[key])
                        else:
                            v = d.pop(K[key])
                    except KeyError:
                        v = None
                    done(r, None if v is None else v.n)
                elif k == 'again':
                    # the very same value set once more is as good as a new one
                    v = d.get(K[key])
                    if v is not None:
                        r = rec('set', key)
                        r[2] = v.n
                        d[K[key]] = v
                        done(r, v.n)
                elif k == 'setdef':
                    nv = val()
                    r = rec('set', key)
                    r[2] = nv.n
                    v = d.setdefault(K[key], nv)
                    done(r, nv.n)
                    if v is not nv:
                        r[0] = 'get'
                        r[2] = v.n
                    nv = None
                elif k == 'in':
                    r = rec('in', key)
                    done(r, K[key] in d)
                elif k == 'del':
                    r = rec('del', key)
                    try:
                        del d[K[key]]
                        ok = True
                    except KeyError:
                        ok = False
                    done(r, ok)
                elif k == 'len':
                    r = rec('len', None)
                    done(r, len(d))
                else:
                    r = rec('keys', None)
                    try:
                        with Monitor.acquire(d):
                            if k == 'iter':
                                ks = list(d)
                            else:
                                ks = [x for x, _ in d.items()]
                    except KeyError:        # one has expired between its key and its value being read
                        if k == 'iter':
                            raise
                        hist.remove(r)
                    else:
                        done(r, ['c' if x is K['c'] else x for x in ks])
                v = None

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        self.judge(sim, p, hist)
        # once everything expired
        time.sleep(T + 1)
        for k in K.values():
            try:
                d[k]
            except KeyError:
                pass
            else:
                raise Violation('expired-read', 'read an entry after it has expired')
            if k in d:
                raise Violation('expired-read', 'an expired entry is in')
        v = val()
        t = sim.now
        d['z'] = v
        v = None
        n, ks = len(d), list(d)
        if (n != 1 or ks != ['z']) and sim.now - t < T - EPS:
            raise Violation('size', 'len %d keys %s' % (n, ks))
        sets = [x for x in hist if x[0] == 'set']
        if p['ext']:
            time.sleep(T + 6 + sim.stall_total)
            for n, ref in alive.items():
                if ref() is not None:
                    raise Violation('not-cleaned', 'an expired value is still held by the dictionary')
            sim.probe('cleaned-in-background')
        if extra:
            time.sleep(T + 6 + sim.stall_total)
            if any(ref() is not None for ref in extra):
                raise Violation('not-cleaned', 'an expired value is still held by a dictionary made by another thread')
        if sim.thread_errors:
            raise Violation('background-thread', 'the cleanup thread has died: %r' % (sim.thread_errors,))

    @staticmethod
    def unreadable(h, s, T, sets, removals):
        """why h could not have read what s has set"""
        if s[6] + T < h[5] - EPS:
            return Violation('expired-read', 'read %.4f s after it was set, timeout %s' % (h[5] - s[6], T))
        if s[3] > h[4]:
            return Violation('wrong-value', 'value from the future')
        if any(q[3] > s[4] and q[4] < h[3] for q in removals if q is not h) or \
                any(q[3] > s[4] and q[4] < h[3] for q in sets):
            return Violation('stale-value', 'read a value that was replaced or deleted')

    def judge(self, sim, p, hist):
        T = p['T']
        inf = float('inf')
        sets = {}
        for h in hist:
            if h[0] == 'set':
                sets.setdefault(h[1], []).append(h)
        removals = {}
        for h in hist:
            if h[0] in ('del', 'pop') and h[2] not in (False, None):
                removals.setdefault(h[1], []).append(h)

        def surely(key, h):
            """is there an entry for that key during all of operation h?"""
            for s in sets.get(key, ()):
                if s[4] is None or s[4] > h[3] or s is h:
                    continue
                if s[5] + T <= h[6] + EPS:
                    continue
                if any((q[4] or inf) > s[3] and q[3] < h[4] and q is not h for q in removals.get(key, ())):
                    continue
                return True
            return False

        def possibly(key, h):
            for s in sets.get(key, ()):
                if s[3] > h[4]:
                    continue
                if s[6] + T < h[5] - EPS:
                    continue
                # surely removed after being set, before h began, and not set again
                if any(q[3] > s[4] and q[4] < h[3] for q in removals.get(key, ())):
                    continue
                return True
            return False

        for h in hist:
            k, key, v = h[0], h[1], h[2]
            if k in ('get', 'pop'):
                if v is None:
                    if surely(key, h):
                        raise Violation('lost-entry', '%s(%r) found nothing, though it was set less than %s s ago' % (k, key, T))
                    continue
                ss = [s for s in sets[key] if s[2] == v]
                if not ss:
                    raise Violation('wrong-value', 'value %s was not set for %r' % (v, key))
                # the same value might have been set several times
                wrong = [self.unreadable(h, s, T, sets[key], removals.get(key, ())) for s in ss]
                if all(wrong):
                    raise wrong[-1]
                if k == 'pop' and sum(1 for q in removals[key] if q[0] == 'pop' and q[2] == v) > 1 and \
                        sum(1 for s in sets[key] if s[2] == v) == 1:
                    sim.probe('double-pop')     # MutableMapping.pop is not atomic
            elif k == 'in':
                if not v and surely(key, h):
                    raise Violation('lost-entry', '%r is not in, though it was set less than %s s ago' % (key, T))
                if v and not possibly(key, h):
                    raise Violation('expired-read', '%r in the dictionary after it expired or was deleted' % (key,))
            elif k == 'del':
                if not v and surely(key, h):
                    raise Violation('lost-entry', 'could not delete %r' % (key,))
            elif k == 'len':
                lo = sum(surely(x, h) for x in 'abc')
                hi = sum(possibly(x, h) for x in 'abc')
                if not lo <= v <= hi:
                    raise Violation('size', 'len() returned %d, expected %d..%d' % (v, lo, hi))
            elif k == 'keys':
                if len(set(v)) != len(v):
                    raise Violation('iteration', 'keys %s' % v)
                for x in 'abc':
                    if x in v and not possibly(x, h):
                        raise Violation('expired-read', 'iteration returned %r which is not there' % (x,))
                    if x not in v and surely(x, h):
                        raise Violation('lost-entry', 'iteration did not return %r' % (x,))


class Cell(list):
    """a mutable value whose life can be observed"""


class SelfCleaning(Scenario):
    name = 'self-cleaning'
    weight = 3

    def gen(self, rng):
        progs = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(2, 6)):
                k = rng.choice(['set', 'set', 'zero', 'get', 'get', 'in', 'del', 'del', 'len', 'iter', 'items', 'mutate'])
                ops.append([k, rng.choice(['a', 'a', 'b']), rng.choice([0, 0, 0, 0.5, 5.0, 6.0])])
            progs.append(ops)
        return {'bg': rng.random() < 0.6, 'progs': progs, 'bad': rng.random() < 0.3,
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        if p['bad']:
            class Nasty:
                def __eq__(self, other):
                    raise ValueError('the truth value of an array is ambiguous')
            other = SelfCleaningDefaultDict(list)
            other.data['x'] = Nasty()
            sim.fault('bad-comparison')
        d = SelfCleaningDefaultDict(list) if p['bg'] else SelfCleaningDefaultDict(list, False)
        hist = []
        cells = {}
        counter = [0]

        def client(prog):
            for k, key, delay in prog:
                if delay:
                    time.sleep(delay)
                r = [k, key, None, sim.seq(), None]
                hist.append(r)
                if k == 'set':
                    counter[0] += 1
                    c = Cell([counter[0]])
                    cells[counter[0]] = weakref.ref(c)
                    r[2] = counter[0]
                    d[key] = c
                    c = None
                elif k == 'zero':
                    d[key] = []
                elif k in ('get', 'mutate'):
                    v = d[key]
                    if not isinstance(v, list) or len(v) > 1:
                        raise Violation('value', 'got %r' % (v,))
                    r[2] = v[0] if v else 0
                    if k == 'mutate' and isinstance(v, Cell) and v:
                        r[0] = 'mutated'
                        v.clear()
                    v = None
                elif k == 'in':
                    r[2] = key in d
                elif k == 'del':
                    del d[key]
                elif k == 'len':
                    r[2] = len(d)
                else:
                    with Monitor.acquire(d):
                        r[2] = list(d) if k == 'iter' else [x for x, _ in d.items()]
                r[4] = sim.seq()

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()

        def touched(key, a, b, but=None):
            """could anything have changed the key between a and b?"""
            return any(q[1] == key and q is not but and q[0] in ('set', 'zero', 'del', 'mutated', 'mutate') and
                       q[4] > a and q[3] < b for q in hist)

        def last(key, h):
            """the value the key surely has throughout h: number, 0 = none, None = unknown"""
            prev = [q for q in hist if q[1] == key and q[0] in ('set', 'zero', 'del', 'mutated', 'mutate') and q[4] < h[3]]
            if not prev:
                return 0 if not touched(key, 0, h[4], h) else None
            s = max(prev, key=lambda q: q[4])
            if touched(key, s[3], h[4], s) and any(
                    q is not s and q is not h and q[1] == key and q[4] > s[3] and q[3] < h[4]
                    and q[0] in ('set', 'zero', 'del', 'mutated', 'mutate') for q in hist):
                return None
            return s[2] if s[0] == 'set' else 0 if s[0] in ('zero', 'del', 'mutated') else None

        for h in hist:
            k, key, v = h[:3]
            if k in ('get', 'mutate', 'mutated'):
                e = last(key, h)
                if e is not None and e != v:
                    raise Violation('value', 'read %s, expected %s' % (v or 'the default', e or 'the default'))
                if v and not any(q[0] == 'set' and q[2] == v and q[1] == key and q[3] < h[4] for q in hist):
                    raise Violation('value', 'value %s was never set for %r' % (v, key))
            elif k == 'in':
                e = last(key, h)
                if e and not v:
                    raise Violation('lost-entry', '%r not in the dictionary' % (key,))
                if v and not any(q[1] == key and q[0] in ('set', 'get', 'mutate', 'mutated') and q[3] < h[4] for q in hist):
                    raise Violation('contains', '%r, never set, is in the dictionary' % (key,))
            elif k in ('len', 'iter', 'items'):
                es = {x: last(x, h) for x in 'ab'}
                if k == 'len':
                    lo = sum(1 for x in es.values() if x)
                    hi = lo + sum(1 for x in es.values() if x is None)
                    if not lo <= v <= hi:
                        raise Violation('size', 'len() %d, expected %d..%d' % (v, lo, hi))
                else:
                    for x, e in es.items():
                        if e == 0 and x in v:
                            raise Violation('size', 'iteration returned %r that has the default value' % (x,))
                        if e and x not in v:
                            raise Violation('lost-entry', 'iteration did not return %r' % (x,))
        # accessing a key that is not there
        x = d['q']
        if x != []:
            raise Violation('value', 'a missing key read %r' % (x,))
        if p['bg']:
            if 'q' in list(d):
                raise Violation('size', 'a default value is held')
        else:
            # the default is inserted, so that it can be worked upon
            x.append(7)
            if d['q'] is not x or 'q' not in d or list(d).count('q') != 1:
                raise Violation('lost-entry', 'the default value of a missing key was not inserted')
            del d['q']
            if 'q' in d:
                raise Violation('contains', 'deleted key is there')
        # the default does not have to be the falsy value
        e = SelfCleaningDefaultDict(lambda: 5, p['bg'], {'a': 0, 'b': 5}, c=7)
        e['d'] = None
        e['e'] = 5
        for _ in range(2):
            got = [e[k] for k in 'abcde']
            if got != [0, 5, 7, None, 5]:
                raise Violation('value', 'read %s, expected %s' % (got, [0, 5, 7, None, 5]))
            if 'e' in list(e) and p['bg'] or not {'a', 'c', 'd'} <= set(e) or len(e) != len(list(e)):
                raise Violation('size', 'iteration returned %s' % (list(e),))
            time.sleep(6)
        if p['bg']:
            time.sleep(6 + sim.stall_total)
            held = 0
            for n, ref in cells.items():
                c = ref()
                if c is not None:
                    held += 1
                    if not c:
                        raise Violation('not-cleaned', 'a value equal to the default is still held')
                c = None
            if len(d) != held:
                raise Violation('size', 'len() is %d, %d values are held' % (len(d), held))
        if sim.thread_errors:
            raise Violation('background-thread', 'the cleanup thread has died: %r' % (sim.thread_errors,))


class Many(Scenario):
    """dictionaries made by several threads, while the cleanup thread runs"""
    name = 'many'
    weight = 1

    def gen(self, rng):
        return {'progs': [[[rng.choice(['e', 'e', 's']), rng.choice([0, 0, 0, 1, 4.999, 5, 5.0, 5.001])]
                           for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        keep, refs = [], []

        def client(prog):
            for k, delay in prog:
                if delay:
                    time.sleep(delay)
                c = Cell([1])
                refs.append(weakref.ref(c))
                if k == 'e':
                    d = ExpiringEntryDict(1.0, external_cleanup=True)
                    d['x'] = c
                else:
                    d = SelfCleaningDefaultDict(list)
                    d['x'] = c
                    c.clear()
                keep.append(d)
                c = d = None

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        time.sleep(13 + sim.stall_total)
        n = sum(ref() is not None for ref in refs)
        if n:
            raise Violation('not-cleaned', '%d of %d dictionaries were not cleaned in the background' % (n, len(refs)))
        if sim.thread_errors:
            raise Violation('background-thread', 'the cleanup thread has died: %r' % (sim.thread_errors,))


SCENARIOS = [Expiring(), SelfCleaning(), Many()]
