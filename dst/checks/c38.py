"""C38 time heaps as a scheduling service"""
import copy
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, join_all, spawn

from satella.coding.structures import TimeBasedHeap, TimeBasedSetHeap


class Job:
    """a thing that can be hashed and compared for equality, and nothing more"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Job) and other.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Job(%d)' % self.k


class ClockFailed(Exception):
    pass


class Crash(Exception):
    """of a consumer, in the middle of the items due"""


FALSY = ['', (), 0, 'name', (1, 2), None]


class Heaps(Scenario):
    name = 'heaps'

    def gen(self, rng):
        def item():
            return rng.randint(0, 9)

        def op():
            k = rng.choice(['put'] * 6 + ['put_now'] * 4 + ['due'] * 6 + ['sleep'] * 3 + ['remove', 'remove', 'pop_item', 'pop_ts', 'get_ts', 'get_ts', 'pop',
                                                                             'peek', 'iter', 'items', 'copy', 'deepcopy', 'filter', 'push', 'many', 'jump', 'fail'])
            return {'put': ['put', rng.choice([-1.0, 0, 0, 0.5, 0.5, 1.0, 2.0, 30.0]), item()],
                    'put_now': ['put_now', item()],
                    # how many are taken before the consumer goes away, what is put while it goes through them, explicit time
                    'due': ['due', rng.choice([None, None, None, 0, 1, 2]), rng.choice([None, None, [rng.randint(0, 2), rng.choice([-1.0, 0.5, 5.0]), item()]]),
                            rng.choice([None, None, None, 0, 1.0, -1.0]), rng.random() < 0.3],
                    'sleep': ['sleep', rng.choice([0, 0.1, 0.5, 1.0, 3.0, 40.0])],
                    'jump': ['jump', rng.choice([-5.0, -0.5, 0.5, 10.0])],
                    'many': ['many', [[rng.choice([-1.0, 0.5, 0.7, 3.0]), item()] for _ in range(rng.randint(0, 4))]],
                    'push': ['push', rng.choice([-1.0, 0.5, 3.0]), item()],
                    'pop_ts': ['pop_ts', item()],
                    'filter': ['filter', rng.randint(1, 3), rng.choice([None, None, 1.0])],
                    }.get(k, [k, item()])
        clock = rng.choice(['own', 'own', 'own', 'default', 'none', 'wall'])
        return {'set': rng.random() < 0.55, 'clock': clock, 'falsy': rng.random() < 0.3,
                'progs': [[op() for _ in range(rng.randint(1, 25))] for _ in range(rng.choice([1, 1, 2, 3]))],
                'sched': gen_sched(rng, jumps=clock != 'wall')}     # the program makes its own clock jump

    def run(self, sim, p):
        self.p, self.sim = p, sim
        self.offset = 0.0
        self.failing = False
        self.asked = []
        kw = {}
        if p['clock'] == 'own':
            kw['default_clock_source'] = self.own_clock
        elif p['clock'] == 'wall':
            kw['default_clock_source'] = time.time
        elif p['clock'] == 'none' and p['set']:
            kw['default_clock_source'] = None
        self.clock = {'own': lambda: time.monotonic() + self.offset, 'wall': time.time}.get(p['clock'], time.monotonic)
        self.heap = (TimeBasedSetHeap if p['set'] else TimeBasedHeap)(**kw)
        self.model = []     # of (timestamp, item)
        self.uniq = 0
        self.lock = threading.Lock()
        join_all([spawn(sim, self.client, ops) for ops in p['progs']])
        with self.lock:
            self.final()

    def own_clock(self):
        if self.failing:
            self.failing = False
            self.sim.fault('clock')
            raise ClockFailed()
        self.asked.append(time.monotonic() + self.offset)
        return self.asked[-1]

    def item(self, i):
        if self.p['falsy'] and i < len(FALSY):
            return FALSY[i]
        return Job(i)

    def client(self, ops):
        for op in ops:
            if op[0] == 'sleep':
                time.sleep(op[1])
                continue
            with self.lock:
                self.asked = []
                self.op(*op)
                self.check()

    # --- model

    def m_put(self, ts, item):
        if self.p['set']:
            self.model = [e for e in self.model if e[1] != item]
        self.model.append((ts, item))

    def m_pop(self, got, what, less=None):
        if not isinstance(got, tuple) or len(got) != 2:
            raise Violation('shape', '%s gave %r' % (what, got))
        ts, it = got
        if not any(e[0] == ts and e[1] == it for e in self.model):
            raise Violation('invented', '%s gave %s at %.3f, which is not there' % (what, it, ts - self.sim.base))
        if less is not None and not ts < less:
            raise Violation('early', '%s gave %s %.6f s before its time' % (what, it, ts - less))
        self.m_del(ts, it)

    def m_del(self, ts, it):
        for i, e in enumerate(self.model):
            if e[0] == ts and e[1] == it:
                del self.model[i]
                return
        raise Violation('invented', '%s at %s is not there' % (it, ts))

    def check(self):
        h = self.heap
        if len(h) != len(self.model) or bool(h) != bool(self.model):
            raise Violation('size', '%d items, expected %d' % (len(h), len(self.model)))
        same(list(h.items()), [e[1] for e in self.model], 'items()')
        if self.p['set']:
            for ts, it in self.model:
                try:
                    got = h.get_timestamp(it)
                except ValueError:
                    raise Violation('timestamp', 'the timestamp of %s is not known' % (it,))
                if got != ts:
                    raise Violation('timestamp', '%s has timestamp %s, expected %s' % (it, got, ts))

    def final(self):
        """everything comes out, once, in order"""
        left = len(self.model)
        try:
            last = None
            for got in self.heap.pop_less_than(1e12):
                if last is not None and got[0] < last:
                    raise Violation('order', 'items come out unordered')
                last = got[0]
                self.m_pop(got, 'pop_less_than')
        except (KeyError, IndexError, TypeError, ValueError) as e:
            raise Violation('error', 'pop_less_than raised %r' % e)
        if self.model:
            raise Violation('lost', '%d items of %d never came out' % (len(self.model), left))

    # --- operations

    def op(self, kind, *a):
        try:
            getattr(self, 'op_' + kind)(*a)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            raise Violation('error', '%s raised %r' % (kind, e))

    def op_jump(self, d):
        self.sim.fault('clock-jump')
        self.offset += d

    def op_fail(self, i):
        if self.p['clock'] != 'own':
            return
        for what in (lambda: self.heap.put(self.item(i)), lambda: list(self.heap.pop_less_than())):
            self.failing = True
            try:
                what()
            except ClockFailed:
                pass
            else:
                raise Violation('clock', 'the error of the clock was not raised')
            self.failing = False
            self.check()

    def op_put(self, d, i):
        ts = self.clock() + d if d else round(self.clock())
        self.heap.put(ts, self.item(i))
        self.m_put(ts, self.item(i))

    def op_put_now(self, i):
        before = self.clock()
        self.heap.put(self.item(i))
        after = self.clock()
        new = [e for e in self.heap.iter_ascending() if e[1] == self.item(i)]
        if self.p['clock'] == 'own':
            if len(self.asked) != 1:
                raise Violation('clock', 'the clock was asked %d times' % len(self.asked))
            before = after = self.asked[0]
        if not self.p['set']:
            for e in self.model:
                if e in new:
                    new.remove(e)
        new = [e for e in new if before <= e[0] <= after]
        if not new:
            raise Violation('timestamp', '%s was not put with the time of the clock' % (self.item(i),))
        self.m_put(new[-1][0], self.item(i))

    def ts_once(self, d):
        self.uniq += 1
        return self.clock() + d + self.uniq * 0.00013

    def op_push(self, d, i):
        ts = self.ts_once(d)
        self.heap.push((ts, self.item(i)))
        self.m_put(ts, self.item(i))

    def op_many(self, l):
        l = [(self.ts_once(d), self.item(i)) for d, i in l]
        self.heap.push_many(iter(l))
        for ts, it in l:
            self.m_put(ts, it)

    def op_due(self, take, reput, explicit, crash):
        before = self.clock()
        if explicit is None:
            it = self.heap.pop_less_than()
        else:
            # an exact timestamp of something that is there, perhaps, which is then not due
            less = self.clock() + explicit if explicit or not self.model else sorted(e[0] for e in self.model)[len(self.model) // 2]
            it = self.heap.pop_less_than(less)
        n = 0
        try:
            while take is None or n < take:
                try:
                    got = next(it)
                except StopIteration:
                    got = None
                lo = hi = None
                if explicit is not None:
                    lo = hi = less
                elif self.p['clock'] == 'own':
                    if len(self.asked) != 1:
                        raise Violation('clock', 'the clock was asked %d times' % len(self.asked))
                    lo = hi = self.asked[0]
                else:
                    lo, hi = before, self.clock()
                first = min((e[0] for e in self.model), default=None)
                if got is None:
                    if first is not None and first < lo:
                        raise Violation('late', 'an item due %.6f s ago was not given' % (lo - first))
                    return
                if first is None or got[0] != first:
                    raise Violation('order', 'got an item of %s when the first is of %s' % (got[0], first))
                self.m_pop(got, 'pop_less_than', hi)
                self.check()
                if reput and reput[0] == n:
                    ts = self.clock() + reput[1]
                    self.heap.put(ts, self.item(reput[2]))
                    self.m_put(ts, self.item(reput[2]))
                n += 1
                if n > 500:
                    raise Violation('endless', 'pop_less_than does not end')
            if crash:
                self.sim.fault('consumer-crash')
                it.throw(Crash())
        except Crash:
            pass

    def op_remove(self, i):
        self.heap.remove(self.item(i))
        self.model = [e for e in self.model if e[1] != self.item(i)]

    def op_pop_item(self, i):
        there = any(e[1] == self.item(i) for e in self.model)
        try:
            got = self.heap.pop_item(self.item(i))
        except ValueError:
            if there:
                raise Violation('not-found', 'pop_item did not find %s' % (self.item(i),))
            return
        if not there or got[1] != self.item(i):
            raise Violation('invented', 'pop_item(%s) gave %r' % (self.item(i), got))
        self.m_pop(got, 'pop_item')

    def op_pop_ts(self, i):
        if not self.model:
            return
        ts = self.model[i % len(self.model)][0] if i else -7
        try:
            got = self.heap.pop_timestamp(ts)
        except ValueError:
            if i:
                raise Violation('not-found', 'pop_timestamp did not find it')
            return
        self.m_del(ts, got)

    def op_get_ts(self, i):
        want = [e[0] for e in self.model if e[1] == self.item(i)]
        try:
            got = self.heap.get_timestamp(self.item(i))
        except ValueError:
            if want:
                raise Violation('timestamp', 'the timestamp of %s is not known' % (self.item(i),))
            return
        if got not in want and (want or self.p['set']):
            raise Violation('timestamp', '%s has timestamp %s, expected any of %s' % (self.item(i), got, want))
        if not want and got is not None:
            raise Violation('timestamp', '%s is not there and has a timestamp' % (self.item(i),))

    def op_pop(self, i):
        try:
            got = self.heap.pop()
        except IndexError:
            if self.model:
                raise Violation('empty', 'pop() found nothing')
            return
        if got[0] != min((e[0] for e in self.model), default=None):
            raise Violation('order', 'pop() gave an item that is not the first')
        self.m_pop(got, 'pop')

    def op_peek(self, i):
        if not hasattr(self.heap, 'peek_closest'):
            return
        try:
            got = self.heap.peek_closest()
        except IndexError:
            if self.model:
                raise Violation('empty', 'peek_closest() found nothing')
            return
        if got[0] != min((e[0] for e in self.model), default=None) or got not in self.model:
            raise Violation('order', 'peek_closest() gave %r' % (got,))

    def op_iter(self, i):
        up, down = list(self.heap.iter_ascending()), list(self.heap.iter_descending())
        if [e[0] for e in up] != sorted(e[0] for e in self.model) or [e[0] for e in down] != sorted((e[0] for e in self.model), reverse=True):
            raise Violation('order', 'iteration is not ordered')
        same(up, self.model, 'iter_ascending')
        same(down, self.model, 'iter_descending')

    def op_items(self, i):
        same(list(self.heap), self.model, 'iteration')

    def op_copy(self, i, how=copy.copy):
        other = how(self.heap)
        if type(other) is not type(self.heap):
            raise Violation('copy', 'a copy of another type')
        old, model = self.heap, list(self.model)
        # the copy goes its own way ...
        self.heap = other
        self.check()
        if i % 2:
            self.op_put(0.5, i)
            self.op_remove((i + 1) % 10)
        self.op_put_now(i)
        self.asked = []
        if i % 3 == 0:
            self.final()
        else:
            self.op_due(None, None, None, False)
        copied = self.heap, self.model
        # ... and nothing happens to the original
        self.heap, self.model = old, model
        self.check()
        if i % 4 < 2:
            self.heap, self.model = copied

    def op_deepcopy(self, i):
        self.op_copy(i, copy.deepcopy)

    def op_filter(self, k, shift):
        keep = lambda e: key(e[1]) % (k + 1) != 0
        keep_m = lambda e: key(e[1]) % (k + 1) != 0
        if shift is None:
            self.heap.filter_map(keep)
        else:
            self.heap.filter_map(keep, lambda e: (e[0] + shift + key(e[1]) % 7 * 0.01 + 1e-5 * (key(e[1]) % 1009), e[1]))
        self.model = [e for e in self.model if keep_m(e)]
        if shift is not None:
            self.model = [(e[0] + shift + key(e[1]) % 7 * 0.01 + 1e-5 * (key(e[1]) % 1009), e[1]) for e in self.model]


def key(it):
    return it.k if isinstance(it, Job) else FALSY.index(it)


def same(a, b, what):
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if x == y:
                del b[i]
                break
        else:
            raise Violation('content', '%s has %r, which should not be there' % (what, x))
    if b:
        raise Violation('content', '%s lacks %r' % (what, b[0]))


SCENARIOS = [Heaps()]
