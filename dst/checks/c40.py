"""C40 wrappers of generators and iteration: driven by several consumers, that stop, fail, go away"""
import collections
import operator
import threading
import time
import warnings

from ..core import Violation
from ..runner import Scenario, gen_sched, join_all, spawn

from satella.coding import DictDeleter, ListDeleter, SelfClosingGenerator, chain, hint_with_length, run_when_generator_completes
from satella.coding.generators import RunActionAfterGeneratorCompletes
from satella.coding.sequences import ConstruableIterator, walk
from satella.coding.structures import PushIterable

warnings.simplefilter('ignore')


class Thrown(Exception):
    """into a generator"""


class Failed(Exception):
    """of a generator"""


class ActionFailed(Exception):
    pass


class Crash(Exception):
    """of a block"""


def body(script, log, naps=True):
    try:
        for i, st in enumerate(script):
            if st[0] == 'yield':
                try:
                    log.append(('got', i, (yield st[1])))
                except Thrown as e:
                    log.append(('threw', i, e.args))
                    if st[2] == 'propagate':
                        raise
                    if st[2] == 'return':
                        return i
                    if st[2] == 'other':
                        raise Failed(i)
            elif st[0] == 'nap':
                if naps:
                    time.sleep(st[1])
            else:
                log.append(('fails', i))
                raise Failed(i)
        log.append('end')
        return 'done'
    except GeneratorExit:
        log.append('exit')
        raise


def outer(gen, log):
    r = yield from gen
    log.append(('result', r))
    return r


def drive(gen, op):
    """-> outcome"""
    try:
        if op[0] == 'next':
            return 'value', next(gen)
        if op[0] == 'send':
            return 'value', gen.send(op[1])
        if op[0] == 'throw':
            return 'value', gen.throw(Thrown(op[1]))
        if op[0] == 'close':
            gen.close()
            return 'closed',
        if op[0] == 'for':
            got = []
            for x in gen:
                got.append(x)
            return 'all', got
    except StopIteration as e:
        return 'stop', e.value
    except (Failed, Thrown, ActionFailed, Crash) as e:
        return 'raised', type(e).__name__, e.args
    except Exception as e:
        return 'raised', type(e).__name__


class Generators(Scenario):
    name = 'generators'
    weight = 3

    def gen(self, rng):
        script = []
        for i in range(rng.randint(0, 7)):
            script.append(rng.choice([['yield', rng.choice([100 + i, 100 + i, 100 + i, None, 0]), rng.choice(['propagate', 'swallow', 'swallow', 'return', 'other'])]] * 8
                                     + [['nap', rng.choice([0, 0.01])]] + [['fail']] * (rng.random() < 0.4)))
        kind = rng.choice(['action', 'action', 'action', 'closing', 'closing', 'hint'])

        def op():
            k = rng.choice(['next'] * 8 + ['send'] * 3 + (['throw'] * 2 if kind == 'action' else []) + ['for']
                           + ['close'] * (1 if kind != 'closing' else 0) + ['hint', 'hint'] * (kind == 'hint')
                           + ['finish'] * (kind == 'closing'))
            return {'send': ['send', rng.choice([None, 1, 2, 0, '', 'x'])], 'throw': ['throw', rng.randint(1, 9)],
                    'finish': ['finish', rng.choice(['close', 'close', 'with', 'with_exc', 'drop'])]}.get(k, [k])
        return {'script': script, 'kind': kind, 'outer': rng.random() < 0.3, 'action_fails': rng.random() < 0.15, 'func': rng.random() < 0.5,
                'factory': rng.random() < 0.5, 'subclass': rng.random() < 0.3,
                'progs': [[op() for _ in range(rng.randint(1, 12))] for _ in range(rng.choice([1, 1, 2, 3]))],
                'sched': gen_sched(rng)}

    def run(self, sim, p):
        self.sim, self.p = sim, p
        self.lock = threading.Lock()
        self.log, self.twin_log = [], []
        self.calls = []
        self.made = 0
        self.asked = 0
        self.over = False        # closed, failed or completed
        self.expect = 0
        self.gone = False
        self.make()
        join_all([spawn(sim, self.client, ops) for ops in p['progs']])
        with self.lock:
            if not self.gone:
                self.finish('drop')

    def make(self):
        p = self.p
        real = body(p['script'], self.log)
        self.twin = body(p['script'], self.twin_log, False)

        def function(tag, k=None):
            if tag != 'a' or k != 5:
                raise Violation('arguments', 'the generator function got %r, %r' % (tag, k))
            self.made += 1
            return real
        if p['kind'] == 'action':
            if p['subclass']:
                class Own(RunActionAfterGeneratorCompletes):
                    def action_to_run(slf, *a, **kw):
                        self.action(*a, **kw)
                self.g = Own(real, 1, x=2)
            else:
                self.g = run_when_generator_completes(real, self.action, 1, x=2)
            if p['outer']:
                self.g = outer(self.g, self.log)
                self.twin = outer(self.twin, self.twin_log)
        elif p['kind'] == 'closing':
            if p['func']:
                wrapper = SelfClosingGenerator(function)
                self.g = wrapper('a', k=5)
                del wrapper
            else:
                self.g = SelfClosingGenerator(real)
        else:
            kw = {'length': None, 'length_factory': self.factory} if p['factory'] else {'length': 17}
            if p['func']:
                try:
                    self.g = hint_with_length(function, **kw)('a', k=5)
                except ValueError as e:
                    raise Violation('hint', 'calling a generator function with a length hint raised %r' % e)
            else:
                self.g = hint_with_length(real, **kw)
        if self.made != (1 if p['func'] and p['kind'] != 'action' else 0):
            raise Violation('called', 'the generator function was called %d times' % self.made)

    def factory(self):
        self.asked += 1
        return 40 + self.asked

    def action(self, *a, **kw):
        self.calls.append((a, kw))
        if not self.in_op_done:
            raise Violation('early', 'the action ran before the generator was done')
        if self.p['action_fails']:
            self.sim.fault('action')
            raise ActionFailed(7)

    def client(self, ops):
        for op in ops:
            with self.lock:
                if self.gone:
                    return
                self.step(op)
            if op[0] == 'next':
                time.sleep(0)

    def step(self, op):
        p = self.p
        if op[0] == 'finish':
            self.finish(op[1])
            return
        if op[0] == 'hint':
            before = self.asked
            n = operator.length_hint(self.g)
            want = 40 + before + 1 if p['factory'] else 17
            if n != want or (p['factory'] and self.asked != before + 1):
                raise Violation('hint', 'the hint was %r, expected %r' % (n, want))
            return
        if op[0] in ('throw', 'close') or (op[0] == 'send' and op[1] is not None):
            self.sim.fault(op[0])
        # what the generator itself does
        want = drive(self.twin, op)
        done = self.twin.gi_frame is None
        completed = (want[0] == 'stop' or want[0] == 'all') and not self.over
        self.in_op_done = done
        if done:
            self.over = True
        n = len(self.calls)
        if completed and p['kind'] == 'action':
            self.expect += 1
            if p['action_fails']:
                want = ('raised', 'ActionFailed', (7,))
        got = drive(self.g, op)
        if got != want:
            raise Violation('outcome', '%s gave %r, the generator itself gives %r' % (op, got, want))
        self.compare(op, completed and p['kind'] == 'action' and p['action_fails'])
        if len(self.calls) != self.expect:
            raise Violation('action', 'after %s (%s) the action had run %d times, expected %d' % (op, want[0], len(self.calls), self.expect))
        if len(self.calls) > n and self.calls[-1] != ((1,), {'x': 2}):
            raise Violation('arguments', 'the action got %r' % (self.calls[-1],))

    def compare(self, op, action_failed=False):
        twin = self.twin_log
        if action_failed and self.p['outer']:
            twin[:] = [x for x in twin if x == 'end' or x == 'exit' or x[0] != 'result']    # the outer generator got the exception instead
        if self.log != twin:
            raise Violation('lost', 'after %s the generator has seen %r, expected %r' % (op, self.log[-3:], twin[-3:]))

    def finish(self, how):
        """carry a self-closing one to its end, or let go of another one"""
        self.gone = True
        self.sim.fault('finish-' + how)
        if self.p['kind'] != 'closing':
            if self.p['kind'] == 'action':
                n = len(self.calls)
                self.in_op_done = True
                self.g = None
                if len(self.calls) != n:
                    raise Violation('action', 'the action ran as the generator was dropped')
            return
        want = None
        try:
            while True:
                next(self.twin)
        except StopIteration:
            pass
        except Failed as e:
            want = ('Failed', e.args)
        got = None
        try:
            if how == 'close':
                self.g.close()
                self.g.close()
            elif how == 'with':
                with self.g as g:
                    if g is not self.g:
                        raise Violation('with', 'the context manager gave another object')
                    g = None
            elif how == 'with_exc':
                try:
                    with self.g:
                        raise Crash(3)
                except Crash:
                    got = 'crash'
                if got != 'crash' and want is None:
                    raise Violation('swallowed', 'the exception of the block was swallowed')
                got = None
            self.g = None
        except Failed as e:
            got = ('Failed', e.args)
        self.g = None
        if got != want and not (how == 'drop' and got is None):
            raise Violation('outcome', 'closing gave %r, expected %r' % (got, want))
        self.compare(how)


class Item:
    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        raise RuntimeError('these do not compare')

    __hash__ = None

    def __repr__(self):
        return 'Item(%d)' % self.k


class Deleters(Scenario):
    name = 'deleters'
    weight = 2

    def gen(self, rng):
        def prog():
            n = rng.choice([0, 1, 2, 3, 5, 8])
            if rng.random() < 0.6:
                ops = [[rng.choice(['next'] * 8 + ['delete'] * 6 + ['prev'] * 5 + ['value', 'append', 'rest', 'copy'])] for _ in range(rng.randint(0, 30))]
                return ['list', n, rng.choice(['forward', 'backward', 'reversed', 'rereversed']), rng.choice(['with', 'with', 'exc', 'manual']),
                        rng.choice(['list', 'list', 'user']), rng.choice([None, None, [rng.randint(2, 3), rng.randint(0, 1)]]), ops]
            loops = [[rng.choice(['keys', 'values', 'items', 'iter']), rng.randint(1, 3), rng.choice([None, None, rng.randint(0, n)]),
                      rng.choice([None, None, None, 'exc', 'change', 'add'])] for _ in range(rng.randint(0, 3))]
            return ['dict', n, rng.choice(['dict', 'dict', 'ordered', 'user']), rng.randint(1, 2), loops]
        return {'progs': [[prog() for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([1, 2, 3]))], 'sched': gen_sched(rng)}

    def run(self, sim, p):
        self.sim = sim
        join_all([spawn(sim, self.client, ops) for ops in p['progs']])

    def client(self, ops):
        for op in ops:
            getattr(self, 'do_' + op[0])(*op[1:])

    def do_list(self, n, direction, end, typ, first, ops):
        orig = [Item(i) for i in range(n)]
        lst = list(orig) if typ == 'list' else collections.UserList(orig)
        model = list(orig)
        marked = {}     # position
        back = direction in ('backward', 'reversed')
        if direction == 'backward':
            ld = ListDeleter(lst, 1)
        elif direction == 'reversed':
            ld = reversed(ListDeleter(lst))
        elif direction == 'rereversed':
            ld = reversed(reversed(ListDeleter(lst)))
        else:
            ld = ListDeleter(lst)
        cur = [n if back else -1]

        def on_item():
            return 0 <= cur[0] < len(model)

        def move(what, fn, step):
            cur[0] = max(-1, min(len(model), cur[0] + step))
            want = model[cur[0]] if on_item() else StopIteration
            try:
                got = fn()
            except StopIteration:
                got = StopIteration
            if got is not want:
                raise Violation('cursor', '%s (%s) gave %r, expected %r, item %d of %d' % (what, direction, got, want, cur[0], len(model)))
            return want

        def work():
            nonlocal ld
            if first:
                # a for loop; it starts anew
                k, r = first
                it = iter(ld)
                if it is not ld:
                    raise Violation('iter', 'iterating gave another object')
                while move('for', lambda: next(it), -1 if back else 1) is not StopIteration:
                    if model[cur[0]].k % k == r:
                        ld.delete()
                        marked[cur[0]] = True
            for op in ops:
                op = op[0]
                if op == 'next':
                    move('next()', ld.next, -1 if back else 1)
                elif op == 'prev':
                    move('prev()', ld.prev, 1 if back else -1)
                elif op == 'rest':
                    while move('next()', ld.next, -1 if back else 1) is not StopIteration:
                        pass
                elif op == 'append':
                    if cur[0] < len(model) and (cur[0] != -1 or not back):
                        it = Item(len(model))
                        model.append(it)
                        lst.append(it)
                elif not on_item():
                    continue
                elif op == 'delete':
                    ld.delete()
                    marked[cur[0]] = True
                elif op == 'value':
                    if ld() is not model[cur[0]] or ld.value is not model[cur[0]]:
                        raise Violation('value', 'the current entry is %r, expected %r' % (ld(), model[cur[0]]))
                elif op == 'copy' and end == 'manual':
                    ld = ld.__copy__()
                if len(lst) != len(model):
                    raise Violation('early', 'entries were removed before the end')

        if end == 'manual':
            work()
            ld.remove_items()
            ld.remove_items()
        else:
            try:
                with ld as l2:
                    if l2 is not ld:
                        raise Violation('with', 'the context manager gave another object')
                    work()
                    if end == 'exc':
                        self.sim.fault('exception')
                        raise Crash()
            except Crash:
                pass
            else:
                if end == 'exc':
                    raise Violation('swallowed', 'the exception of the block was swallowed')
        want = [x for i, x in enumerate(model) if i not in marked]
        if [x.k for x in lst] != [x.k for x in want]:
            raise Violation('removed', 'left are %r, expected %r of %d' % (list(lst), want, len(model)))

    def do_dict(self, n, typ, times, loops):
        d = {'dict': dict, 'ordered': collections.OrderedDict, 'user': collections.UserDict}[typ]((('k', i), i) for i in range(n))
        model = dict(d)
        dd = DictDeleter(d)
        for _ in range(times):
            marked = set()
            try:
                with dd as ld:
                    for mode, k, stop, what in loops:
                        seen = []
                        for x in (ld if mode == 'iter' else getattr(ld, mode)()):
                            pos = list(model)[len(seen)]
                            want = {'keys': pos, 'values': model[pos], 'items': (pos, model[pos])}.get(mode)
                            if mode != 'iter' and x != want:
                                raise Violation('iteration', '%s() gave %r, expected %r' % (mode, x, want))
                            seen.append(pos)
                            if pos[1] % k == 0:
                                ld.delete()
                                marked.add(pos)
                            if what == 'change':
                                d[pos] = model[pos] = model[pos] + 100
                            if len(seen) == stop:
                                if what == 'exc':
                                    self.sim.fault('exception')
                                    raise Crash()
                                break
                        else:
                            if len(seen) != len(model):
                                raise Violation('iteration', '%d entries of %d seen' % (len(seen), len(model)))
                        if what == 'add':
                            d[('k', 1000 + len(d))] = 5
                            model[('k', 1000 + len(model))] = 5
                    if len(d) != len(model):
                        raise Violation('early', 'entries were removed before the end')
            except Crash:
                pass
            for x in marked:
                del model[x]
            if list(d.items()) != list(model.items()):
                raise Violation('removed', 'left are %r, expected %r' % (dict(d), model))


class Feeds(Scenario):
    name = 'feeds'
    weight = 1

    def gen(self, rng):
        kind = rng.choice(['construable', 'construable', 'push', 'push', 'walk', 'chain'])
        self.n = 0

        def op():
            k = rng.choice(['next'] * 6 + (['add', 'add', 'add_immediate', 'add_many', 'add_many_immediate', 'hint'] if kind == 'construable'
                                           else ['push', 'push', 'push_left', 'push_left']))
            m = [self.item() for _ in range(rng.randint(0, 4))]
            return {'next': ['next'], 'hint': ['hint'], 'add_many': ['add_many', m, rng.random() < .5],
                    'add_many_immediate': ['add_many_immediate', m, rng.random() < .5]}.get(k, [k, self.item()])

        def tree(depth):
            return [tree(depth - 1) if depth and rng.random() < 0.5 else rng.choice([self.item(), []]) for _ in range(rng.randint(0, 3))]
        return {'kind': kind, 'start': [self.item() for _ in range(rng.randint(0, 5))], 'fails': rng.choice([None, None, rng.randint(0, 4)]),
                'tree': tree(3), 'deep': rng.random() < .5, 'leaves': rng.random() < .5, 'none': rng.random() < .5,
                'elems': [[rng.choice(['item', 'list', 'gen', 'failing', 'badly', 'nothing']), rng.randint(0, 3)] for _ in range(rng.randint(0, 5))],
                'progs': [[op() for _ in range(rng.randint(1, 12))] for _ in range(rng.choice([1, 2, 3]))], 'sched': gen_sched(rng)}

    def item(self):
        self.n += 1
        return None if self.n == 3 else self.n - 1

    def run(self, sim, p):
        self.sim, self.p = sim, p
        if p['kind'] == 'walk':
            join_all([spawn(sim, self.walk) for _ in range(2)])
            return
        if p['kind'] == 'chain':
            join_all([spawn(sim, self.chain) for _ in range(2)])
            return
        self.lock = threading.Lock()
        self.model = collections.deque(p['start'] if p['kind'] == 'construable' else ())
        self.source = collections.deque(p['start'])
        self.failed = False
        self.feed = ConstruableIterator(p['start']) if p['kind'] == 'construable' else PushIterable(Flaky(p['start'], p['fails']))
        join_all([spawn(sim, self.client, ops) for ops in p['progs']])
        with self.lock:
            while self.do('next') is not StopIteration:
                pass

    def client(self, ops):
        for op in ops:
            with self.lock:
                self.do(*op)

    def do(self, kind, *a):
        m, f = self.model, self.feed
        if kind == 'next':
            return self.next()
        if kind == 'hint':
            if operator.length_hint(f) != len(m):
                raise Violation('hint', 'the length hint is %d, %d items are there' % (operator.length_hint(f), len(m)))
        elif kind in ('add_many', 'add_many_immediate'):
            items = iter(a[0]) if a[1] else a[0]
            getattr(f, kind)(items)
            if kind == 'add_many':
                m.extend(a[0])
            else:
                m.extendleft(reversed(a[0]))
        else:
            getattr(f, kind)(a[0])
            # push: given first; push_left: given last of what was pushed
            (m.append if kind in ('add', 'push_left') else m.appendleft)(a[0])

    def next(self):
        p = self.p
        want = StopIteration
        if self.model:
            want = self.model.popleft()
        elif p['kind'] == 'push':
            if p['fails'] == len(p['start']) - len(self.source) and not self.failed:
                self.failed = True
                want = Failed
                self.sim.fault('source')
            elif self.source:
                want = self.source.popleft()
        try:
            got = next(self.feed) if p['kind'] == 'construable' or len(self.model) & 1 else self.feed.pop()
        except StopIteration:
            got = StopIteration
        except Failed:
            got = Failed
        if got != want:
            raise Violation('order', 'got %r, expected %r' % (got, want))
        return got

    def chain(self):
        elems, want = [], []
        fails = None
        for i, (kind, n) in enumerate(self.p['elems']):
            mine = [(i, j) for j in range(n)]
            elem = {'item': i, 'list': mine, 'gen': (x for x in mine), 'failing': raising(mine, Failed), 'badly': raising(mine, TypeError), 'nothing': ()}[kind]
            elems.append(elem)
            if fails is None and kind != 'nothing':
                want.extend(mine if kind != 'item' else [i])
                fails = {'failing': Failed, 'badly': TypeError}.get(kind)
        got = []
        error = None
        try:
            for x in chain(*elems):
                got.append(x)
        except (Failed, TypeError) as e:
            self.sim.fault('source')
            error = type(e)
        if got != want or error is not fails:
            raise Violation('chain', '%r gave %r and %r, expected %r and %r' % (self.p['elems'], got, error, want, fails))

    def walk(self):
        p = self.p
        def children(x):
            if not isinstance(x, list):
                return None if p['none'] else []
            return x

        def deep(x):
            for c in children(x) or ():
                if not (p['leaves'] and children(c)):
                    yield c
                yield from deep(c)

        def broad(x):
            q = collections.deque(children(x))
            while q:
                c = q.popleft()
                q.extend(children(c) or ())
                if not (p['leaves'] and children(c)):
                    yield c
        want = list(deep(p['tree']) if p['deep'] else broad(p['tree']))
        got = list(walk(p['tree'], children, deep_first=p['deep'], leaves_only=p['leaves']))
        if got != want:
            raise Violation('walk', 'walking %r gave %r, expected %r' % (p['tree'], got, want))


def raising(items, exc):
    yield from items
    raise exc()


class Flaky:
    """an iterator that fails once and goes on afterwards"""

    def __init__(self, items, fails):
        self.items = collections.deque(items)
        self.left = fails

    def __iter__(self):
        return self

    def __next__(self):
        if self.left == 0:
            self.left = None
            raise Failed()
        if not self.items:
            raise StopIteration()
        if self.left is not None:
            self.left -= 1
        return self.items.popleft()


SCENARIOS = [Generators(), Deleters(), Feeds()]
