"""C36 decorators that handle exceptions, and tracing, shared by threads and nested calls"""
import logging
import sys
import time
from concurrent.futures import CancelledError, Future

import opentracing

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.cassandra import parallel_for, wrap_future
from satella.cassandra.common import ResponseFuture
from satella.coding import log_exceptions, reraise_as, rethrow_as, silence_excs
from satella.opentracing import trace_function, trace_future


class A(Exception):
    pass


class A1(A):
    pass


class B(Exception):
    pass


class C(Exception):
    pass


class D(Exception):
    pass


class X(BaseException):
    pass


EXC = {'A': A, 'A1': A1, 'B': B, 'C': C, 'D': D, 'X': X}
KINDS = ['rethrow', 'rethrow2', 'silence', 'silence', 'silence_ret', 'silence_zero', 'silence_fac', 'silence_fac', 'reraise', 'reraise_none', 'log', 'log', 'log_swallow', 'log_one', 'log_seq', 'log_all', 'trace']


def gen_node(rng, depth, ndec, gens):
    n = {'d': rng.randrange(ndec), 'how': rng.choice(['call', 'call', 'call', 'with', 'gen'] if gens else ['call', 'call', 'call', 'with']),
         'c': [], 'exc': rng.choice([None, None, None, 'A', 'A', 'A1', 'B', 'B', 'C', 'X']), 'pause': rng.choice([0, 0, 0, 0.01]),
         'catch': rng.random() < 0.5, 'ret': rng.randint(1, 999)}
    if depth:
        n['c'] = [gen_node(rng, depth - 1, ndec, gens) for _ in range(rng.randint(0, 2))]
    return n


class Logger:
    def __init__(self, chk):
        self.chk = chk

    def log(self, severity, msg, *a, exc_info=None, **kw):
        if exc_info is True:
            exc_info = sys.exc_info()
        if isinstance(exc_info, tuple):
            exc_info = exc_info[1]
        self.chk.logs[self.chk.sim.cur].append((severity, msg % a if a else msg, exc_info))
        self.chk.sim.yield_point('log')


class Tracer:
    def __init__(self, chk):
        self.chk = chk

    def start_active_span(self, name, child_of=None, references=None, tags=None, start_time=None, ignore_active_span=False, finish_on_close=True):
        chk = self.chk
        if child_of is not None or references is not None or ignore_active_span:
            raise Violation('span', 'not a child of the span around it')

        class Scope:
            def __enter__(self):
                chk.logs[chk.sim.cur].append(('span', name, dict(tags or {})))
                return self

            def __exit__(self, t, v, tb):
                self.close(v)
                return False

            def close(self, v=None):
                if finish_on_close:
                    chk.logs[chk.sim.cur].append(('end', name, v))
        return Scope()


class Shared(Scenario):
    name = 'shared'
    weight = 3

    def gen(self, rng):
        kinds = [rng.choice(KINDS) for _ in range(rng.randint(1, 3))]
        n = rng.randint(1, 3)
        return {'kinds': kinds, 'progs': [[gen_node(rng, rng.randint(0, 3), len(kinds), True) for _ in range(rng.randint(1, 3))] for _ in range(n)],
                'sched': gen_sched(rng, stalls=False)}

    def make(self, kind):
        lg = Logger(self)
        return {'rethrow': lambda: rethrow_as(A, D),
                'rethrow2': lambda: rethrow_as((A, C), (B, D), exception_preprocessor=lambda e: 'was ' + type(e).__name__),
                'silence': lambda: silence_excs(A, B),
                'silence_ret': lambda: silence_excs(A, returns=-5),
                'silence_fac': lambda: silence_excs(B, C, returns_factory=self.factory),
                'silence_zero': lambda: silence_excs(A, returns=0),
                'reraise': lambda: reraise_as((A, B), D, 'told', 7),
                'reraise_none': lambda: reraise_as(B, None),
                'log': lambda: log_exceptions(lg, logging.WARNING, '{e!r} {args} {kwargs} {place}', locals_={'place': 'here', 'other': 'x'}),
                'log_swallow': lambda: log_exceptions(lg, logging.ERROR, '{e!r}', exc_types=(A, B), swallow_exception=True),
                'log_one': lambda: log_exceptions(lg, logging.INFO, 'one {e}', locals_={'e': 'mine'}, exc_types=B),
                'log_seq': lambda: log_exceptions(lg, logging.INFO, 'one {e}', locals_={'e': 'mine'}, exc_types=[B]),
                'log_all': lambda: log_exceptions(lg, logging.WARNING, '{e!r} {args} {kwargs} {place}', locals_={'place': 'here'}, exc_types=None),
                'trace': lambda: trace_function(self.tracer, 'span', tags={'const': 1} if self.const else None,
                                                tags_factory=[('n', lambda node, path: path)])}[kind]()

    def factory(self):
        self.facts[self.sim.cur] += 1
        return -self.facts[self.sim.cur]

    # ---- what it should do ----
    def expect(self, node, path, out):
        """out gets (log entries); returns ('ret', v) or ('exc', type name, args, cause type)"""
        got = []
        esc = None
        for i, c in enumerate(node['c']):
            r = self.expect(c, path + (i,), out)
            if r[0] == 'exc' and not (node['catch'] and r[1] != 'X'):
                esc = r
                break
            got.append(r[:3])
        if esc is None:
            esc = ('exc', node['exc'], (path,), None) if node['exc'] else None
        kind = self.p['kinds'][node['d']]
        how = node['how']
        if kind == 'trace' and how != 'call' or how == 'gen' and not kind.startswith('log'):
            how = 'plain'
        value = ('ret', (node['ret'], got))
        if how == 'plain':
            return esc or value
        if kind == 'trace':
            out.append(('end', 'span', esc[1] if esc else None))
            return esc or value
        if esc is None:
            return value
        if how == 'gen' and esc:
            value = ('ret', got)
        e = esc[1]
        is_a, is_b, is_c = e in ('A', 'A1'), e == 'B', e == 'C'
        rep = '%s%r' % (e, esc[2]) if len(esc[2]) != 1 else '%s(%r)' % (e, esc[2][0])
        none = ('ret', None)
        if kind == 'rethrow':
            return ('exc', 'D', (rep,), '-') if is_a else esc
        if kind == 'rethrow2':
            return ('exc', 'C', ('was ' + e,), '-') if is_a else ('exc', 'D', ('was ' + e,), '-') if is_b else esc
        if kind == 'silence':
            return none if is_a or is_b else esc
        if kind == 'silence_ret':
            return (('ret', -5) if how == 'call' else none) if is_a else esc
        if kind == 'silence_fac':
            if (is_b or is_c) and how == 'call':
                self.xfacts[self.sim.cur] += 1
                return 'ret', -self.xfacts[self.sim.cur]
            return none if is_b or is_c else esc
        if kind == 'silence_zero':
            return (('ret', 0) if how == 'call' else none) if is_a else esc
        if kind == 'reraise':
            return ('exc', 'D', ('told', 7), e) if is_a or is_b else esc
        if kind == 'reraise_none':
            return none if is_b else esc
        if kind in ('log', 'log_all'):
            if e != 'X':
                args = ('<node>', path) if how != 'with' else ()
                out.append((logging.WARNING, '%s %s {} here' % (rep, args), e))
            return esc
        if kind == 'log_swallow':
            if is_a or is_b:
                out.append((logging.ERROR, rep, e))
                return none if how != 'gen' else ('ret', None)
            return esc
        if is_b:
            out.append((logging.INFO, 'one %s' % (esc[2][0] if len(esc[2]) == 1 else esc[2],), e))
        return esc

    # ---- what it does ----
    def body(self, node, path):
        got = []
        for i, c in enumerate(node['c']):
            try:
                r = ('ret', self.go(c, path + (i,)))
            except Exception as e:
                if not node['catch']:
                    raise
                r = ('exc', type(e).__name__, e.args)
            got.append(r)
        if node['pause']:
            time.sleep(node['pause'])
        else:
            self.sim.yield_point('body')
        if node['exc']:
            raise EXC[node['exc']](path)
        return node['ret'], got

    def go(self, node, path):
        d = node['d']
        kind = self.p['kinds'][d]
        how = node['how']
        if kind == 'trace' and how != 'call' or how == 'gen' and not kind.startswith('log'):
            return self.body(node, path)
        if how == 'call':
            return self.fns[d](Node(node), path)
        if how == 'gen':
            it = self.gens[d](Node(node), path)
            if next(it) != 'first':
                raise Violation('generator', 'the first item is another')
            try:
                x = it.send('hello')
            except StopIteration as e:
                return e.value
            try:
                next(it)
            except StopIteration as e:
                if e.value != 'end':
                    raise Violation('generator', 'a generator returned %r' % (e.value,))
                return x
            raise Violation('generator', 'one item too many')
        with self.decs[d]:
            return self.body(node, path)
        return None

    def run(self, sim, p):
        self.sim, self.p = sim, p
        self.const = p['sched']['seed'] % 2
        self.tracer = Tracer(self)
        self.logs, self.facts, self.xfacts = {}, {}, {}
        self.decs = [self.make(k) for k in p['kinds']]

        def f(node, path):
            """the function"""
            return self.body(node.n, path)

        def g(node, path):
            if (yield 'first') != 'hello':
                raise Violation('generator', 'what was sent to a generator did not come')
            yield self.body(node.n, path)
            return 'end'
        self.fns = [d(f) for d in self.decs]
        self.gens = [d(g) if k.startswith('log') else None for d, k in zip(self.decs, p['kinds'])]
        left = [len(p['progs'])]
        bad = []

        def client(t, prog):
            self.facts[sim.cur] = 0
            self.xfacts[sim.cur] = 0
            for j, node in enumerate(prog):
                log = self.logs[sim.cur] = []
                exp_log = []
                exp = self.expect(node, (t, j), exp_log)
                try:
                    got = ('ret', self.go(node, (t, j)))
                except (Exception, X) as e:
                    if isinstance(e, Violation):
                        raise
                    cause = type(e.__cause__).__name__ if e.__cause__ is not None else None
                    got = ('exc', type(e).__name__, e.args, cause)
                    was = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
                    if exp[0] == 'exc' and exp[3] == '-' and not isinstance(was, (A, B)):
                        bad.append('call %s raised %r, and its reason cannot be told' % ((t, j), e))
                if got[:3] != exp[:3] or got[0] == 'exc' and exp[3] != '-' and got[3] != exp[3]:
                    bad.append('call %s gave %s instead of %s' % ((t, j), got, exp))
                lines = [(x[0], x[1], type(x[2]).__name__ if x[2] is not None else None) for x in log if x[0] != 'span']
                if lines != exp_log:
                    bad.append('call %s logged %s instead of %s' % ((t, j), lines, exp_log))
                spans = [x[2] for x in log if x[0] == 'span']
                for tags in spans:
                    if tags.get('n', (None,))[:2] != (t, j) or (tags.get('const') == 1) != bool(self.const) or len(tags) != 1 + self.const:
                        bad.append('a span of call %s has tags %s' % ((t, j), tags))
                if len({tuple(x['n']) for x in spans if 'n' in x}) != len(spans) or len(spans) != sum(1 for x in log if x[0] == 'end'):
                    bad.append('call %s made spans %s' % ((t, j), spans))
            left[0] -= 1

        for t, prog in enumerate(p['progs']):
            spawn(sim, client, t, prog)
        while left[0]:
            time.sleep(0.01)
        if bad:
            raise Violation('outcome', bad[0])


class Node:
    """printed the same whatever is in it"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "'<node>'"


class Span(opentracing.Span):
    def __init__(self, sim):
        self.sim = sim
        self.tags, self.logged, self.finished = {}, [], 0

    def set_tag(self, k, v):
        self.tags[k] = v
        return self

    def log_kv(self, kv, timestamp=None):
        self.logged.append(kv)
        return self

    def finish(self, finish_time=None):
        self.finished += 1
        self.when = self.sim.seq()


class Driver(ResponseFuture):
    """what the future of the Cassandra driver does"""

    def __init__(self):
        self.clb, self.err = [], []
        self.state = None

    def add_callback(self, f, *a, **kw):
        if self.state is None:
            self.clb.append(f)
        elif self.state[0]:
            f(self.state[1])

    def add_errback(self, f, *a, **kw):
        if self.state is None:
            self.err.append(f)
        elif not self.state[0]:
            f(self.state[1])

    def end(self, ok, v):
        self.state = ok, v
        for f in self.clb if ok else self.err:
            f(v)


class Futures(Scenario):
    name = 'futures'
    weight = 2

    def gen(self, rng):
        n = rng.randint(1, 5)
        return {'progs': [[[rng.choice(['future', 'future', 'driver']), rng.choice(['ok', 'ok', 'exc', 'exc', 'base', 'cancel']), rng.choice([0, 0, 0.001, 0.01, 0.5]),
                            rng.choice([0, 0, 0.001, 0.01])] for _ in range(n)]],
                'query': rng.randint(0, 2), 'none': [rng.choice([True, False, False, 'empty']) for _ in range(n)], 'extra': rng.randint(0, 1),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        specs = p['progs'][0]
        spans, ends = [], {}

        def make(i):
            kind, how, wait, _ = specs[i]
            if kind == 'driver':
                f = Driver()
            else:
                f = Future()

            def ender():
                if wait:
                    time.sleep(wait)
                ends[i] = sim.seq()
                if kind == 'driver':
                    f.end(how == 'ok', ('r', i) if how == 'ok' else (X if how == 'base' else A)(i))
                elif how == 'cancel':
                    f.cancel()
                    f.set_running_or_notify_cancel()
                else:
                    f.set_running_or_notify_cancel()
                    if how == 'ok':
                        f.set_result(('r', i))
                    else:
                        f.set_exception((X if how == 'base' else A)(i))
            spawn(sim, ender)
            return f

        futs = []
        for i, (kind, how, wait, pause) in enumerate(specs):
            f = make(i)
            w = wrap_future(f)
            if kind == 'future' and w is not f:
                raise Violation('wrap', 'a Python future was wrapped')
            if not isinstance(w, Future):
                raise Violation('wrap', 'not a future: %r' % (w,))
            if kind == 'driver' and w.cancel():
                raise Violation('wrap', 'a query that goes on could be cancelled')
            span = Span(sim)
            if pause:
                time.sleep(pause)
            trace_future(w, span)
            spans.append(span)
            futs.append(w)
        for i, f in enumerate(futs):
            r = self.wait(f)
            self.same(i, specs[i], r)
        time.sleep(1)
        for i, s in enumerate(spans):
            if s.finished != 1:
                raise Violation('span', 'the span of a future that ended by %s was finished %d times' % (specs[i][1], s.finished))
            if s.when < ends[i]:
                raise Violation('span', 'a span was finished before its future')
            failed = specs[i][1] in ('exc', 'base') or specs[i][0] == 'driver' and specs[i][1] == 'cancel'
            if specs[i][1] == 'cancel' and not failed:
                continue
            if bool(s.tags.get('error')) != failed:
                raise Violation('error-tag', 'the span of a future that ended by %s has tags %s' % (specs[i][1], s.tags))
            objs = [v for kv in s.logged for v in kv.values() if isinstance(v, (A, X))]
            if failed and (not objs or objs[0].args != (i,)):
                raise Violation('error-tag', 'the span of a failed future has %s' % s.logged)
        self.parallel(sim, p, specs, make)

    def wait(self, f):
        try:
            return 'ok', f.result(1000)
        except CancelledError:
            return 'cancel', None
        except (A, X) as e:
            return 'exc', e.args[0]

    def same(self, i, spec, r):
        how = 'exc' if spec[0] == 'driver' and spec[1] == 'cancel' or spec[1] == 'base' else spec[1]
        exp = (how, ('r', i) if how == 'ok' else None if how == 'cancel' else i)
        if r != exp:
            raise Violation('result', 'a future gave %s instead of %s' % (r, exp))

    def parallel(self, sim, p, specs, make):
        asked = []
        n = len(specs)

        class Cursor:
            def execute_async(self, *a):
                i = len(asked)
                asked.append(a)
                return wrap_future(make(i))
        args = [None if x is True else (i,) if x is False else () for i, x in enumerate(p['none'])]
        if p['query'] == 0:
            q, qs = 'Q', ['Q'] * n
        else:
            q = qs = ['Q%d' % i for i in range(n + p['extra'])]
            if p['query'] == 2:
                q = iter(qs)
        it = iter(parallel_for(Cursor(), q, iter(args)))
        out = []
        for i in range(n):
            try:
                out.append(('ok', next(it)))
            except CancelledError:
                out.append(('cancel', None))
            except (A, X) as e:
                out.append(('exc', e.args[0]))
            except StopIteration:
                raise Violation('parallel', '%d results of %d' % (i, n))
            if len(asked) != n:
                raise Violation('parallel', 'only %d of %d were started before the first result' % (len(asked), n))
            if out[-1][0] != 'ok':
                break
        else:
            if list(it):
                raise Violation('parallel', 'more results than arguments')
        for i, r in enumerate(out):
            self.same(i, specs[i], r)
        if asked != [(qs[i],) if args[i] is None else (qs[i], args[i]) for i in range(n)]:
            raise Violation('parallel', 'executed %s' % asked)


SCENARIOS = [Shared(), Futures()]
