"""C39 Traceback and the dumps of frames and memory"""
import gc
import io
import json
import os
import pickle
import signal
import sys
import threading
import time
import types
import zlib

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.instrumentation import Traceback, GenerationPolicy, StoredVariableValue, install_dump_frames_on, dump_frames_on, \
    frame_from_traceback
from satella.instrumentation.memory import dump_memory_on, install_dump_memory_on

COMPRESS = zlib.compress
SIM = [None]        # the current run, not as an attribute of values so as not to be pickled with them


class Boom(Exception):
    pass


class Cant:
    """an exception argument that cannot be shown"""

    def __repr__(self):
        raise ValueError('no')


class Value:
    """what misbehaves when shown or pickled; kinds of failures are in .how"""

    def __init__(self, how):
        self.how = how

    def __repr__(self):
        SIM[0].yield_point('repr')
        if self.how == 'repr':
            SIM[0].fault('repr')
            raise Boom('no repr')
        if self.how == 'reprargs':
            SIM[0].fault('repr')
            raise Boom(Cant())
        if self.how == 'notstr':
            SIM[0].fault('repr')
            return 42
        if self.how == 'recursion':
            SIM[0].fault('repr')
            raise RecursionError('maximum recursion depth exceeded')
        return 'Value(%s)' % self.how

    def __reduce__(self):
        SIM[0].yield_point('pickle')
        if self.how == 'pickle':
            SIM[0].fault('pickle')
            raise Boom('no pickle')
        if self.how == 'pickleargs':
            SIM[0].fault('pickle')
            raise Boom(Cant())
        if self.how == 'memory':
            SIM[0].fault('pickle')
            raise MemoryError()
        if self.how == 'exit':
            SIM[0].fault('pickle')
            raise SystemExit('pickled to death')
        if self.how == 'surrogate':
            SIM[0].fault('pickle')
            raise Odd()
        if self.how == 'load':
            SIM[0].fault('unpickle')
            return fail_loading, ()
        return Value, (self.how,)

    def __eq__(self, other):
        return isinstance(other, Value) and other.how == self.how


class Odd(Exception):
    def __repr__(self):
        return 'Odd(\ud800)'


class Meta(type):
    def __repr__(cls):
        SIM[0].fault('repr')
        raise Boom('no type')


class Broken(metaclass=Meta):
    pass


def fail_loading():
    raise LookupError('not in this environment')


EXACT = len(pickle.dumps('y' * 18, pickle.HIGHEST_PROTOCOL))
KINDS = ['int', 'text', 'long', 'exact', 'list', 'lambda', 'lock', 'surr', 'shared', 'broken', 'gone', 'none', 'bytes',
         'repr', 'reprargs', 'notstr', 'recursion', 'pickle', 'pickleargs', 'memory', 'exit', 'surrogate', 'load', 'fine']
UNPICKLABLE = {'lambda', 'lock', 'pickle', 'pickleargs', 'memory', 'exit', 'surrogate'}
UNLOADABLE = {'load', 'gone'}
UNSHOWN = {'repr', 'reprargs', 'notstr', 'recursion'}


def gone(n):
    n = 'gone%d' % n
    m = types.ModuleType(n)
    exec('class K: pass', m.__dict__)
    m.K.__module__ = n
    sys.modules[n] = m
    return m.K()


def value_of(kind, shared, n):
    if kind == 'int':
        return 41
    if kind == 'text':
        return 'zażółć'
    if kind == 'long':
        return 'x' * 300
    if kind == 'exact':
        return 'y' * 18         # its repr has 20 characters
    if kind == 'list':
        return [1, [2, {'k': 3.5}], (None, True)]
    if kind == 'lambda':
        return lambda: 0
    if kind == 'lock':
        return threading.Lock()
    if kind == 'surr':
        return 'caf\udce9'
    if kind == 'shared':
        return shared
    if kind == 'broken':
        return Broken()
    if kind == 'gone':
        return gone(n)
    if kind == 'none':
        return None
    if kind == 'bytes':
        return b'\x00\xff' * 100
    return Value(kind)


class Picky(GenerationPolicy):
    """pickles numbers only and shouts"""

    def should_pickle(self, value):
        return isinstance(value, int)

    def process_repr(self, r):
        return r.upper()


class Squeezing(GenerationPolicy):
    def should_compress(self, pickle_data):
        return len(pickle_data) % 2 == 0

    def get_compression_level(self, data_to_pickle):
        return 1 if len(data_to_pickle) < 100 else 9


def policy_of(how):
    if how is None:
        return {}, GenerationPolicy()
    if how == 'picky':
        return {'policy': Picky}, Picky()
    if how == 'squeezing':
        x = Squeezing()
        return {'policy': x}, x
    x = GenerationPolicy(**how)
    return {'policy': x}, x


class Capture(Scenario):
    name = 'capture'
    weight = 4
    max_steps = 6000000

    def gen(self, rng):
        progs = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 2)):
                pol = rng.choice([None, 'picky', 'squeezing'] + [{k: v for k, v in (
                    ('enable_pickling', rng.random() < 0.8), ('compress_at', rng.choice([0, 1, EXACT - 1, EXACT, EXACT, 60, 128 * 1024])),
                    ('repr_length_limit', rng.choice([None, 0, 10, 19, 20, 21, 100])),
                    ('compression_level', rng.choice([1, 6, 9]))) if rng.random() < 0.6}] * 3)
                ops.append([rng.choice(['exc', 'exc', 'exc', 'info', 'frame', 'other', 'mutate', 'mutate']),
                            rng.sample(KINDS, rng.randint(0, 5)), rng.randint(1, 3), pol,
                            rng.choice(['json', 'pickle', 'stream', 'cut', 'none']),
                            rng.choice(['name', 'lineno', 'filename', 'local', 'repr', 'type_', 'global'])])
            progs.append(ops)
        return {'progs': progs, 'zlib': rng.choice([0, 0, 0, 1, 3]), 'sched': dict(gen_sched(rng, stalls=False), gap=rng.choice([60, 200, 1000]))}

    def run(self, sim, p):
        SIM[0] = sim
        shared = {'a': Value('fine'), 'b': Value('fine'), 'c': [Value('fine')]}
        glob = {'__name__': 'scene', 'number': 12345, 'Boom': Boom, '__builtins__': __builtins__}
        exec(SCENE, glob)
        idents = []
        lost = [0]

        if p['zlib']:
            compress, n = zlib.compress, [0]

            def failing(*args):
                n[0] += 1
                if n[0] % p['zlib'] == 0:
                    sim.fault('zlib')
                    lost[0] += 1
                    raise zlib.error('Error -4 while compressing data')
                return compress(*args)
            zlib.compress = failing

        def client(me, prog):
            idents.append(threading.get_ident())
            for k, (op, kinds, depth, pol, then, what) in enumerate(prog):
                if op == 'mutate':
                    for j in range(4):
                        shared['new-%d-%d-%d' % (me, k, j)] = j
                        glob['new_%d_%d_%d' % (me, k, j)] = j
                        sim.yield_point('mutate')
                        if j % 2:
                            del shared['new-%d-%d-%d' % (me, k, j)], glob['new_%d_%d_%d' % (me, k, j)]
                    continue
                kw, policy = policy_of(pol)
                vals = {x: value_of(x, shared, 10 * me + k) for x in kinds}
                if op == 'other':
                    f = sys._current_frames().get(idents[(me + 1) % len(idents)])
                    if f is not None:
                        x = Traceback(f, **kw)
                        if not x.frames:
                            raise Violation('frames', 'no frames of a thread')
                        self.whole(x, then, what, sim, k)
                    continue
                n0 = lost[0]
                exp = None
                if op == 'frame':
                    x, exp = glob['here'](depth, vals, kw, Traceback, chain)
                else:
                    try:
                        glob['run'](depth, vals, op)
                    except Boom:
                        info = sys.exc_info()
                        bottom = frame_from_traceback(info[2])
                        exp = chain(bottom)
                        if op == 'exc':
                            x = Traceback(**kw)
                    if op == 'info':
                        try:
                            raise LookupError('another one')
                        except LookupError:
                            x = Traceback(exc_info=info, **kw)
                    if 'Boom: bottom ' + op not in x.formatted_traceback or 'in run' not in x.formatted_traceback:
                        raise Violation('text', 'formatted_traceback is %r' % (x.formatted_traceback,))
                got = [(f.name, f.filename, f.lineno) for f in x.frames]
                if [g[0] for g in got] != [e[0] for e in exp]:
                    raise Violation('frames', 'frames of %s, expected of %s' % ([g[0] for g in got], [e[0] for e in exp]))
                if got[:depth] != [e[:3] for e in exp][:depth]:
                    raise Violation('frames', 'frames %s, expected %s' % (got[:depth], [e[:3] for e in exp][:depth]))
                for f, e in zip(x.frames[:depth], exp):
                    if set(f.locals) != e[3]:
                        raise Violation('locals', 'locals %s, expected %s' % (sorted(f.locals), sorted(e[3])))
                    if 'number' not in f.globals or f.globals['number'].repr not in (policy.process_repr('12345'),):
                        raise Violation('globals', 'a global is not there')
                for kind, v in vals.items():
                    self.judge(kind, v, x.frames[0].locals['v_' + kind], policy, pol if isinstance(pol, dict) else {}, lost[0] != n0)
                self.whole(x, then, what, sim, k)

        def chain(f):
            r = []
            while f is not None:
                r.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno, set(f.f_locals)))
                f = f.f_back
            return r

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()

    def judge(self, kind, v, s, policy, conf, zlib_failed):
        """is the value stored as it should be?"""
        if kind in UNSHOWN:
            if not s.repr or 'Value(' in s.repr:
                raise Violation('repr', 'repr of %s is %r' % (kind, s.repr))
        elif kind == 'shared':
            pass
        else:
            want = repr(v)
            if type(policy) is Picky:
                want = want.upper()
            else:
                limit = conf.get('repr_length_limit', 128 * 1024)
                if limit is not None and len(want) > limit:
                    want = want[:limit] + '...'
            if s.repr != want:
                raise Violation('repr', 'repr of %s is %r, expected %r' % (kind, s.repr[:60], want[:60]))
        if str(s) != s.repr:
            raise Violation('repr', 'str() is %r' % (str(s),))
        if kind != 'broken' and s.type_ != repr(type(v)):
            raise Violation('type', 'type of %s is %r' % (kind, s.type_))
        try:
            got = ('v', s.load_value())
        except ValueError:
            got = None
        if kind == 'gone':
            del sys.modules[type(v).__module__]
            try:
                s.load_value()
                got = ('v', None)
            except ValueError:
                got = None
        if not policy.should_pickle(v):
            if got is not None or s.pickle is not None or s.pickle_type is not None:
                raise Violation('pickled', '%s was not to be pickled' % kind)
            return
        if kind in UNPICKLABLE or kind in UNLOADABLE:
            if got is not None:
                raise Violation('value', '%s was loaded as %r' % (kind, got[1]))
            if kind in UNPICKLABLE and s.pickle_type != 'failed':
                raise Violation('value', 'pickle_type of %s is %r' % (kind, s.pickle_type))
            return
        if kind in ('shared', 'broken'):
            return      # being changed by others
        if got is None:
            if zlib_failed and s.pickle_type == 'failed/gzip':
                return
            raise Violation('value', '%s could not be loaded (%s)' % (kind, s.pickle_type))
        if got[1] != v or type(got[1]) is not type(v):
            raise Violation('value', '%s loaded as %r' % (kind, got[1]))
        data = pickle.dumps(v, pickle.HIGHEST_PROTOCOL)
        if type(policy) is Squeezing:
            squeeze, level = len(data) % 2 == 0, 1 if len(data) < 100 else 9
        else:
            squeeze, level = len(data) > conf.get('compress_at', 128 * 1024), conf.get('compression_level', 6)
        want = 'pickle/gzip' if squeeze else 'pickle'
        if squeeze and s.pickle_type == want and s.pickle != COMPRESS(data, level):
            raise Violation('compression', '%s is not compressed at level %d' % (kind, level))
        if s.pickle_type != want:
            raise Violation('compression', 'pickle_type of %s is %r, expected %r' % (kind, s.pickle_type, want))

    def whole(self, x, then, what, sim, k):
        """does it survive?"""
        txt = x.pretty_format()
        if x.formatted_traceback not in txt:
            raise Violation('text', 'pretty_format() is without the traceback')
        for f in x.frames:
            if f.name not in txt:
                raise Violation('text', 'pretty_format() is without frame %s' % f.name)
            for name, v in f.locals.items():
                if '%s: %s' % (name, v.repr) not in txt:
                    raise Violation('text', 'pretty_format() is without local %s' % name)
        if then == 'none':
            return
        if then == 'json':
            y = Traceback.from_json(json.loads(json.dumps(x.to_json())))
        elif then == 'pickle':
            y = Traceback.from_pickle(x.pickle())
        elif then == 'stream':
            b = io.BytesIO()
            x.pickle_to(b)
            x.pickle_to(b)
            b.seek(0)
            Traceback.from_pickle(b)
            y = Traceback.from_pickle(b)
        else:
            data = x.pickle()
            sim.fault('truncated')
            try:
                Traceback.from_pickle(data[:len(data) * (k + 1) // 3 - 1])
            except Exception:
                pass
            else:
                raise Violation('truncated', 'a truncated pickle was read')
            try:
                Traceback.from_pickle(pickle.dumps([1, 2]))
            except ValueError:
                return
            raise Violation('truncated', 'something else was read as a traceback')
        if x != y or str(x) != str(y) or x.formatted_traceback != y.formatted_traceback or txt != y.pretty_format():
            raise Violation('round-trip', 'different after %s' % then)
        for f, g in zip(x.frames, y.frames):
            for which in ('locals', 'globals'):
                a, b = getattr(f, which), getattr(g, which)
                if list(a) != list(b):
                    raise Violation('round-trip', '%s have changed in %s' % (which, then))
                for n in a:
                    if (a[n].repr, a[n].type_, a[n].pickle, a[n].pickle_type) != (b[n].repr, b[n].type_, b[n].pickle, b[n].pickle_type):
                        raise Violation('round-trip', 'value of %s has changed in %s' % (n, then))
        if x.frames:
            f = y.frames[-1]
            if what in ('local', 'global'):
                (f.locals if what == 'local' else f.globals)['brand_new'] = StoredVariableValue(1)
            elif what in ('repr', 'type_'):
                setattr(next(iter(f.globals.values())), what, '?')
            else:
                setattr(f, what, 'something else')
            if x == y:
                raise Violation('equal', 'tracebacks that differ in a %s are equal' % what)


SCENE = '''
def bottom(vals, op):
    v_int = v_text = v_long = None
    del v_int, v_text, v_long
    raise Boom('bottom ' + op)

def run(depth, vals, op):
    code = 'def bottom(' + ', '.join('v_' + k for k in vals) + '):\\n    raise Boom("bottom ' + op + '")\\n'
    ns = dict(globals())
    exec(code, ns)
    return nest(depth - 1, ns['bottom'], list(vals.values()))

def nest(n, f, args):
    if n <= 0:
        return f(*args)
    return nest(n - 1, f, args)

def here(depth, vals, kw, Traceback, chain):
    code = ('def bottom(' + ', '.join(['kw', 'Traceback', 'chain'] + ['v_' + k for k in vals]) + '):\\n'
            '    import sys\\n'
            '    return Traceback(sys._getframe(), **kw), chain(sys._getframe())\\n')
    ns = dict(globals())
    exec(code, ns)
    return nest(depth - 1, ns['bottom'], [kw, Traceback, chain] + list(vals.values()))
'''


class Dumps(Scenario):
    """dump_frames_on and dump_memory_on, on signals"""
    name = 'dumps'
    weight = 1
    max_steps = 6000000

    def gen(self, rng):
        return {'progs': [[[rng.choice(['sleep', 'wait', 'spin']), rng.choice([0, 0.5, 2.0])] for _ in range(rng.randint(1, 3))]
                          for _ in range(rng.randint(0, 2))],
                'values': rng.sample(['repr', 'reprargs', 'notstr', 'pickle', 'exit', 'fine', 'memory'], rng.randint(0, 4)),
                'at': [rng.choice([0, 0.1, 0.7, 1.5]) for _ in range(rng.randint(1, 2))], 'how': rng.choice(['signal', 'call']),
                'sizeof': rng.random() < 0.3, 'sched': dict(gen_sched(rng, stalls=False), gap=rng.choice([60, 200, 1000]))}

    def run(self, sim, p):
        SIM[0] = sim
        handlers = {}
        signal.signal = lambda s, h: handlers.__setitem__(s, h)
        stop = []
        ev = threading.Event()
        alive = {}

        def watched(prog):
            treasure = Value('fine')       # noqa: a local to be seen
            alive[threading.get_ident()] = True
            for k, d in prog:
                if k == 'sleep':
                    time.sleep(d)
                elif k == 'wait':
                    ev.wait(d)
                else:
                    for _ in range(5):
                        sim.yield_point('spin')
            alive[threading.get_ident()] = False

        out = io.StringIO()
        if p['how'] == 'signal':
            install_dump_frames_on(10, out)
            if set(handlers) != {10}:
                raise Violation('signal', 'handlers of signals %s' % sorted(handlers))
        ts = [spawn(sim, watched, prog) for prog in p['progs']]
        values = [Value(k) for k in p['values']]      # noqa: seen as well
        for d in p['at']:
            time.sleep(d)
            before = {i for i, a in alive.items() if a}
            n = len(out.getvalue())
            if p['how'] == 'signal':
                handlers[10](10, sys._getframe())
            else:
                dump_frames_on(output=out)
            after = {i for i, a in alive.items() if a}
            s = out.getvalue()[n:]
            for i in (before & after) | {threading.get_ident()}:
                if s.count('For stack frame %s' % i) != 1:
                    raise Violation('dump', 'a thread is not there' if i != threading.get_ident() else 'own thread is not there')
            both = before & after
            if both and ('watched' not in s or 'treasure: Value(fine)' not in s):
                raise Violation('dump', 'a frame or its local is missing')
            if '** run at' not in s or 'values: ' not in s or 'c39.py' not in s:
                raise Violation('dump', 'own frame or its local is missing')
            del s       # or it will be in the next dump
        ev.set()
        for t in ts:
            t.join()

        # memory
        class Weird(Value):
            def __sizeof__(self):
                raise TypeError('no size')

        objs = [[1] * 10, {'a': 1}] + values + ([Weird('fine')] if p['sizeof'] else [])
        real = gc.get_objects
        gc.get_objects = lambda *a: list(objs)
        out = io.StringIO()
        try:
            if p['how'] == 'signal':
                install_dump_memory_on(12, out)
                handlers[12](12, sys._getframe())
            else:
                dump_memory_on(out)
        finally:
            gc.get_objects = real
        lines = out.getvalue().split('\n')
        if sum(x.startswith('object ') for x in lines) != len(objs):
            raise Violation('memory', '%d objects are shown, there are %d' % (sum(x.startswith('object ') for x in lines), len(objs)))
        tot = {}
        for o in objs:
            a, b = tot.get(type(o), (0, 0))
            tot[type(o)] = a + (0 if type(o) is Weird else sys.getsizeof(o)), b + 1
        scores = [x for x in lines if x.endswith(' instances')]
        want = {'%s: %s bytes %s instances' % (t, a, b) for t, (a, b) in tot.items()}
        if set(scores) != want or len(scores) != len(want):
            raise Violation('memory', 'scores %s, expected %s' % (scores, sorted(want)))
        sizes = [int(x.split(': ')[1].split(' ')[0]) for x in scores]
        if sizes != sorted(sizes, reverse=True):
            raise Violation('memory', 'scores are not in order: %s' % sizes)


SCENARIOS = [Capture(), Dumps()]
