"""C21 GlobalExcepthook and exception handlers"""
import errno
import io
import logging
import os
import pickle
import sys
import threading
import time

from .. import runner
from ..core import Violation
from ..fs import FS, REAL
from ..runner import Scenario, gen_sched, spawn

from satella.exception_handling import GlobalExcepthook, FunctionExceptionHandler, BaseExceptionHandler, \
    DumpToFileHandler, MemoryErrorExceptionHandler, AsStream
from satella.instrumentation import Traceback


class Boom(Exception):
    pass


class MoreMemory(MemoryError):
    pass


class HookFailed(Exception):
    pass


class Nasty:
    """cannot be shown, cannot be pickled"""

    def __repr__(self):
        raise ValueError('no')

    def __reduce_ex__(self, proto):
        raise ValueError('never')


class BadStderr:
    def __init__(self, how):
        self.how = how

    def write(self, s):
        raise self.how('stderr')

    def flush(self):
        raise self.how('stderr')


def stderr_of(kind):
    return {'ok': io.StringIO(), 'none': None, 'closed': BadStderr(ValueError), 'broken': BadStderr(OSError)}[kind]


def end_thread(exc):
    def body():
        nasty = Nasty()     # noqa: a local of the failing frame
        raise exc
    return body


def unhandled(exc, main):
    """have exc end a thread, or the main program"""
    if main:
        try:
            end_thread(exc)()
        except BaseException:
            info = sys.exc_info()
        sys.excepthook(*info)
    else:
        t = threading.Thread(target=end_thread(exc), daemon=True)
        t.start()
        t.join()


class Hooks(Scenario):
    """who is called, in what order, with handlers that fail, intercept, come and go"""
    name = 'hooks'
    max_steps = 4000000
    weight = 3

    def gen(self, rng):
        hooks = [[rng.choice([-1000, -5, 0, 0, 0, 3, 1000]), rng.choice(['no', 'no', 'no', 'yes', 'fail', 'fail', 'list', 'emptylist', 'none']),
                  rng.choice(['fun', 'class', 'plain']), rng.choice([0, 0, 0.05]), rng.random() < 0.75]
                 for _ in range(rng.randint(1, 5))]
        progs = [[[rng.choice(['thread', 'thread', 'main', 'install', 'uninstall']), rng.randrange(len(hooks)),
                   rng.choice([0, 0, 0.02])] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
        if not any(x[0] in ('thread', 'main') for pr in progs for x in pr):
            progs[0].append(['thread', 0, 0])
        return {'hooks': hooks, 'progs': progs, 'stderr': rng.choice(['ok', 'ok', 'none', 'closed', 'broken']),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        sys.stderr = stderr_of(p['stderr'])
        geh = GlobalExcepthook()
        if any(isinstance(getattr(h, 'fun', None), type(self.run)) for h in geh.installed_hooks):
            raise Violation('HARNESS', 'hooks installed already')
        calls = {}          # exception -> [(hook number or 'default', event)]

        def called(n, exc, ty, tb):
            if ty is not type(exc) or tb is None:
                raise Violation('arguments', 'handler %s called with %r for %r' % (n, ty, exc))
            calls.setdefault(id(exc), []).append((n, sim.seq()))

        runner.DEFAULT_EXCEPTHOOK[:] = [lambda ty, v, tb: called('default', v, ty, tb)]
        handlers = []
        life = [[] for _ in p['hooks']]      # [install begins, ends, uninstall begins, ends]

        def make(i, prio, act, kind, delay):
            def f(ty, v, tb):
                called(i, v, ty, tb)
                if delay:
                    time.sleep(delay)
                else:
                    sim.yield_point('handler')
                if act == 'fail':
                    sim.fault('handler')
                    raise HookFailed() if i % 2 else AttributeError('x')
                return {'no': False, 'yes': True, 'none': None, 'list': [False, True], 'emptylist': [False]}[act]

            if kind == 'plain' and prio == 0:
                return f
            if kind == 'class' and act not in ('list', 'emptylist'):
                class H(BaseExceptionHandler):
                    def handle_exception(self, type_, value, traceback):
                        return f(type_, value, traceback)
                return H(prio)
            return FunctionExceptionHandler(f, prio)

        order = []

        def install(i):
            h = handlers[i]
            s = sim.seq()
            cur = [s, None, None, None]
            life[i].append(cur)
            if callable(h):
                handlers[i] = geh.add_hook(h)
            elif i % 2:
                h.install()
            else:
                geh.add_hook(h)
            cur[1] = sim.seq()
            order.append(i)

        for i, (prio, act, kind, delay, now) in enumerate(p['hooks']):
            handlers.append(make(i, prio, act, kind, delay))
        for i, h in enumerate(p['hooks']):
            if h[4]:
                install(i)
        first = list(order)
        owner = {}
        excs = []

        def client(me, prog):
            for op, i, delay in prog:
                if delay:
                    time.sleep(delay)
                if op in ('install', 'uninstall'):
                    # one client is in charge of each handler
                    if owner.setdefault(i, me) != me:
                        continue
                    cur = life[i][-1] if life[i] and life[i][-1][2] is None else None
                    if op == 'install':
                        if cur is not None:
                            if not callable(handlers[i]):
                                geh.add_hook(handlers[i])       # must not be called twice
                        else:
                            install(i)
                    elif cur is not None:
                        cur[2] = sim.seq()
                        (handlers[i].uninstall if not i % 2 else lambda: geh.remove_hook(handlers[i]))()
                        cur[3] = sim.seq()
                    else:
                        try:
                            geh.remove_hook(handlers[i])
                        except ValueError:
                            pass
                        else:
                            raise Violation('removed-twice', 'a handler not installed was removed')
                    continue
                e = Boom(me)
                s = sim.seq()
                unhandled(e, op == 'main')
                excs.append((e, s, sim.seq()))

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()

        for e, s, end in excs:
            got = [x for x, _ in calls.get(id(e), [])]
            start = calls[id(e)][0][1] if got else end
            if len(set(got)) != len(got):
                raise Violation('called-twice', 'handlers called for one exception: %s' % got)
            stop = None
            for k, n in enumerate(got):
                if n == 'default' and k != len(got) - 1:
                    raise Violation('order', 'the default handler was called before others: %s' % got)
                if n != 'default' and p['hooks'][n][1] in ('yes', 'list'):
                    if k != len(got) - 1:
                        raise Violation('not-intercepted', 'handler %d intercepted the exception, yet called were %s' % (n, got))
                    stop = n
            if stop is None and 'default' not in got:
                raise Violation('default-not-called', 'nobody intercepted the exception, called were %s' % got)
            pr = [p['hooks'][n][0] for n in got if n != 'default']
            if pr != sorted(pr):
                raise Violation('order', 'handlers called in order of priorities %s' % pr)
            for a, b in zip(got, got[1:]):
                if b != 'default' and p['hooks'][a][0] == p['hooks'][b][0] and len(life[a]) == len(life[b]) == 1 and \
                        a in first and b in first and first.index(a) > first.index(b):
                    raise Violation('order', 'handlers of equal priority called in order %s, installed %s' % (got, first))
            for i in range(len(p['hooks'])):
                sure = any(x[1] is not None and x[1] < s and (x[2] is None or x[2] > end) for x in life[i])
                maybe = any(x[0] < end and (x[3] is None or x[3] > s) for x in life[i])
                if i in got and not maybe:
                    raise Violation('uninstalled-called', 'handler %d was called while not installed' % i)
                if sure and i not in got:
                    # fine only if somebody intercepted it before
                    if stop is None or p['hooks'][stop][0] > p['hooks'][i][0]:
                        raise Violation('not-called', 'handler %d (%s) was not called, called were %s, hooks %s'
                                        % (i, p['hooks'][i], got, p['hooks']))
        # all of them can be taken out
        for i in range(len(handlers)):
            if life[i] and life[i][-1][2] is None:
                geh.remove_hook(handlers[i])
            if handlers[i] in geh.installed_hooks:
                raise Violation('installed-twice', 'handler %d is there after its removal' % i)
        for n, e in sim.thread_errors:
            if not isinstance(e, Boom):
                raise Violation('other-error', 'a thread that raised Boom ended with %r' % e)


class Stream:
    """a file-like object"""

    def __init__(self, sim, kind, fail):
        self.sim, self.kind, self.fail = sim, kind, fail
        self.parts = []
        self.n = 0

    def write(self, x):
        self.n += 1
        self.sim.yield_point('stream')
        if self.fail and self.n % self.fail == 0:
            self.sim.fault('stream')
            raise OSError(errno.EIO, 'stream')
        self.parts.append((threading.get_ident(), x))

    def flush(self):
        if self.kind == 'noflush':
            raise AttributeError('flush')
        self.sim.yield_point('flush')


class Log(logging.Logger):
    def __init__(self, sim, fails):
        super().__init__('x')
        self.sim, self.fails, self.got = sim, fails, []

    def log(self, level, msg, *args, **kw):
        self.sim.yield_point('log')
        if self.fails:
            self.sim.fault('log')
            raise OSError('log')
        self.got.append((level, msg, kw.get('exc_info')))


def escaped(s):
    return s.encode('ascii', 'backslashreplace').decode('ascii')


class Dump(Scenario):
    """DumpToFileHandler: every working stream gets every dump, whole"""
    name = 'dump'
    max_steps = 4000000
    weight = 1

    def gen(self, rng):
        return {'hr': [[rng.choice(['stream', 'noflush', 'file', 'file', 'log', 'loglevel', 'none', 'dir']), rng.choice([0, 0, 0, 1, 2, 7])]
                       for _ in range(rng.randint(1, 4))],
                'tb': [[rng.choice(['stream', 'file', 'none']), rng.choice([0, 0, 0, 1, 2])] for _ in range(rng.choice([0, 1, 2]))],
                'progs': [[[rng.choice(['thread', 'main', 'thread', 'main', 'globals'])] for _ in range(rng.randint(1, 2))]
                          for _ in range(rng.randint(1, 2))],
                'p': {k: rng.choice([0.2, 0.5]) for k in ('open', 'write') if rng.random() < 0.2},
                'stderr': rng.choice(['ok', 'ok', 'none', 'closed']), 'nasty': rng.random() < 0.5,
                'surr': rng.random() < 0.25,
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        fs = FS(sim, p['p'])
        REAL['mkdir'](fs.path('d'))
        sys.stderr = stderr_of(p['stderr'])
        nxt = []
        runner.DEFAULT_EXCEPTHOOK[:] = [lambda ty, v, tb: nxt.append(v)]

        def make(i, kind, fail, hr):
            if kind in ('stream', 'noflush'):
                s = Stream(sim, kind, fail)
                return s, s
            if kind == 'file':
                return '%s%d' % (hr, i), fs.path('%s%d' % (hr, i))
            if kind == 'dir':
                return None, fs.path('d')
            if kind == 'none':
                return None, None
            lg = Log(sim, bool(fail))
            return lg, (lg if kind == 'log' else (lg, 10))

        hr = [make(i, k, f, 'hr') for i, (k, f) in enumerate(p['hr'])]
        tb = [make(i, k, f, 'tb') for i, (k, f) in enumerate(p['tb'])]
        h = DumpToFileHandler([x for _, x in hr], [x for _, x in tb])
        h.install()
        excs = []

        def client(me, prog):
            for k, (op,) in enumerate(prog):
                if op == 'globals':
                    # a module that is being imported or used
                    for j in range(5):
                        globals()['added_%d_%d' % (me, j)] = j
                        time.sleep(0.000001)
                        sim.yield_point('globals')
                    continue
                e = Boom('boom-%d-%d.%s' % (me, k, '\udce9' if p.get('surr') else ''))
                excs.append(e)
                if p['nasty']:
                    Nasty()
                unhandled(e, op == 'main')

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()
        h.uninstall()
        names = [e.args[0] for e in excs]
        if not names:
            return
        if sorted(map(str, nxt)) != sorted(names):
            raise Violation('default-not-called', 'exceptions %s went past the handler, of %s' % (sorted(map(str, nxt)), names))

        def text_ok(s, want, where):
            s, want = escaped(s), [escaped(n) for n in want]
            for n in want:
                if s.count('Unhandled exception caught') != len(want) or 'Boom: ' + n not in s or 'body at' not in s:
                    raise Violation('dump-lost', '%s does not have the dump of %s (%d bytes)' % (where, n, len(s)))

        def whole(parts, where):
            """dumps are not mixed up"""
            cur = None
            for th, x in parts:
                if isinstance(x, str) and x.startswith('Unhandled'):
                    cur = th
                elif isinstance(x, str) and th != cur:
                    raise Violation('dump-mixed', 'dumps of two threads are mixed in %s' % where)

        def recovered(data, want, where):
            b = io.BytesIO(data)
            got = []
            while b.tell() < len(data):
                x = Traceback.from_pickle(b)
                got.append(x)
            txt = [x.formatted_traceback for x in got]
            for n in want:
                if not any('Boom: ' + n in t for t in txt):
                    raise Violation('dump-lost', '%s has no traceback of %s' % (where, n))
            if len(got) != len(want):
                raise Violation('dump-lost', '%s has %d tracebacks, not %d' % (where, len(got), len(want)))
            for x in got:
                if x.frames[0].name != 'body' or 'exc' not in x.frames[0].locals:
                    raise Violation('dump-wrong', 'the innermost frame is %s' % x.frames[0].name)
            x = got[0]
            y = Traceback.from_json(x.to_json())
            if x != y or str(x) != str(y) or y.formatted_traceback != x.formatted_traceback:
                raise Violation('json', 'a traceback is different after to_json and from_json')
            v = y.frames[0].locals['exc']
            if v.pickle != x.frames[0].locals['exc'].pickle or v.load_value().args != x.frames[0].locals['exc'].load_value().args:
                raise Violation('json', 'a value does not survive to_json and from_json')

        for (o, _), (kind, fail), what in [(a, b, 'hr') for a, b in zip(hr, p['hr'])] + [(a, b, 'tb') for a, b in zip(tb, p['tb'])]:
            if kind in ('log', 'loglevel'):
                if not fail:
                    if sorted(str(x[2]) for x in o.got) != sorted(names):
                        raise Violation('dump-lost', 'the logger got %s' % [str(x[2]) for x in o.got])
                    if {x[0] for x in o.got} != {logging.ERROR if kind == 'log' else 10}:
                        raise Violation('level', 'logged at %s' % o.got[0][0])
            elif kind in ('stream', 'noflush'):
                if not fail:
                    if what == 'hr':
                        text_ok(''.join(x for _, x in o.parts), names, 'a stream')
                        whole(o.parts, 'a stream')
                    else:
                        recovered(b''.join(x for _, x in o.parts), names, 'a stream')
            elif kind == 'file' and not p['p']:
                c = fs.content(o)
                if c is None:
                    raise Violation('dump-lost', 'no file was written')
                if what == 'hr':
                    c = c.decode('utf8')
                    last = [n for n in names if 'Boom: ' + escaped(n) in c]
                    text_ok(c, last[:1] or [names[-1]], 'the file')
                else:
                    x = Traceback.from_pickle(c)
                    last = [n for n in names if 'Boom: ' + n in x.formatted_traceback]
                    recovered(c, last[:1] or [names[-1]], 'the file')
            elif kind == 'dir' and not p['p']:
                if not REAL['listdir'](fs.path('d')):
                    raise Violation('dump-lost', 'no file was written in the directory')
        if fs.fds:
            raise Violation('fd-leak', '%d files were left open' % len(fs.fds))


class OutOfMemory(Scenario):
    name = 'memory'
    weight = 1

    def gen(self, rng):
        return {'stderr': rng.choice(['ok', 'none', 'closed', 'broken']), 'pg': rng.random() < 0.5, 'leader': rng.random() < 0.5,
                'hook': rng.choice(['default', 'no', 'yes', 'list', 'no-list', 'fail']),
                'progs': [[[rng.choice(['mem', 'mem', 'sub', 'other']), rng.choice(['thread', 'main'])] for _ in range(rng.randint(1, 3))]
                          for _ in range(rng.randint(1, 2))],
                'first': rng.choice([None, -1000, 0]),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        sys.stderr = stderr_of(p['stderr'])
        runner.DEFAULT_EXCEPTHOOK[:] = [lambda *a: None]
        kills = []
        os.kill = lambda pid, sig: kills.append(('kill', pid, sig))
        os.killpg = lambda pid, sig: kills.append(('killpg', pid, sig))
        os.getpid = lambda: 77
        os.getpgid = lambda pid: 77 if p['leader'] else 5
        asked = []

        def hook(ty, v, tb):
            asked.append(v)
            if p['hook'] == 'fail':
                sim.fault('handler')
                raise HookFailed()
            return {'no': False, 'yes': True, 'list': [False, True], 'no-list': [False, None]}[p['hook']]

        a = {} if p['hook'] == 'default' else {'custom_hook': hook}
        h = MemoryErrorExceptionHandler(kill_pg=p['pg'], **a)
        later = []
        if p['first'] is not None:
            GlobalExcepthook().add_hook(FunctionExceptionHandler(lambda ty, v, tb: later.append((v, len(kills))), p['first']))
        h.install()
        try:
            h.install()
        except RuntimeError:
            pass
        else:
            raise Violation('installed-twice', 'second install() succeeded')
        want = []
        n = [0]

        def client(me, prog):
            for kind, how in prog:
                e = {'mem': MemoryError, 'sub': MoreMemory, 'other': Boom}[kind](str(me))
                if kind != 'other':
                    want.append(e)
                unhandled(e, how == 'main')

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()
        if p['hook'] != 'default' and sorted(map(id, asked)) != sorted(map(id, want)):
            raise Violation('hook-calls', 'custom hook was asked %d times, %d memory errors' % (len(asked), len(want)))
        spared = p['hook'] in ('yes', 'list')
        exp = [] if spared else [('killpg' if p['pg'] and p['leader'] else 'kill', 77, 9)] * len(want)
        if kills != exp:
            raise Violation('kill', '%d memory errors, custom hook says %s, signals sent: %s, expected %s' % (len(want), p['hook'], kills, exp))
        h.uninstall()
        k = len(kills)
        unhandled(MemoryError(), True)
        if len(kills) != k:
            raise Violation('kill', 'killed by a handler that was uninstalled')
        h.install()
        unhandled(MemoryError(), True)
        if not spared and len(kills) != k + 1:
            raise Violation('kill', 'not killed after the handler was installed again')


SCENARIOS = [Hooks(), Dump(), OutOfMemory()]
