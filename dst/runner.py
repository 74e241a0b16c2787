"""
One simulated run = one forked child.  The parent never starts a thread, so that every run begins
from the same freshly imported state.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import threading

from . import core

DEFAULT_EXCEPTHOOK = []     # what stands in for the interpreter's own sys.excepthook


def _excepthook(*a):
    for f in DEFAULT_EXCEPTHOOK:
        f(*a)
    if not DEFAULT_EXCEPTHOOK:
        sys.__excepthook__(*a)


REAL_LIMIT = 60       # real seconds for one run before it is declared hung
PATHS_READY = False


def prepare(prop):
    """install seams, import the code under test, import the check. Returns the check module"""
    core.install()
    import logging
    logging.raiseExceptions = False
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    # modules imported lazily by the code under test or by the stdlib: have them before forking
    for m in ('concurrent.futures.thread', 'queue', 'json', 'tempfile', 'inspect', 'psutil',
              'linecache', 'traceback', 'http.server', 'socketserver', 'subprocess', 'pkg_resources'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    sys.path.insert(0, core.REPO)
    sys.excepthook = _excepthook        # before satella wraps it
    core.capture_code()
    import warnings
    warnings.simplefilter('ignore')
    import satella
    if not satella.__file__.startswith(core.SAT):
        raise core.HarnessError('wrong satella: %s' % satella.__file__)
    import pkgutil
    for m in pkgutil.walk_packages(satella.__path__, 'satella.'):
        try:
            importlib.import_module(m.name)
        except Exception as e:       # a module this check does not need may fail to import
            FAILED_IMPORTS[m.name] = '%s: %s' % (type(e).__name__, e)
    for name, m in list(sys.modules.items()):
        if name.startswith('satella.') and 'id' not in vars(m):
            m.id = core.sim_id      # addresses differ between processes; order of first use does not
    mod = importlib.import_module('dst.checks.' + prop.lower())
    if 'dst.fs' in sys.modules:
        sys.modules['dst.fs'].make_root()
    core.arm_monitoring()
    gc.collect()
    gc.freeze()
    return mod


FAILED_IMPORTS = {}


def run_seed(vseed, prop, idx):
    h = hashlib.sha256(('%d/%s/%d' % (vseed, prop, idx)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


def gen_params(mod, vseed, prop, idx, tier):
    seed = run_seed(vseed, prop, idx)
    rng = random.Random(seed)
    scns = mod.SCENARIOS
    total = sum(s.weight for s in scns)
    # round robin over weights so that each scenario gets its share whatever the seed
    k = idx % total
    for s in scns:
        if k < s.weight:
            scn = s
            break
        k -= s.weight
    p = scn.gen(rng)
    p['scn'] = scn.name
    p['seed'] = seed
    if 'sched' not in p:
        p['sched'] = gen_sched(rng)
    p['sched'].setdefault('seed', rng.getrandbits(48))
    return json.loads(json.dumps(p))


def gen_sched(rng, stalls=True, stall_max=(0.001, 0.05, 1.0), base=None, tick=None, lens=None,
              pstall=(0.0, 0.0, 0.02, 0.2), jumps=True):
    mode = rng.choice(['rw', 'rw', 'rw', 'pct', 'pct', 'site', 'site', 'calm'] if rng.random() < .3
                      else ['rw', 'rw', 'pct', 'pct', 'site'])
    s = {'mode': mode,
         'seed': rng.getrandbits(48),
         'gap': rng.choice([3, 8, 20, 60, 200]),
         'plock': rng.choice([0.0, 0.1, 0.4, 0.8]),
         'salt': rng.getrandbits(32),
         'site_mod': rng.choice([7, 20, 60, 150]),
         'd': rng.randint(1, 6),
         'len': rng.choice(lens or [200, 800, 3000, 8000]),
         'tick': rng.choice([0, 0.000001, 0.000001, 0.0001]) if tick is None else tick,
         'base': rng.choice([0.25, 50.0, 1000.0, 1234567.875]) if base is None else base,
         'pstall': rng.choice(list(pstall)) if stalls else 0.0,
         'stall': rng.choice(list(stall_max)),
         }
    if jumps:
        # someone sets the wall clock, which nothing measured in seconds may depend on
        r = random.Random(s['seed'] ^ 0x77a11)
        if r.random() < 0.35:
            s['wj'] = sorted([r.choice([0.0, 0.01, 0.2, 0.7, 2.0, 10.0, 60.0]), r.choice([-4000.0, -2.0, -0.3, 0.3, 2.0, 5.0, 40.0, 90000.0])]
                             for _ in range(r.randint(1, 4)))
    return s


class Scenario:
    """One workload + oracle"""
    weight = 1
    name = ''
    horizon = 100000.0
    max_steps = 400000

    def gen(self, rng):
        return {}

    def run(self, sim, p):
        raise NotImplementedError

    def shrink(self, p):
        """yield smaller variants of p"""
        if isinstance(p.get('progs'), list):
            pr = p['progs']
            for i in range(len(pr)):
                if len(pr) > 1:
                    q = dict(p)
                    q['progs'] = pr[:i] + pr[i + 1:]
                    yield q
            for i in range(len(pr)):
                for j in range(len(pr[i])):
                    q = dict(p)
                    q['progs'] = pr[:i] + [pr[i][:j] + pr[i][j + 1:]] + pr[i + 1:]
                    yield q


def _child(mod, p, replay, keep_log, wfd):
    scn = [s for s in mod.SCENARIOS if s.name == p['scn']][0]
    gc.disable()
    random.seed(p['seed'])
    sim = core.Sim(p['sched'], replay, scn.horizon, scn.max_steps, keep_log)

    def finish(klass, msg):
        core.SIM = None
        fsm = sys.modules.get('dst.fs')
        if fsm is not None and msg:
            msg = msg.replace(fsm.ROOT, '<dir>')
        out = {'klass': klass, 'msg': msg, 'steps': sim.steps, 'switches': sim.switches,
               'vtime': round(sim.now - sim.base, 6), 'sig': sim.sig, 'stats': dict(sim.stats),
               'probes': dict(sim.probes), 'nthreads': len(sim.threads)}
        if klass is not None or keep_log or os.environ.get('DST_TRACE'):
            out['trace'] = sim.trace
            out['flips'] = sim.flips
        if keep_log:
            out['log'] = sim.log_lines
        data = json.dumps(out, default=repr).encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
        os._exit(0)

    sim.finish_cb = finish

    def hook(args):
        e = args.exc_value
        if isinstance(e, core.Violation):
            sim.fail(e.klass, e.msg)
        if isinstance(e, core.HarnessError):
            sim.fail('HARNESS', core.fmt_exc(e))
        th = args.thread
        if getattr(th, '_dst_client', False):
            if core.from_satella(e):
                sim.fail('unexpected-exception', core.fmt_exc(e))
            # the workload could not cope with what it was given
            sim.fail('unexpected-result', core.fmt_exc(e))
        sim.thread_errors.append((th.name if th is not None else '?', e))

    threading.excepthook = hook
    try:
        sim.run(lambda: scn.run(sim, p))
        klass, msg = None, ''
    except core.Violation as e:
        klass, msg = e.klass, e.msg
    except BaseException as e:
        if not isinstance(e, core.HarnessError) and core.from_satella(e):
            klass, msg = 'unexpected-exception', core.fmt_exc(e)
        else:
            klass = 'HARNESS' if isinstance(e, core.HarnessError) else 'unexpected-result'
            msg = core.fmt_exc(e)
    finish(klass, msg)


def run_once(mod, p, replay=None, keep_log=False, limit=REAL_LIMIT):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            if not os.environ.get('DST_STDERR'):
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 2)
                os.dup2(fd, 1)
            _child(mod, p, replay, keep_log, w)
        except BaseException as e:
            try:
                os.write(w, json.dumps({'klass': 'HARNESS', 'msg': core.fmt_exc(e)}).encode())
            finally:
                os._exit(3)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        return {'klass': 'HUNG' if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM
                else 'HARNESS', 'msg': 'child ended with status %d and no result' % st,
                'steps': 0, 'switches': 0, 'vtime': 0, 'sig': 0, 'stats': {}, 'probes': {}}
    try:
        res = json.loads(data)
    except ValueError:
        res = {'klass': 'HARNESS', 'msg': 'bad result %r' % data[:200]}
    for k, v in (('steps', 0), ('switches', 0), ('vtime', 0), ('sig', 0), ('stats', {}),
                 ('probes', {})):
        res.setdefault(k, v)
    return res


def spawn(sim, fn, *args, name=None):
    """start a client thread of the workload"""
    th = threading.Thread(target=fn, args=args, daemon=True, name=name or 'client')
    th._dst_client = True
    th.start()
    return th


def join_all(ths):
    for t in ths:
        t.join()
