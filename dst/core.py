"""
Deterministic thread simulator.

Real Python threads, parked and released one at a time: exactly one simulated thread holds the
baton, and this module alone decides who gets it next.  Locks, sleeping, clocks, thread start and
thread exit are replaced *before* satella (and the stdlib parts built on threading) create any of
them, so pure-Python stdlib code (Condition, Event, Semaphore, Queue, Future, ThreadPoolExecutor)
and satella itself run as real code on top of simulated primitives.  Preemption inside satella code
is possible at every bytecode instruction (sys.monitoring INSTRUCTION events).

A run is a pure function of (params, decision source).  The decision source is either a seeded PRNG
(search) or a recorded sparse list of non-default decisions (replay).
"""
import _thread
import heapq
import json
import os
import queue
import random
import re
import sys
import threading
import time
import traceback
import zlib
from collections import Counter

REPO = os.environ.get('VERIF_REPO', '/repo')
SAT = os.path.join(REPO, 'satella') + os.sep

real_alloc = _thread.allocate_lock
real_start = _thread.start_new_thread
real_ident = _thread.get_ident
real_sleep = time.sleep
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_time = time.time

SIM = None
_ACTIVE = False


class Violation(BaseException):
    """The property does not hold on this run"""

    def __init__(self, klass, msg):
        super().__init__(klass, msg)
        self.klass = klass
        self.msg = msg


class HarnessError(BaseException):
    """The harness itself misbehaved; never a verdict"""


class Hidden(dict):
    """what the code under test must not see when it dumps all it can reach"""

    def __repr__(self):
        return '{}'

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle')


class SimThread:
    __slots__ = ('tid', 'name', 'baton', 'state', 'wait_obj', 'deadline', 'timed_out', 'token',
                 'sentinel', 'group', 'prio', 'ident', 'where', 'proc')

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.baton = real_alloc()
        self.baton.acquire()
        self.state = 'new'
        self.wait_obj = None
        self.deadline = None
        self.timed_out = False
        self.token = 0
        self.sentinel = None
        self.prio = 0.0
        self.ident = None
        self.where = ''
        self.proc = None


class SimLock:
    """Drop-in for _thread.lock"""
    __slots__ = ('_held', '_waiters', '__weakref__')

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle')

    def __init__(self):
        self._held = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1:
            if not blocking:
                raise ValueError("can't specify a timeout for a non-blocking call")
            if timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
            if timeout > threading.TIMEOUT_MAX:
                raise OverflowError('timeout value is too large')
        sim = SIM
        if sim is None:
            if self._held:
                if not blocking:
                    return False
                raise HarnessError('lock contention outside of simulation')
            self._held = True
            return True
        sim.yield_point('acq')
        if not self._held:
            self._held = True
            return True
        if not blocking:
            return False
        deadline = None if timeout == -1 else sim.now + timeout
        while self._held:
            if not sim.block(self, deadline):
                if self._held:
                    return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        sim = SIM
        if sim is None:
            return
        if self._waiters:
            sim.wake_all(self)
        sim.yield_point('rel')

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False
        self._waiters = []

    def __repr__(self):
        return '<%s SimLock>' % ('locked' if self._held else 'unlocked',)


class SimRLock:
    """Drop-in for _thread.RLock"""
    __slots__ = ('_owner', '_count', '_waiters', '__weakref__')

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle')

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    @staticmethod
    def _me():
        return 'main' if SIM is None else SIM.cur

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1:
            if not blocking:
                raise ValueError("can't specify a timeout for a non-blocking call")
            if timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
            if timeout > threading.TIMEOUT_MAX:
                raise OverflowError('timeout value is too large')
        sim = SIM
        me = self._me()
        if self._owner is me and me is not None:
            self._count += 1
            return True
        if sim is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise HarnessError('rlock contention outside of simulation')
            self._owner, self._count = me, 1
            return True
        sim.yield_point('acq')
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        deadline = None if timeout == -1 else sim.now + timeout
        while self._owner is not None:
            if not sim.block(self, deadline):
                if self._owner is not None:
                    return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is None or self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count:
            return
        self._owner = None
        sim = SIM
        if sim is None:
            return
        if self._waiters:
            sim.wake_all(self)
        sim.yield_point('rel')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is not None and self._owner is self._me()

    def _release_save(self):
        if self._owner is None:
            raise RuntimeError('cannot release un-acquired lock')
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        sim = SIM
        if sim is not None:
            if self._waiters:
                sim.wake_all(self)
            sim.yield_point('rel')
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._waiters = []


def sim_start_new_thread(func, args=(), kwargs=None):
    sim = SIM
    if sim is None:
        raise HarnessError('thread started outside of simulation: %r' % (func,))
    return sim.start_thread(func, args, kwargs or {})


def sim_set_sentinel():
    lk = SimLock()
    if SIM is not None:
        SIM.cur.sentinel = lk
    return lk


def sim_sleep(secs):
    sim = SIM
    if sim is None:
        return
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    sim.sleep(secs)


def sim_monotonic():
    sim = SIM
    if sim is None:
        return real_monotonic()
    return sim.read_clock()


def sim_monotonic_ns():
    return int(sim_monotonic() * 1000000000)


def sim_time():
    sim = SIM
    if sim is None:
        return real_time()
    now = sim.read_clock()
    while sim.jumps and now - sim.base >= sim.jumps[0][0]:
        sim.wall_jump(sim.jumps.pop(0)[1])
    return now + sim.wall_offset


def sim_time_ns():
    return int(sim_time() * 1000000000)


_ids = Hidden()


def sim_id(obj):
    k = id(obj)
    if k not in _ids:
        _ids[k] = len(_ids) + 1
    return _ids[k]


def _number(cls):
    orig = cls.__init__
    n = [0]

    def __init__(self, *args, **kwargs):
        n[0] += 1
        self.__dict__['_dst_n'] = n[0]
        orig(self, *args, **kwargs)

    cls.__init__ = __init__
    cls.__hash__ = lambda self: self.__dict__.get('_dst_n', 0)


def install():
    """Replace every primitive. Must run before satella is imported."""
    global _ACTIVE
    if _ACTIVE:
        return
    assert not any(m == 'satella' or m.startswith('satella.') for m in sys.modules)
    _ACTIVE = True
    _thread.allocate_lock = SimLock  # for late importers
    _thread.RLock = SimRLock
    _thread.start_new_thread = sim_start_new_thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = SimRLock
    threading.RLock = SimRLock
    threading._start_new_thread = sim_start_new_thread
    if hasattr(threading, '_start_joinable_thread'):
        raise HarnessError('unsupported Python')
    threading._set_sentinel = sim_set_sentinel
    threading._time = sim_monotonic
    time.sleep = sim_sleep
    time.monotonic = sim_monotonic
    time.monotonic_ns = sim_monotonic_ns
    time.perf_counter = sim_monotonic
    time.perf_counter_ns = sim_monotonic_ns
    time.time = sim_time
    time.time_ns = sim_time_ns
    queue.time = sim_monotonic
    # the stdlib keeps futures and threads in sets; make their order a function of creation order
    import concurrent.futures._base as cfb
    _number(cfb.Future)
    _number(threading.Thread)
    cfb.id = hash
    import _queue
    queue.SimpleQueue = queue._PySimpleQueue
    _queue.SimpleQueue = queue._PySimpleQueue


# ----------------------------------------------------------------------------------------------
_TOOL = 3
_codes = set()


def _walk(code):
    if code in _codes:
        return
    _codes.add(code)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            _walk(c)


def capture_code():
    """Remember every satella code object as it is loaded"""
    import importlib.machinery
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        code = orig(self, fullname)
        if code is not None and code.co_filename.startswith(SAT):
            _walk(code)
        return code

    importlib.machinery.SourceFileLoader.get_code = get_code


def arm_monitoring(extra_files=()):
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, 'dst')
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instr)
    for c in list(_codes):
        mon.set_local_events(_TOOL, c, mon.events.INSTRUCTION)


def _on_instr(code, off):
    sim = SIM
    if sim is None or sim.quiet:
        return
    s = sim.steps + 1
    sim.steps = s
    if s >= sim.next_at:
        sim.instr_point(code, off)


_site_cache = Hidden()


def _site(code, off):
    k = (code, off)
    v = _site_cache.get(k)
    if v is None:
        v = zlib.crc32(('%s:%d' % (code.co_qualname, off)).encode())
        _site_cache[k] = v
    return v


INF = 1 << 60


class Sim:
    """
    sched params:
      mode: 'rw' | 'pct' | 'site' | 'calm'
      seed: int
      gap: mean gap (instructions) between preemption attempts in rw mode
      plock: probability of preempting at a lock operation
      pstall: probability that a preemption is a stall (virtual delay) instead of a plain switch
      stall: maximum stall duration
      tick: clock advance per read
      base: initial monotonic clock
      wj: jumps of the wall clock, [seconds since the start, by how much], in order
    """

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle')

    def __init__(self, sched, replay=None, horizon=100000.0, max_steps=400000, keep_log=False):
        self.sched = sched
        self.rng = random.Random(sched.get('seed', 0))
        self.frng = random.Random(sched.get('seed', 0) ^ 0x5bd1e995)
        self.mode = sched.get('mode', 'rw')
        self.gap = sched.get('gap', 30)
        self.plock = sched.get('plock', 0.3)
        self.pstall = sched.get('pstall', 0.0)
        self.stall_max = sched.get('stall', 0.01)
        self.tick = sched.get('tick', 0.000001)
        self.base = sched.get('base', 1000.0)
        self.salt = sched.get('salt', 0)
        self.site_mod = sched.get('site_mod', 60)
        self.now = self.base
        self.wall_offset = sched.get('wall', 1600000000.0)
        self.jumps = [list(j) for j in sched.get('wj', ())]     # of the wall clock
        self.horizon = self.base + horizon
        self.max_steps = max_steps
        self.steps = 0
        self.quiet = False
        self.next_at = INF
        self.threads = []
        self.runnable = []
        self.timers = []
        self.tseq = 0
        self.evseq = 0
        self.cur = None
        self.replay = None
        self.trace = []          # [step, kind, arg]
        self.flips = {}          # tag -> list of indexes that fired
        self.flip_n = {}
        self.flip_replay = None
        if replay is not None:
            self.replay = {e[0]: e for e in replay['trace']}
            self.replay_keys = sorted(self.replay)
            self.replay_pos = 0
            self.flip_replay = {k: {int(i): v for i, v in vv} for k, vv in replay['flips'].items()}
        self.stats = Counter()
        self.sig = 0
        self.switches = 0
        self.history = []
        self.log_lines = [] if keep_log else None
        self.thread_limit = None        # thread object -> whether the system refuses to start it
        self.thread_errors = []
        self.probes = Counter()
        self.finish_cb = None
        self.finished = False
        self.crash_hook = None
        self.sleep_hook = None
        self.violation = None
        self.reads = 0
        self.stall_total = 0.0
        self.faults_on = True
        self.cps = []
        self.on_stuck = None

    # ---- bookkeeping --------------------------------------------------------------------------
    def _mix(self, s):
        self.sig = zlib.crc32(s.encode(), self.sig)

    def log(self, *a):
        """Record an observable event in the history. Never draws from a PRNG."""
        self.evseq += 1
        e = (self.evseq, self.cur.tid) + a
        self.history.append(e)
        self._mix(_clean(a))
        if self.log_lines is not None:
            self.log_lines.append('%.6f #%d %s %s' % (self.now - self.base, self.steps,
                                                      self.cur.name, ' '.join(map(_clean, a))))
        return self.evseq

    def note(self, *a):
        if self.log_lines is not None:
            self.log_lines.append('%.6f #%d %s %s' % (self.now - self.base, self.steps,
                                                      self.cur.name, ' '.join(map(str, a))))

    def seq(self):
        self.evseq += 1
        return self.evseq

    # ---- run ----------------------------------------------------------------------------------
    def run(self, main):
        """Run main in the calling thread as simulated thread 0"""
        global SIM
        t = SimThread(0, 'main')
        t.state = 'run'
        t.ident = real_ident()
        self.threads.append(t)
        self.cur = t
        if self.mode == 'pct':
            L = self.sched.get('len', 1000)
            self.cps = sorted(self.rng.randrange(1, L) for _ in range(self.sched.get('d', 3)))
            t.prio = self.rng.random()
        if self.replay is not None:
            self.next_at = self.replay_keys[0] if self.replay_keys else INF
        elif self.mode == 'rw':
            self._draw_gap()
        elif self.mode == 'site':
            self.next_at = 0
        elif self.mode == 'pct':
            self.next_at = self.cps[0] if self.cps else INF
        SIM = self
        try:
            return main()
        finally:
            SIM = None

    def _draw_gap(self):
        self.next_at = self.steps + 1 + int(self.rng.expovariate(1.0 / self.gap))

    # ---- scheduling ---------------------------------------------------------------------------
    def start_thread(self, func, args, kwargs):
        if self.thread_limit is not None and self.thread_limit(getattr(func, '__self__', None)):
            self.fault('thread-limit')
            raise RuntimeError("can't start new thread")
        t = SimThread(len(self.threads), 't%d' % len(self.threads))
        owner = getattr(func, '__self__', None)
        if isinstance(owner, threading.Thread):
            t.name = 't%d(%s)' % (t.tid, owner.name.split('(')[0])
        t.proc = self.cur.proc
        t.prio = self.rng.random() if self.replay is None else 0.0
        self.threads.append(t)

        def boot():
            t.baton.acquire()
            t.ident = real_ident()
            try:
                func(*args, **kwargs)
            except SystemExit:
                pass
            except Violation as e:
                self.fail(e.klass, e.msg)
            except BaseException as e:
                self.thread_errors.append((t.name, e))
                hook = self.crash_hook
                if hook is not None:
                    try:
                        hook(t, e)
                    except Violation as v:
                        self.fail(v.klass, v.msg)
            finally:
                self.thread_exit(t)

        ident = real_start(boot, ())
        t.state = 'runnable'
        self.runnable.append(t)
        self.stats['threads'] += 1
        self.yield_point('start')
        return ident

    def thread_exit(self, t):
        self.steps += 1
        if t.sentinel is not None:
            lk, t.sentinel = t.sentinel, None
            if lk._held:
                lk._held = False
                if lk._waiters:
                    self.wake_all(lk)
        t.state = 'done'
        nxt = self._pick()
        self._hand(nxt)

    def _hand(self, nxt):
        self.cur = nxt
        nxt.state = 'run'
        self.switches += 1
        self._mix('>%d' % nxt.tid)
        nxt.baton.release()

    def _switch(self, me, nxt, why=''):
        self._mix(why)
        self._hand(nxt)
        me.baton.acquire()

    def _choose(self):
        """pick and remove a thread from non-empty runnable list"""
        r = self.runnable
        if self.replay is not None:
            e = self.replay.get(self.steps)
            if e is not None and e[1] == 'C':
                for i, t in enumerate(r):
                    if t.tid == e[2]:
                        return r.pop(i)
            return r.pop(0)
        n = len(r)
        if n == 1:
            return r.pop(0)
        if self.mode == 'pct' and self.steps < self.max_steps // 4:
            i = max(range(n), key=lambda k: (r[k].prio, -r[k].tid))
        elif self.mode == 'calm':
            i = 0
        else:
            i = self.rng.randrange(n)
        t = r.pop(i)
        if i:
            self.trace.append([self.steps, 'C', t.tid])
        return t

    def _pick(self):
        """current thread cannot go on: find the next one, advancing the clock if needed"""
        self.steps += 1
        if self.steps > self.max_steps:
            self._stuck('steps')
        while not self.runnable:
            if not self._fire_timers():
                self._stuck('deadlock')
        return self._choose()

    def _fire_timers(self):
        """advance the clock to the earliest timer. False if there are none"""
        tm = self.timers
        fired = False
        while tm:
            when, _, t, token = tm[0]
            if t.token != token or t.state != 'blocked':
                heapq.heappop(tm)
                continue
            if fired and when > self.now:
                break
            heapq.heappop(tm)
            if when > self.now:
                if when > self.horizon:
                    self._stuck('time')
                self.now = when
            self.stats['timer_fired'] += 1
            t.timed_out = True
            self._unblock(t)
            fired = True
        return fired

    def _due(self):
        """wake threads whose timers became due because the clock was moved by other means"""
        tm = self.timers
        while tm and tm[0][0] <= self.now:
            _, _, t, token = heapq.heappop(tm)
            if t.token == token and t.state == 'blocked':
                t.timed_out = True
                self._unblock(t)

    def _unblock(self, t):
        if t.wait_obj is not None:
            try:
                t.wait_obj._waiters.remove(t)
            except ValueError:
                pass
            t.wait_obj = None
        t.token += 1
        t.state = 'runnable'
        self.runnable.append(t)

    def wake_all(self, obj):
        ws, obj._waiters = obj._waiters, []
        for t in ws:
            t.wait_obj = None
            t.timed_out = False
            t.token += 1
            t.state = 'runnable'
            self.runnable.append(t)

    def block(self, obj, deadline):
        """Block the current thread on obj. Returns False if woken by the deadline"""
        me = self.cur
        me.state = 'blocked'
        me.timed_out = False
        me.wait_obj = obj
        if obj is not None:
            obj._waiters.append(me)
        if deadline is not None:
            self.tseq += 1
            heapq.heappush(self.timers, (deadline, self.tseq, me, me.token))
        nxt = self._pick()
        if nxt is me:
            me.state = 'run'
            self.cur = me
        else:
            self._switch(me, nxt)
        return not me.timed_out

    def sleep(self, secs):
        self.stats['sleep'] += 1
        if self.sleep_hook is not None:
            self.sleep_hook(secs)
        self.steps += 1
        if secs == 0:
            self.yield_point('sleep0')
            return
        if self.replay is None and self.sched.get('late', 0.0) and self.faults_on and \
                self.rng.random() < self.sched['late']:
            d = round(self.rng.random() * self.stall_max, 6)
            self.trace.append([self.steps, 'L', d])
            self.stats['late_wakeup'] += 1
            self.stall_total += d
            secs += d
        elif self.replay is not None:
            e = self.replay.get(self.steps)
            if e is not None and e[1] == 'L':
                secs += e[2]
                self.stall_total += e[2]
                self.stats['late_wakeup'] += 1
                self.trace.append(e)
        self.block(None, self.now + secs)

    def read_clock(self):
        self.now += self.tick
        self.reads += 1
        if self.tick == 0 and self.reads % 500 == 0:
            self.now += 0.001
        if self.timers and self.timers[0][0] <= self.now:
            self._due()
        return self.now

    def advance(self, d):
        """Move the monotonic clock (harness use)"""
        self.now += d
        self._due()

    def wall_jump(self, d):
        self.wall_offset += d
        self.stats['wall_clock_jump'] += 1

    def yield_point(self, why):
        self.steps += 1
        if self.quiet:
            return
        if self.steps > self.max_steps:
            self._stuck('steps')
        if self.replay is not None:
            e = self.replay.get(self.steps)
            if e is not None:
                self._apply(e, why)
            return
        if self.mode == 'calm':
            return
        if self.mode == 'pct' and self.steps < self.max_steps // 4:
            if self.cps and self.steps >= self.cps[0]:
                self._pct_change(why)
            else:
                # a higher priority thread that became runnable takes over
                if self.runnable:
                    best = max(self.runnable, key=lambda t: (t.prio, -t.tid))
                    if best.prio > self.cur.prio:
                        self._preempt_to(best, why)
            return
        if self.runnable and self.rng.random() < self.plock:
            self._preempt(why)

    def instr_point(self, code, off):
        """Called at an instruction of satella code when next_at was reached"""
        if self.steps > self.max_steps:
            self._stuck('steps')
        if self.replay is not None:
            ks = self.replay_keys
            while self.replay_pos < len(ks) and ks[self.replay_pos] < self.steps:
                self.replay_pos += 1
            if self.replay_pos < len(ks) and ks[self.replay_pos] == self.steps:
                self.replay_pos += 1
                self.next_at = ks[self.replay_pos] if self.replay_pos < len(ks) else INF
                self._apply(self.replay[self.steps], '%s:%d' % (code.co_qualname, off))
            else:
                self.next_at = ks[self.replay_pos] if self.replay_pos < len(ks) else INF
            return
        m = self.mode
        if m == 'rw':
            self._draw_gap()
            self._preempt('%s:%d' % (code.co_qualname, off))
        elif m == 'site':
            if (_site(code, off) ^ self.salt) % self.site_mod == 0:
                if self.rng.random() < 0.7:
                    self._preempt('%s:%d' % (code.co_qualname, off))
        elif m == 'pct':
            self._pct_change('%s:%d' % (code.co_qualname, off))

    def _pct_change(self, why):
        self.cps.pop(0)
        self.next_at = self.cps[0] if self.cps else INF
        self.cur.prio = -self.rng.random()
        if self.pstall and self.faults_on and self.rng.random() < self.pstall:
            self._stall(self._stall_len())
            return
        if self.runnable:
            best = max(self.runnable, key=lambda t: (t.prio, -t.tid))
            self._preempt_to(best, why)

    def _stall_len(self):
        return round(self.stall_max * (10 ** (-3 * self.rng.random())), 6)

    def _preempt(self, why):
        if self.pstall and self.faults_on and self.rng.random() < self.pstall:
            self._stall(self._stall_len())
            return
        r = self.runnable
        if not r:
            return
        t = r[self.rng.randrange(len(r))] if len(r) > 1 else r[0]
        self._preempt_to(t, why)

    def _preempt_to(self, t, why):
        me = self.cur
        self.trace.append([self.steps, 'P', t.tid])
        self.stats['preempt'] += 1
        self.runnable.remove(t)
        me.state = 'runnable'
        self.runnable.append(me)
        self._switch(me, t, why)

    def _stall(self, d):
        self.trace.append([self.steps, 'S', d])
        self.stats['stall'] += 1
        self.stall_total += d
        self._mix('stall')
        self.block(None, self.now + d)

    def _apply(self, e, why):
        if e[1] == 'P':
            for t in self.runnable:
                if t.tid == e[2]:
                    self._preempt_to(t, why)
                    return
        elif e[1] == 'S':
            self._stall(e[2])

    # ---- fault decisions ----------------------------------------------------------------------
    def flip(self, tag, p, n=1):
        """
        One recorded fault decision: 0 (no fault), or 1..n with total probability p.
        """
        i = self.flip_n.get(tag, 0)
        self.flip_n[tag] = i + 1
        if self.flip_replay is not None:
            v = self.flip_replay.get(tag, {}).get(i, 0)
        else:
            v = 0
            if self.faults_on and p and self.frng.random() < p:
                v = 1 + (self.frng.randrange(n) if n > 1 else 0)
        if v:
            self.flips.setdefault(tag, []).append([i, v])
            self.stats['fault:' + tag] += 1
            self._mix('f%s%d' % (tag, v))
        return v

    def fault(self, name):
        """an injected fault has fired"""
        self.stats['fault:' + name] += 1

    def probe(self, name):
        self.probes[name] += 1

    # ---- processes ----------------------------------------------------------------------------
    def kill_process(self, proc):
        """threads of this simulated process never run again"""
        for t in self.threads:
            if t.proc == proc and t.state not in ('done', 'crashed'):
                if t in self.runnable:
                    self.runnable.remove(t)
                if t.wait_obj is not None:
                    try:
                        t.wait_obj._waiters.remove(t)
                    except ValueError:
                        pass
                t.token += 1
                if t is not self.cur:
                    t.state = 'crashed'

    def vanish(self):
        """the current thread never runs again (its process crashed)"""
        me = self.cur
        me.state = 'crashed'
        nxt = self._pick()
        self._hand(nxt)
        me.baton.acquire()
        raise HarnessError('crashed thread resumed')

    # ---- termination --------------------------------------------------------------------------
    def stacks(self):
        fr = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state in ('done', 'crashed'):
                continue
            f = fr.get(t.ident)
            st = []
            while f is not None:
                fn = f.f_code.co_filename
                if fn.startswith(SAT) or '/dst/checks/' in fn:
                    st.append('%s:%d %s' % (os.path.basename(fn), f.f_lineno, f.f_code.co_name))
                f = f.f_back
            out.append('%s[%s]: %s' % (t.name, t.state, ' < '.join(st[:6])))
        return out

    def _stuck(self, why):
        global SIM
        SIM = None
        try:
            if self.on_stuck is not None:
                self.quiet = True
                self.on_stuck(why)
            msg = '%s at t=%.3f: %s' % (
                {'deadlock': 'all threads blocked forever', 'time': 'no progress within the horizon',
                 'steps': 'step limit exceeded (livelock)'}[why], self.now - self.base,
                '; '.join(self.stacks()))
            self._done('stuck', msg)
        except Violation as e:
            self._done(e.klass, e.msg)

    def fail(self, klass, msg):
        global SIM
        SIM = None
        self._done(klass, msg)

    def _done(self, klass, msg):
        self.finish_cb(klass, msg)
        os._exit(0)

    # ---- helpers for scenarios ----------------------------------------------------------------
    def spawn(self, fn, *args, name=None, daemon=True):
        th = threading.Thread(target=fn, args=args, daemon=daemon, name=name or fn.__name__)
        th.start()
        return th

    def call(self, name, fn, *args, show=None, **kw):
        """Execute one API call and record it: (invoke, return, tid, name, args, outcome)"""
        inv = self.seq()
        t0 = self.now
        tid = self.cur.tid
        try:
            r = ('ok', fn(*args, **kw))
        except Exception as e:
            r = ('exc', type(e).__name__, e)
        ret = self.seq()
        if show is not None:
            args = show
        op = Op(inv, ret, tid, name, args, r, t0, self.now)
        self.history.append(op)
        self._mix('%s%r%s' % (name, r[0], r[1] if r[0] == 'exc' else ''))
        if self.log_lines is not None:
            self.note('%s%s -> %s' % (name, _clean(args), _clean(r[:2])))
        return op


class Op:
    __slots__ = ('inv', 'ret', 'tid', 'name', 'args', 'r', 't0', 't1')

    def __init__(self, inv, ret, tid, name, args, r, t0, t1):
        self.inv, self.ret, self.tid, self.name, self.args, self.r = inv, ret, tid, name, args, r
        self.t0, self.t1 = t0, t1

    @property
    def ok(self):
        return self.r[0] == 'ok'

    @property
    def value(self):
        return self.r[1]

    @property
    def exc(self):
        return self.r[1] if self.r[0] == 'exc' else None

    def __repr__(self):
        return '%s%r->%r' % (self.name, self.args, self.r[:2])


_ADDR = re.compile(r'0x[0-9a-f]{6,}')


def _clean(x):
    return _ADDR.sub('0x', repr(x))


def sim():
    return SIM


def from_satella(e):
    """True if the exception came out of (or through) satella code"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SAT):
            return True
        tb = tb.tb_next
    return False


def fmt_exc(e):
    return ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' + ' < '.join(
        '%s:%d' % (os.path.basename(f.filename), f.lineno)
        for f in reversed(traceback.extract_tb(e.__traceback__)[-5:]))
