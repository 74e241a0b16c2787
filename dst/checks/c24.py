"""C24 hang_until_sig"""
import signal
import sys
import time

from .. import core
from ..core import Violation
from ..runner import Scenario, gen_sched

from satella.os import hang_until_sig

SIGS = {'TERM': signal.SIGTERM, 'INT': signal.SIGINT, 'USR1': signal.SIGUSR1, 'USR2': signal.SIGUSR2, 'HUP': signal.SIGHUP}


class Died(BaseException):
    """the default action of a signal"""


class Interrupts:
    """
    Signals of the simulated process. They are delivered in the main thread, at a bytecode of satella code or in the middle of
    a sleep, and then the sleep goes on for the rest of its time, as the interpreter does it.
    """

    def __init__(self, sim, plan):
        self.sim = sim
        self.handlers = {s: signal.SIG_DFL for s in signal.Signals}
        self.handlers[signal.SIGINT] = signal.default_int_handler
        self.at_op = sorted((n, s) for k, n, s in plan if k == 'op')
        self.at_time = sorted((sim.now + t, s) for k, t, s in plan if k == 'time')
        self.ops = 0
        self.delivered = []
        self.real_sleep = time.sleep

    def install(self):
        def setsig(s, h):
            s = signal.Signals(s)
            if s in (signal.SIGKILL, signal.SIGSTOP):
                raise OSError(22, 'Invalid argument')
            if not callable(h) and h not in (signal.SIG_DFL, signal.SIG_IGN):
                raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
            old = self.handlers[s]
            self.handlers[s] = h
            return old

        signal.signal = setsig
        signal.getsignal = lambda s: self.handlers[signal.Signals(s)]
        time.sleep = self.sleep
        sys.settrace(self.trace)

    def uninstall(self):
        sys.settrace(None)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.SAT) or 'signals' not in frame.f_code.co_filename and 'time' not in frame.f_code.co_filename:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if event == 'opcode':
            self.ops += 1
            while self.at_op and self.at_op[0][0] <= self.ops:
                self.deliver(self.at_op.pop(0)[1])
        return self.trace

    def deliver(self, s):
        s = SIGS[s]
        h = self.handlers[s]
        self.sim.fault('signal')
        self.sim._mix('%s%d%.3f' % (s.name, self.ops, self.sim.now - self.sim.base))
        self.sim.note('signal', s.name)
        self.delivered.append((s, self.sim.now, h))
        if h is signal.SIG_IGN:
            return
        if h is signal.SIG_DFL or h is None:
            raise Died(s)
        h(s, None)

    def sleep(self, secs):
        end = self.sim.now + secs
        while self.at_time and self.at_time[0][0] <= end:
            t, s = self.at_time.pop(0)
            if t > self.sim.now:
                self.real_sleep(t - self.sim.now)
            self.deliver(s)
        if end > self.sim.now:
            self.real_sleep(end - self.sim.now)


def own_handler(log):
    def handler(s, f):
        log.append(s)
    return handler


class Hanging(Scenario):
    name = 'signals'

    def gen(self, rng):
        progs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            extra = rng.choice([None, [], ['USR1'], ['USR1', 'USR2'], ['USR1', 'USR1'], ['TERM'], ['HUP', 'INT'], ['USR2', 'KILL']])
            plan = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                s = rng.choice(['TERM', 'TERM', 'INT', 'INT', 'USR1', 'USR2', 'HUP'])
                if rng.random() < 0.5:
                    plan.append(['op', rng.randint(1, 300), s])
                else:
                    plan.append(['time', rng.choice([0.1, 1.0, 2.5, 10.0]), s])
            progs.append([[extra, rng.choice([0.5, 2, 2, 7.0]), plan]])
        return {'progs': progs, 'own': {s: rng.choice(['ign', 'own', 'none']) for s in SIGS if rng.random() < 0.4},
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        log = []
        it = Interrupts(sim, [])
        it.install()
        for s, how in p['own'].items():
            it.handlers[SIGS[s]] = {'ign': signal.SIG_IGN, 'own': own_handler(log), 'none': None}[how]
        for (extra, interval, plan), in p['progs']:
            it.at_op = sorted((it.ops + n, s) for k, n, s in plan if k == 'op')
            it.at_time = sorted((sim.now + t, s) for k, t, s in plan if k == 'time')
            # one that comes in the end, so that it ends
            it.at_time.append((sim.now + 100.0, 'TERM'))
            listened = {signal.SIGTERM, signal.SIGINT} | {SIGS[x] for x in extra or () if x in SIGS}
            before = dict(it.handlers)
            it.delivered = []
            got = None
            try:
                hang_until_sig([SIGS.get(x, signal.SIGKILL) for x in extra] if extra is not None else None, interval)
            except (Died, KeyboardInterrupt, OSError) as e:
                got = e
            mine = [(s, t) for s, t, h in it.delivered if s in listened and h is not before[s]]
            for s, h in it.handlers.items():
                want = signal.SIG_DFL if before[s] is None else before[s]
                if h is not want and h is not before[s]:
                    raise Violation('handlers', 'handler of %s was not put back' % s.name)
            if extra and 'KILL' in extra:
                if not isinstance(got, (OSError, Died, KeyboardInterrupt)):
                    raise Violation('not-raised', 'SIGKILL was accepted')
                continue
            if got is not None:
                # a signal not listened to, or one that came before or after the handlers were there
                s, t, h = it.delivered[-1]
                if h is not before[s]:
                    raise Violation('raised', 'raised %r after %s' % (got, s.name))
                sim.probe('outside')
                return
            if not mine:
                raise Violation('early', 'returned with no signal, seen were %s' % [s.name for s, t, h in it.delivered])
            first = mine[0][1]
            if sim.now < first:
                raise Violation('early', 'returned before the signal')
            if sim.now > first + interval + 0.1:
                raise Violation('late', 'returned %.2f s after %s, interval is %.2f' % (sim.now - first, mine[0][0].name, interval))
            sim.probe('ended-by-' + mine[0][0].name)
        it.uninstall()


SCENARIOS = [Hanging()]
