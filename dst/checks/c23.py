"""C23 running other programs: call_and_return_stdout, read_nowait"""
import subprocess
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.exceptions import ProcessFailed
from satella.processes import call_and_return_stdout, read_nowait

EPS = 0.35
TEXT = 'zażółć gęślą jaźń €✓ '


class Pipe:
    """reading blocks until there is enough or all writers are gone, writing blocks when full"""

    def __init__(self, sim, capacity):
        self.sim = sim
        self.cond = threading.Condition()
        self.buf = b''
        self.capacity = capacity
        self.writers = 1
        self.closed = False

    def write_all(self, data, alive):
        while data:
            with self.cond:
                while len(self.buf) >= self.capacity and alive():
                    self.cond.wait()
                if not alive():
                    return
                n = self.capacity - len(self.buf)
                self.buf += data[:n]
                data = data[n:]
                self.cond.notify_all()

    def writer_gone(self):
        with self.cond:
            self.writers -= 1
            self.cond.notify_all()

    def read(self, n=-1):
        out = b''
        with self.cond:
            while n < 0 or len(out) < n:
                if self.buf:
                    k = len(self.buf) if n < 0 else n - len(out)
                    out += self.buf[:k]
                    self.buf = self.buf[k:]
                    self.cond.notify_all()
                elif self.writers <= 0:
                    break
                else:
                    self.cond.wait()
        self.sim.yield_point('pipe')
        return out

    def read1(self, n=-1):
        with self.cond:
            while not self.buf and self.writers > 0:
                self.cond.wait()
            k = len(self.buf) if n < 0 else n
            out, self.buf = self.buf[:k], self.buf[k:]
            self.cond.notify_all()
            return out

    def readline(self):
        out = b''
        while not out.endswith(b'\n'):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def __iter__(self):
        return iter(self.readline, b'')

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Proc:
    """a process that runs a program of sleeps and writes"""

    def __init__(self, sim, p, prog):
        self.p = p
        self.sim = sim
        self.stdout = Pipe(sim, p['capacity'])
        self.returncode = None
        self.code = None
        self.killed = False
        self.cond = threading.Condition()
        self.pid = 4000
        self.args = None
        self.ended_at = None
        t = threading.Thread(target=self.body, args=(prog,), daemon=True)
        t._dst_client = True
        t.start()

    def alive(self):
        return not self.killed

    def body(self, prog):
        for op, arg in prog:
            if self.killed:
                break
            if op == 'sleep':
                with self.cond:
                    self.cond.wait_for(lambda: self.killed, arg)
            elif op == 'write':
                self.stdout.write_all(arg.encode('utf-8') if isinstance(arg, str) else arg, self.alive)
            elif op == 'close' and self.stdout.writers > 0:
                self.stdout.writer_gone()
        if self.p['linger']:
            self.stdout.writers += 1
            threading.Thread(target=self.grandchild, daemon=True).start()
        with self.cond:
            self.code = -9 if self.killed else self.p['code']
            self.ended_at = self.sim.now
            self.cond.notify_all()
        self.stdout.writer_gone()

    def grandchild(self):
        time.sleep(self.p['linger'])
        self.stdout.writer_gone()

    def poll(self):
        with self.cond:
            self.returncode = self.code
            return self.returncode

    def wait(self, timeout=None):
        with self.cond:
            if not self.cond.wait_for(lambda: self.code is not None, timeout):
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self.code
            return self.code

    def kill(self):
        with self.cond:
            if self.code is None:
                self.killed = True
                self.cond.notify_all()
        with self.stdout.cond:
            self.stdout.cond.notify_all()

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def communicate(self, input=None, timeout=None):
        end = None if timeout is None else self.sim.now + timeout
        got = []
        t = threading.Thread(target=lambda: got.append(self.stdout.read()), daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.wait(None if end is None else max(0.0, end - self.sim.now))
        return got[0], None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stdout.close()
        self.wait()


class Calling(Scenario):
    name = 'call'

    def gen(self, rng):
        prog = []
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.6:
                prog.append(['write', (TEXT * rng.choice([1, 3, 40, 200, 700]))[:rng.choice([1, 7, 100, 5000, 20000])]])
            else:
                prog.append(['sleep', rng.choice([0.05, 0.5, 2.0])])
        if rng.random() < 0.2:
            prog.append(['close', 0])
            prog.append(['sleep', rng.choice([0.5, 2.0])])
        return {'progs': [prog], 'capacity': rng.choice([1, 64, 4096, 65536]) if len(prog) < 3 else rng.choice([512, 4096, 65536]),
                'code': rng.choice([0, 0, 1, 7]), 'expect': rng.choice([None, None, 0, 7]),
                'encoding': rng.choice([None, 'utf-8']), 'linger': rng.choice([0, 0, 0, 5.0]),
                'timeout': rng.choice([None, None, 0.2, 1, '1s', 3.0]), 'how': rng.choice(['call', 'call', 'call', 'nowait', 'missing']),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        prog = p['progs'][0]
        if p['capacity'] == 1:
            prog = [[op, arg[:200] if op == 'write' else arg] for op, arg in prog]
        procs = []
        seen = []

        def popen(args, **kw):
            seen.append((args, kw))
            if p['how'] == 'missing':
                sim.fault('spawn')
                raise FileNotFoundError(args)
            pr = Proc(sim, p, prog)
            pr.args = args
            procs.append(pr)
            return pr

        subprocess.Popen = popen
        want = ''.join(arg for op, arg in prog if op == 'write')
        if p['encoding'] is None:
            want = want.encode('utf-8')
        runs = sum(arg for op, arg in prog if op == 'sleep')
        closes = 0
        for op, arg in prog:
            if op == 'close':
                break
            closes += arg if op == 'sleep' else 0
        t0 = sim.now
        if p['how'] == 'nowait':
            out = []
            pr = Proc(sim, p, prog)
            fut = read_nowait(pr, out)
            fut.result()
            dt = sim.now - t0
            got = b''.join(out)
            if got != (want if isinstance(want, bytes) else want.encode('utf-8')):
                raise Violation('output', 'read %d bytes of %d' % (len(got), len(want)))
            if dt > runs + p['linger'] + EPS:
                raise Violation('late', 'read_nowait ended after %.2f s, stdout was closed after %.2f' % (dt, runs + p['linger']))
            return
        kw = {}
        if p['timeout'] is not None:
            kw['timeout'] = p['timeout']
        if p['encoding'] is not None:
            kw['encoding'] = p['encoding']
        if p['expect'] is not None:
            kw['expected_return_code'] = p['expect']
        limit = {'1s': 1.0}.get(p['timeout'], p['timeout'])
        try:
            r = ('ok', call_and_return_stdout(['prog', 'arg'], cwd='/', **kw))
        except (TimeoutError, ProcessFailed, FileNotFoundError) as e:
            r = ('exc', e)
        dt = sim.now - t0
        if len(seen) != 1 or seen[0][0] != ['prog', 'arg'] or seen[0][1].get('cwd') != '/' or seen[0][1].get('stdout') != subprocess.PIPE:
            raise Violation('arguments', 'Popen was called with %r' % (seen,))
        if p['how'] == 'missing':
            if not isinstance(r[1], FileNotFoundError):
                raise Violation('not-raised', 'program does not exist, result was %r' % (r,))
            return
        pr = procs[0]
        if isinstance(r[1], TimeoutError):
            if limit is None or runs < limit - EPS:
                raise Violation('timeout', 'TimeoutError after %.2f s, the program takes %.2f, timeout %s' % (dt, runs, limit))
            if not limit - 0.001 <= dt <= limit + EPS:
                raise Violation('timeout', 'TimeoutError after %.2f s, timeout was %s' % (dt, limit))
            if pr.code is None:
                raise Violation('not-killed', 'the process is running after a TimeoutError')
            return
        if limit is not None and runs > limit + EPS:
            raise Violation('timeout', 'no TimeoutError, the program takes %.2f, timeout %s, took %.2f' % (runs, limit, dt))
        if pr.code is None:
            raise Violation('early', 'returned while the process is running')
        if pr.killed:
            raise Violation('killed', 'the process was killed')
        if dt > runs + p['linger'] + EPS:
            raise Violation('late', 'took %.2f s, the program takes %.2f' % (dt, runs + p['linger']))
        if p['expect'] is not None and p['expect'] != p['code']:
            if not isinstance(r[1], ProcessFailed):
                raise Violation('not-raised', 'return code %d, result was %r' % (p['code'], r))
            if r[1].rc != p['code'] or r[1].stdout_so_far != want:
                raise Violation('output', 'ProcessFailed has rc %r' % r[1].rc)
            return
        if r[0] != 'ok':
            raise Violation('raised', 'raised %r with return code %d' % (r[1], p['code']))
        if r[1] != want:
            raise Violation('output', 'returned %d of %d characters' % (len(r[1]), len(want)))


SCENARIOS = [Calling()]
