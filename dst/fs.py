"""
File system, processes and descriptors under the simulator.

The files are real ones in a scratch directory; every call the code under test makes on them goes
through a seam that may let another thread run first, fail, fall short, or end the calling process.
A call that would change anything outside the scratch directory is refused and reported.
"""
import builtins
import errno
import io
import os
import shutil
import stat as _stat

from . import core
from .core import Violation

REAL = {n: getattr(os, n) for n in
        ('open', 'close', 'read', 'write', 'unlink', 'remove', 'rename', 'replace', 'link', 'symlink', 'stat', 'lstat',
         'fstat', 'ftruncate', 'truncate', 'fsync', 'fdatasync', 'mkdir', 'rmdir', 'listdir', 'scandir', 'access', 'getpid', 'getppid',
         'kill', 'lseek', 'chdir', 'fdopen', 'chmod', 'killpg', '_exit', 'abort', 'fork', 'execv', 'system')}
REAL_OPEN = io.open
REAL_RMTREE = shutil.rmtree
ROOT = None         # scratch directory of this process tree, made by make_root()


def make_root():
    """called once, before any run is forked"""
    global ROOT
    import atexit
    import tempfile
    if ROOT is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        ROOT = tempfile.mkdtemp(prefix='dst-', dir=base)
        me = os.getpid()

        def clean():
            if REAL['getpid']() == me:
                REAL_RMTREE(ROOT, ignore_errors=True)
        atexit.register(clean)
    return ROOT


class Raw(io.FileIO):
    """the bottom of every stream opened by the code under test"""
    _fs = None

    def write(self, b):
        fs = Raw._fs
        n = fs.enter('write')
        if n == 'short':
            b = memoryview(b).cast('B')
            return super().write(b[:max(1, len(b) // 2)])
        return super().write(b)

    def readinto(self, b):
        Raw._fs.enter('read')
        return super().readinto(b)

    def read(self, *a):
        Raw._fs.enter('read')
        return super().read(*a)

    def readall(self):
        Raw._fs.enter('read')
        return super().readall()

    def truncate(self, *a):
        Raw._fs.enter('truncate')
        return super().truncate(*a)

    def close(self):
        if self.closed or core.SIM is None:
            return super().close()
        fs = Raw._fs
        try:
            fd = self.fileno()
            fs.crash_point()
            fs.sim.yield_point('close')
        except ValueError:
            fd = None
        written = self.writable()
        try:
            super().close()
        finally:
            fs.fds.pop(fd, None)
        if written:
            fs.may_fail('close')


class FS:
    """
    crash: {process number: index of the call before which it ends}
    p: {operation: probability of failing}; 'short' is the probability of a short write
    """

    def __init__(self, sim, p=None, crash=None, errno_=errno.ENOSPC):
        self.sim = sim
        self.dir = os.path.join(ROOT, 'r')
        REAL_RMTREE(self.dir, ignore_errors=True)
        REAL['mkdir'](self.dir)
        self.p = p or {}
        self.crash = {int(k): v for k, v in (crash or {}).items()}
        self.calls = {}
        self.errno = errno_
        self.fds = {}               # descriptor -> process
        self.dead = set()
        self.locks = {}             # (dev, ino) -> {process: how}, POSIX record locks
        self.procs = {1, 999}       # living processes that are not simulated
        self.on_crash = None
        self.kills = []
        self.ops = 0
        REAL['chdir'](self.dir)
        self.install()

    # ---- processes ----
    def pid(self):
        pr = self.sim.cur.proc
        return 1000 + pr if isinstance(pr, int) else 999

    def alive(self, pid):
        return pid in self.procs

    def enter_process(self, n):
        self.sim.cur.proc = n
        self.procs.add(1000 + n)

    def leave_process(self):
        self.procs.discard(self.pid())
        self.drop_fds(self.sim.cur.proc)
        self.sim.cur.proc = None

    def drop_fds(self, proc):
        for fd, pr in list(self.fds.items()):
            if pr == proc:
                del self.fds[fd]
                try:
                    REAL['close'](fd)
                except OSError:
                    pass
        for d in self.locks.values():
            d.pop(proc, None)

    def crash_point(self):
        pr = self.sim.cur.proc
        k = self.calls[pr] = self.calls.get(pr, 0) + 1
        if self.crash.get(pr) == k and self.sim.faults_on:
            self.die()

    def die(self):
        """the calling process ends here, with only what it told the kernel done"""
        pr = self.sim.cur.proc
        self.sim.fault('crash')
        self.sim.note('pid %s dies' % self.pid())
        self.procs.discard(1000 + pr)
        self.dead.add(pr)
        self.drop_fds(pr)
        if self.on_crash is not None:
            self.on_crash(pr)
        self.sim.kill_process(pr)
        self.sim.vanish()

    def may_fail(self, op):
        p = self.p.get(op)
        if p and self.sim.flip('io-' + op, p):
            raise OSError(self.errno, os.strerror(self.errno))

    def enter(self, op):
        self.ops += 1
        self.crash_point()
        self.sim.yield_point(op)
        if self.sim.log_lines is not None:
            self.sim.note('pid %s %s' % (self.pid(), op))
        self.may_fail(op)
        if op == 'write':
            p = self.p.get('short')
            if p and self.sim.flip('io-short', p):
                return 'short'

    # ---- containment ----
    def inside(self, path, dir_fd=None):
        if isinstance(path, int):
            return path in self.fds
        if dir_fd is not None:
            return dir_fd in self.fds
        try:
            path = os.fsdecode(path)
        except TypeError:
            return False
        full = os.path.normpath(path if os.path.isabs(path) else os.path.join(os.getcwd(), path))
        return full == self.dir or full.startswith(self.dir + os.sep)

    def ours(self, path, dir_fd=None):
        """is this a call of the simulated program?"""
        return core.SIM is not None and self.inside(path, dir_fd)

    def guard(self, path, what, dir_fd=None):
        if core.SIM is None:
            return
        if not self.inside(path, dir_fd):
            raise Violation('escape', '%s outside of the directory of the program: %s'
                            % (what, os.path.basename(str(path))))

    # ---- seams ----
    def install(self):
        fs = self
        Raw._fs = self

        def mutator(name, npaths=1):
            real = REAL[name]

            def f(*a, **kw):
                if core.SIM is None:
                    return real(*a, **kw)
                dfd = kw.get('dir_fd')
                for x in a[:npaths]:
                    fs.guard(x, name, dfd)
                fs.enter('unlink' if name == 'remove' else name)
                return real(*a, **kw)
            f.__name__ = name
            setattr(os, name, f)

        for n in ('unlink', 'remove', 'mkdir', 'rmdir', 'truncate', 'ftruncate', 'chmod', 'chdir'):
            mutator(n)
        for n in ('rename', 'replace', 'link'):
            mutator(n, 2)

        def reader(name):
            real = REAL[name]

            def f(*a, **kw):
                if core.SIM is not None and a and fs.inside(a[0], kw.get('dir_fd')):
                    fs.enter(name)
                return real(*a, **kw)
            f.__name__ = name
            setattr(os, name, f)

        for n in ('stat', 'lstat', 'fstat', 'listdir', 'scandir', 'access', 'fsync', 'fdatasync', 'lseek'):
            reader(n)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if core.SIM is None:
                return REAL['open'](path, flags, mode, dir_fd=dir_fd)
            if not fs.inside(path, dir_fd):
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                    fs.guard(path, 'open', dir_fd)
                return REAL['open'](path, flags, mode, dir_fd=dir_fd)
            fs.enter('open')
            fd = REAL['open'](path, flags, mode, dir_fd=dir_fd)
            fs.fds[fd] = fs.sim.cur.proc
            return fd

        def os_close(fd):
            if fd in fs.fds and core.SIM is not None:
                fs.crash_point()
                fs.sim.yield_point('close')
                fs.unlock_posix(fd)
                fs.fds.pop(fd, None)
            return REAL['close'](fd)

        def os_read(fd, n):
            if fd in fs.fds and core.SIM is not None:
                fs.enter('read')
            return REAL['read'](fd, n)

        def os_write(fd, b):
            if fd in fs.fds and core.SIM is not None:
                if fs.enter('write') == 'short':
                    b = bytes(b)[:max(1, len(b) // 2)]
            return REAL['write'](fd, b)

        def opn(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            ours = core.SIM is not None and (file in fs.fds if isinstance(file, int) else fs.inside(file))
            if not ours:
                if core.SIM is not None and not isinstance(file, int) and set(mode) & set('wax+'):
                    fs.guard(file, 'open')
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return fs.stream(file, mode, buffering, encoding, errors, newline, closefd, opener)

        os.open, os.close, os.read, os.write = os_open, os_close, os_read, os_write
        builtins.open = io.open = opn
        os.getpid = lambda: fs.pid() if core.SIM is not None else REAL['getpid']()
        os.getppid = lambda: 1 if core.SIM is not None else REAL['getppid']()

        def kill(pid, sig):
            if core.SIM is None:
                return REAL['kill'](pid, sig)
            fs.sim.yield_point('kill')
            if not fs.alive(pid):
                raise ProcessLookupError(errno.ESRCH, 'No such process')
            if sig:
                fs.kills.append((fs.pid(), pid, sig))

        os.kill = kill
        os.killpg = kill

        def rmtree(path, *a, **kw):
            fs.guard(path, 'rmtree')
            return REAL_RMTREE(path, *a, **kw)

        shutil.rmtree = rmtree
        self.install_psutil()
        self.install_fcntl()

    def stream(self, file, mode, buffering, encoding, errors, newline, closefd, opener):
        binary = 'b' in mode
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        rawmode = ''.join(c for c in mode if c not in 'bt')
        if not isinstance(file, int):
            self.enter('open')
        raw = Raw(file, rawmode, closefd, opener)
        self.fds[raw.fileno()] = self.sim.cur.proc
        try:
            if not isinstance(file, int):
                raw.name = file
            line = buffering == 1
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            if buffering < 2:
                buffering = 8192
            if '+' in mode:
                b = io.BufferedRandom(raw, buffering)
            elif set(mode) & set('wax'):
                b = io.BufferedWriter(raw, buffering)
            else:
                b = io.BufferedReader(raw, buffering)
            if binary:
                return b
            t = io.TextIOWrapper(b, encoding or 'utf-8', errors, newline, line)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise

    def install_psutil(self):
        import psutil
        fs = self

        class Process:
            def __init__(self, pid=None):
                self.pid = fs.pid() if pid is None else pid
                if not fs.alive(self.pid):
                    raise psutil.NoSuchProcess(self.pid)

            def is_running(self):
                return fs.alive(self.pid)

            def status(self):
                return psutil.STATUS_RUNNING

        def pids():
            fs.sim.yield_point('pids')
            return sorted(fs.procs)

        def process_iter(*a, **kw):
            return iter([Process(x) for x in pids() if fs.alive(x)])

        def pid_exists(pid):
            fs.sim.yield_point('pids')
            return fs.alive(pid)

        psutil.pids, psutil.process_iter, psutil.pid_exists, psutil.Process = pids, process_iter, pid_exists, Process

    def unlock_posix(self, fd):
        try:
            st = REAL['fstat'](fd)
        except OSError:
            return
        d = self.locks.get((st.st_dev, st.st_ino))
        if d is not None:
            d.pop(self.sim.cur.proc, None)

    def install_fcntl(self):
        import fcntl
        import time
        fs = self
        real_flock = fcntl.flock

        def num(fd):
            return fd if isinstance(fd, int) else fd.fileno()

        def flock(fd, op):
            if core.SIM is None:
                return real_flock(fd, op)
            while True:
                fs.enter('flock')
                try:
                    return real_flock(num(fd), op | fcntl.LOCK_NB)
                except BlockingIOError:
                    if op & fcntl.LOCK_NB:
                        raise
                time.sleep(0.001)

        def lockf(fd, cmd, len=0, start=0, whence=0):
            while True:
                fs.enter('flock')
                st = REAL['fstat'](num(fd))
                d = fs.locks.setdefault((st.st_dev, st.st_ino), {})
                me = fs.sim.cur.proc
                if cmd & fcntl.LOCK_UN:
                    d.pop(me, None)
                    return
                ex = cmd & fcntl.LOCK_EX
                if not any(pr != me and (ex or how) for pr, how in d.items()):
                    d[me] = bool(ex)
                    return
                if cmd & fcntl.LOCK_NB:
                    raise BlockingIOError(errno.EWOULDBLOCK, 'Resource temporarily unavailable')
                time.sleep(0.001)

        fcntl.flock, fcntl.lockf = flock, lockf

    # ---- for the oracle: what is on the disk, with no side effects ----
    def path(self, *a):
        return os.path.join(self.dir, *a)

    def exists(self, name):
        try:
            REAL['lstat'](self.path(name))
            return True
        except FileNotFoundError:
            return False

    def content(self, name):
        try:
            fd = REAL['open'](self.path(name), os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            out = b''
            while True:
                b = REAL['read'](fd, 1 << 16)
                if not b:
                    return out
                out += b
        finally:
            REAL['close'](fd)

    def put(self, name, data):
        fd = REAL['open'](self.path(name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        try:
            REAL['write'](fd, data)
        finally:
            REAL['close'](fd)

    def ls(self):
        return sorted(REAL['listdir'](self.dir))
