"""C37 daemonize"""
import errno
import grp
import io
import os
import pwd
import sys

from ..core import Violation
from ..runner import Scenario, gen_sched

from satella.os import daemonize

USERS = {'alice': 1001, 'root': 0, 'daemon': 2}
GROUPS = {'staff': 501, 'root': 0, 'daemon': 3}
CALLS = ['fork1', 'fork2', 'setsid', 'chdir', 'umask', 'seteuid', 'setegid', 'null']


class Exit(BaseException):
    pass


class Proc:
    """what the kernel knows of a process"""

    def __init__(self, pid, ppid, like=None):
        self.pid, self.ppid = pid, ppid
        for a, v in (('sid', 1), ('umask', 0o22), ('cwd', '/home'), ('euid', 0), ('egid', 0), ('uid', 0), ('gid', 0), ('saved', (0, 0))):
            setattr(self, a, getattr(like, a) if like is not None else v)


class Daemonize(Scenario):
    name = 'daemonize'

    def gen(self, rng):
        start = rng.choice([0, 0, 0, 700])
        return {'progs': [], 'start': start,
                'uid': rng.choice([None, None, 1001, 0, 'alice', 'daemon', 'nobody-here', 700]),
                'gid': rng.choice([None, None, 501, 0, 'staff', 'daemon', 'nobody-here', 700]),
                'redirect': rng.random() < 0.7, 'fail': rng.choice(CALLS) if rng.random() < 0.3 else None,
                'nostd': rng.choice([None, None, None, 'stdin', 'stdout', 'stderr']),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        self.sim, self.p = sim, p
        real = {n: getattr(os, n) for n in ('fork', 'setsid', 'umask', 'chdir', 'seteuid', 'setegid', 'setuid', 'setgid', 'getpid', 'getppid', 'geteuid', 'getegid')}
        std = sys.stdin, sys.stdout, sys.stderr
        import builtins
        opn = builtins.open
        outcomes = {}
        try:
            for who in ('first', 'middle', 'daemon'):
                outcomes[who] = self.process(who)
        finally:
            for n, f in real.items():
                setattr(os, n, f)
            sys.stdin, sys.stdout, sys.stderr = std
            builtins.open = io.open = opn

    def process(self, who):
        sim, p = self.sim, self.p
        cur = Proc(100, 50)
        cur.euid = cur.uid = cur.egid = cur.gid = p['start']
        cur.saved = (p['start'], p['start'])
        log = []
        n = [0]

        def call(name):
            sim.yield_point(name)
            log.append((name, cur.pid))
            if p['fail'] == name:
                sim.fault('fail-' + name)
                raise OSError(errno.EAGAIN if 'fork' in name else errno.EPERM, 'no')

        def fork():
            nonlocal cur
            n[0] += 1
            call('fork%d' % min(n[0], 2))
            child = Proc(cur.pid + 100, cur.pid, cur)
            if n[0] > {'first': 0, 'middle': 1, 'daemon': 2}[who]:
                return child.pid
            cur = child
            return 0

        def setsid():
            call('setsid')
            if cur.sid == cur.pid:
                raise PermissionError(errno.EPERM, 'is a process group leader')
            cur.sid = cur.pid
            return cur.sid

        def umask(m):
            call('umask')
            old, cur.umask = cur.umask, m
            return old

        def chdir(d):
            call('chdir')
            cur.cwd = d

        def setter(name, attr, real, k, both):
            def f(v):
                call(name)
                if cur.euid != 0 and v not in (getattr(cur, real), cur.saved[k]) + ((getattr(cur, attr),) if k else ()):
                    raise PermissionError(errno.EPERM, 'Operation not permitted')
                setattr(cur, attr, v)
                if both:
                    setattr(cur, real, v)
            return f

        os.fork, os.setsid, os.umask, os.chdir = fork, setsid, umask, chdir
        os.seteuid = setter('seteuid', 'euid', 'uid', 0, False)
        os.setegid = setter('setegid', 'egid', 'gid', 1, False)
        os.setuid = setter('seteuid', 'euid', 'uid', 0, True)
        os.setgid = setter('setegid', 'egid', 'gid', 1, True)
        os.getpid, os.getppid = lambda: cur.pid, lambda: cur.ppid
        os.geteuid, os.getegid = lambda: cur.euid, lambda: cur.egid

        def getpwnam(x):
            return pwd.struct_passwd((x, 'x', USERS[x], 1, '', '/', '/bin/sh'))

        def getgrnam(x):
            return grp.struct_group((x, 'x', GROUPS[x], []))
        pwd.getpwnam, grp.getgrnam = getpwnam, getgrnam
        streams = {}
        for k, f in enumerate(('stdin', 'stdout', 'stderr')):
            s = io.StringIO('input\n')
            streams[f] = s
            setattr(sys, f, None if f == p['nostd'] else s)
        import builtins
        opn = io.open

        def fopen(path, *a, **kw):
            if path == '/dev/null':
                call('null')
            return opn(path, *a, **kw)
        builtins.open = fopen
        exits = []

        def leave(*a):
            exits.append((cur.pid, a))
            raise Exit()
        err = None
        try:
            daemonize(leave, p['redirect'], p['uid'], p['gid'])
        except Exit:
            err = 'exit'
        except (OSError, KeyError) as e:
            err = type(e).__name__ if isinstance(e, (KeyError, PermissionError)) else 'OSError'
        finally:
            builtins.open = opn
        self.judge(who, cur, log, exits, err, streams)

    def judge(self, who, cur, log, exits, err, streams):
        p = self.p
        names = [x[0] for x in log]
        pid = {'first': 100, 'middle': 200, 'daemon': 300}[who]
        forks = names.count('fork1') + names.count('fork2')
        bad_names = [x for x in ('uid', 'gid') if isinstance(p[x], str) and p[x] not in (USERS if x == 'uid' else GROUPS)]
        if who != 'daemon':
            if p['fail'] in names:
                if exits or err not in ('OSError', 'PermissionError'):
                    raise Violation('fault', 'a failing %s made for %s' % (p['fail'], err or 'nothing'))
                return
            if err != 'exit' or len(exits) != 1 or exits[0][0] != pid or exits[0][1]:
                raise Violation('exit', 'the %s process was to be ended once, %s, %s' % (who, exits, err))
            if any(s.closed for s in streams.values()):
                raise Violation('exit', 'the %s process closed its streams' % who)
            if who == 'first' and 'setsid' in names or forks != (1 if who == 'first' else 2):
                raise Violation('exit', 'the %s process made %s' % (who, names))
            return
        if exits:
            raise Violation('exit', 'the daemon was ended')
        if p['fail'] in names:
            if err not in ('OSError', 'PermissionError'):
                raise Violation('fault', 'a failing %s made for %s' % (p['fail'], err or 'nothing'))
            return
        uid = p['uid'] if not isinstance(p['uid'], str) else USERS.get(p['uid'])
        gid = p['gid'] if not isinstance(p['gid'], str) else GROUPS.get(p['gid'])
        if bad_names:
            if err not in ('KeyError', 'PermissionError'):
                raise Violation('names', 'uid %s, gid %s made for %s' % (p['uid'], p['gid'], err))
            return
        may = p['start'] == 0 or uid in (None, p['start']) and gid in (None, p['start'])
        if not may:
            if err != 'PermissionError':
                raise Violation('privileges', 'uid %s, gid %s by user %s made for %s' % (p['uid'], p['gid'], p['start'], err))
            return
        if err is not None:
            raise Violation('refused', 'uid %s, gid %s by user %s made for %s' % (p['uid'], p['gid'], p['start'], err))
        exp = {'pid': 300, 'sid': 200, 'umask': 0, 'cwd': '/', 'euid': p['start'] if uid is None else uid, 'egid': p['start'] if gid is None else gid}
        got = {k: getattr(cur, k) for k in exp}
        if got != exp:
            raise Violation('daemon', 'the daemon has %s, expected %s' % (got, exp))
        for f, s in streams.items():
            if f != p['nostd'] and not s.closed:
                raise Violation('streams', '%s is still open' % f)
        if p['redirect']:
            try:
                assert sys.stdin.read() == '' and sys.stdin.name == '/dev/null'
                print('text')
                print('text', file=sys.stderr, flush=True)
                assert sys.stdout.name == '/dev/null' and sys.stderr.name == '/dev/null'
            except Exception as e:
                raise Violation('streams', 'the redirected streams cannot be used: %s' % repr(e))
            for f in ('stdin', 'stdout', 'stderr'):
                getattr(sys, f).close()


SCENARIOS = [Daemonize()]
