"""C20 PIDFileLock"""
import errno
import time

from ..core import Violation
from ..fs import FS
from ..runner import Scenario, gen_sched, spawn

from satella.exceptions import ResourceLocked
from satella.os import PIDFileLock

STALE = ['', 'garbage\n', '4242\n', '4242', '  4242  \n', '12 34\n']


class Oops(Exception):
    pass


class Locking(Scenario):
    """processes that take the lock, crash with or without it, and find what others left"""
    name = 'processes'
    weight = 3

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        progs = [[[rng.choice(['lock', 'lock', 'with', 'raise', 'try2', 'other']), rng.choice([0, 0, 0.01, 0.1]),
                   rng.choice([0, 0, 0, 0.05])] for _ in range(rng.randint(1, 4))] for _ in range(n)]
        crash = {}
        for i in range(n):
            if rng.random() < 0.3:
                crash[str(i)] = rng.randint(1, 30)
        fail = {k: rng.choice([0.05, 0.3]) for k in ('write', 'close') if rng.random() < 0.15}
        if not fail and rng.random() < 0.15:
            fail = {'unlink': 0.4}
        return {'progs': progs, 'crash': crash, 'stale': rng.choice([None, None] + STALE + ['999\n']),
                'fail': fail,
                'errno': rng.choice([errno.ENOSPC, errno.EIO]),
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        fs = FS(sim, p['fail'], p['crash'], p['errno'])
        if p['stale'] is not None:
            fs.put('lock', p['stale'].encode())
        holder = [None]
        n = len(p['progs'])
        spans = []           # [process, first event, last event or None] of everything that may own the file
        left = [n]
        injected = bool(p['fail'])
        live999 = [p['stale'] == '999\n']

        def crashed(pr):
            if holder[0] == pr:
                holder[0] = None
                sim.probe('crash-with-lock')
            for s in spans:
                if s[0] == pr and s[2] is None:
                    s[2] = sim.seq()
            left[0] -= 1

        fs.on_crash = crashed

        def busy(pr, s, e):
            """could another living process have had the lock at some time between s and e?"""
            return {x[0] for x in spans if x[0] != pr and x[1] < e and (x[2] is None or x[2] > s)}

        def taken(pr, lk):
            if holder[0] is not None:
                raise Violation('two-holders', 'process %d got the lock while process %d holds it' % (pr, holder[0]))
            holder[0] = pr
            c = fs.content('lock')
            if c is None or c.strip() != b'%d' % (1000 + pr):
                raise Violation('pid-file', 'the lock file of process %d reads %r' % (1000 + pr, c))

        def body(pr, hold):
            if hold:
                time.sleep(hold)
            else:
                for _ in range(3):
                    sim.yield_point('locked')
            c = fs.content('lock')
            if c is None or c.strip() != b'%d' % (1000 + pr):
                raise Violation('pid-file', 'the lock file of the holder %d now reads %r' % (1000 + pr, c))

        def locked(pr, e, s):
            rivals = busy(pr, s, sim.seq())
            pid = e.args[0] if e.args else None
            if live999[0] and pid == 999:
                return
            if not rivals:
                raise Violation('falsely-locked', 'process %d was told that the lock is held by %r, nobody had it' % (pr, pid))
            if pid not in {1000 + x for x in rivals}:
                raise Violation('wrong-holder', 'process %d was told that %r holds the lock, candidates were %s'
                                % (pr, pid, sorted(rivals)))
            sim.probe('contended')

        def check_failed(lk):
            try:
                lk.release()
            except RuntimeError:
                return
            except OSError:
                raise Violation('release', 'release() of a lock not held did not raise RuntimeError')
            raise Violation('release', 'release() of a lock not held succeeded')

        def release(lk):
            """release, if it fails the lock is still held and can be released later"""
            while True:
                try:
                    return lk.release()
                except OSError:
                    if 'unlink' not in p['fail']:
                        raise
                    sim.probe('release-failed')
                    sim.yield_point('release')

        def process(pr, prog):
            fs.enter_process(pr)
            lk = PIDFileLock('lock', fs.dir)
            check_failed(lk)
            for op, hold, delay in prog:
                if delay:
                    time.sleep(delay)
                span = [pr, sim.seq(), None]
                spans.append(span)
                s = span[1]
                if op in ('with', 'raise'):
                    entered = False
                    try:
                        with lk:
                            entered = True
                            taken(pr, lk)
                            body(pr, hold)
                            holder[0] = None
                            if op == 'raise':
                                raise Oops()
                        if op == 'raise':
                            raise Violation('swallowed', 'the with statement swallowed an exception')
                    except ResourceLocked as e:
                        span[2] = sim.seq()
                        locked(pr, e, s)
                        check_failed(lk)
                        continue
                    except Oops:
                        pass
                    except OSError:
                        if entered and 'unlink' in p['fail']:
                            release(lk)
                            entered = False
                        elif entered or not injected:
                            raise
                        span[2] = sim.seq()
                        check_failed(lk)
                        continue
                else:
                    try:
                        lk.acquire()
                    except ResourceLocked as e:
                        span[2] = sim.seq()
                        locked(pr, e, s)
                        check_failed(lk)
                        continue
                    except OSError:
                        if not injected:
                            raise
                        span[2] = sim.seq()
                        check_failed(lk)
                        continue
                    taken(pr, lk)
                    if op in ('try2', 'other'):
                        try:
                            (lk if op == 'try2' else PIDFileLock('lock', fs.dir)).acquire()
                        except ResourceLocked as e:
                            if e.args != (1000 + pr,):
                                raise Violation('wrong-holder', 'the holder %d was told that %r holds the lock' % (1000 + pr, e.args))
                        except OSError:
                            if not injected:
                                raise
                        else:
                            raise Violation('two-holders', 'the lock was acquired twice')
                    body(pr, hold)
                    holder[0] = None
                    release(lk)
                span[2] = sim.seq()
                if not busy(pr, s, span[2]) and fs.exists('lock'):
                    raise Violation('not-removed', 'the lock file is there after release()')
                check_failed(lk)
            fs.leave_process()
            left[0] -= 1

        for i, prog in enumerate(p['progs']):
            spawn(sim, process, i, prog)
        while left[0]:
            time.sleep(0.05)
        # faults are over: the lock can be had
        sim.faults_on = False
        fs.p = {}
        fs.procs.discard(999)
        fs.enter_process(50)
        lk = PIDFileLock('lock', fs.dir)
        try:
            lk.acquire()
        except ResourceLocked as e:
            raise Violation('falsely-locked', 'nobody is left, but the lock is held by %r' % (e.args,))
        taken(50, lk)
        lk.release()
        if fs.exists('lock'):
            raise Violation('not-removed', 'the lock file is there after release()')
        check_failed(lk)


SCENARIOS = [Locking()]
