"""C29 AutoflushFile"""
import errno
import gc
import io
import os
import time

from ..core import Violation
from ..fs import FS, REAL
from ..runner import Scenario, gen_sched, spawn

from satella.files import AutoflushFile

READABLE = {'a+', 'ab+', 'w+', 'wb+'}


def fault_plan(rng, p, kinds=('open', 'read', 'write', 'short', 'truncate', 'close')):
    return {k: rng.choice([0.05, 0.3]) for k in kinds if rng.random() < p}


def no_descriptors(fs, pr, what):
    left = [fd for fd, x in fs.fds.items() if x == pr]
    if left:
        gc.collect()
        left = [fd for fd, x in fs.fds.items() if x == pr]
    if left:
        raise Violation('left-open', 'the file is still open after %s' % what)


class Position(Scenario):
    """one program, against a model of the file and of the position in it"""
    name = 'model'
    weight = 2

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(1, 12)):
            k = rng.choice(['write', 'write', 'write', 'read', 'readn', 'readall', 'seek', 'seek', 'trunc', 'truncpos', 'rotate', 'reopen'])
            ops.append([k, rng.randint(0, 30)] if k != 'seek' else [k, rng.randint(0, 30), rng.choice([0, 0, 0, 2])])
        return {'progs': [ops], 'mode': rng.choice(['w', 'wb', 'w+', 'a+', 'wb+', 'ab+', 'a', 'ab', 'w+', 'a+', 'ab+', 'wb+', 'r+', 'x', 'rb']),
                'init': rng.choice([None, 0, 5, 20]), 'buffering': rng.choice([None, None, -1, 16]), 'big': rng.random() < 0.1,
                'enc': rng.choice(['utf-8', 'utf-8', 'iso8859-2']),
                'p': fault_plan(rng, 0.2) if rng.random() < 0.5 else {}, 'errno': rng.choice([errno.ENOSPC, errno.EIO]),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        fs = FS(sim, {}, {}, p['errno'])
        fs.enter_process(0)
        if p['init'] is not None:
            fs.put('log', b'i' * p['init'])
        mode = p['mode']
        binary = 'b' in mode
        enc = p.get('enc', 'utf-8')
        kw = {} if binary else {'encoding': enc}
        args = ()
        if p['buffering'] is not None:
            if p['buffering'] == 16:
                args = 16,
            else:
                kw['buffering'] = p['buffering']

        def text(b):
            return b if binary else b.decode(enc)

        def make(mode):
            fs.p = p['p']
            try:
                f = AutoflushFile('log', mode, *args, **kw)
                no_descriptors(fs, 0, 'construction')
                return f
            finally:
                fs.p = {}

        if mode in ('r+', 'x', 'rb'):
            before = fs.content('log')
            try:
                make(mode)
            except ValueError:
                pass
            else:
                raise Violation('mode', 'mode %s was accepted' % mode)
            if fs.content('log') != before:
                raise Violation('touched', 'a refused mode changed the file')
            return
        before = fs.content('log')
        f = None
        try:
            f = make(mode)
        except OSError as e:
            if not p['p'] or e.errno != p['errno']:
                raise
            now = fs.content('log')
            if now != (before or b'') and now != before and not ('w' in mode and now == b''):
                raise Violation('content', 'a failed construction made %r of %r' % (now, before))
        if f is None:
            no_descriptors(fs, 0, 'construction')
            return
        data = b'' if 'w' in mode else before or b''
        pos = len(data)

        def same(what):
            now = fs.content('log')
            if now != data:
                raise Violation('content', 'after %s the file is %r, expected %r' % (what, now, data))

        same('construction')
        serial = 0
        for op in p['progs'][0]:
            k, n = op[0], op[1]
            if k == 'rotate':
                # another program moves the file away: it starts anew
                REAL['rename'](fs.path('log'), fs.path('log.old')) if fs.exists('log') else None
                data = b''
                try:
                    fs.p = p['p']
                    f.seek(0)
                    pos = 0
                except OSError as e:
                    if not p['p'] or e.errno != p['errno']:
                        raise
                    pos = None
                fs.p = {}
                no_descriptors(fs, 0, 'seek')
                if not fs.exists('log'):
                    fs.put('log', b'')
                continue
            if k == 'reopen':
                f.close()
                no_descriptors(fs, 0, 'close')
                for bad in (lambda: f.write(text(b'x')), lambda: f.read(), lambda: f.seek(0), lambda: f.truncate(0)):
                    try:
                        bad()
                    except io.UnsupportedOperation:
                        raise Violation('closed', 'closed file did not say so')
                    except ValueError:
                        pass
                    else:
                        raise Violation('closed', 'a closed file can be used')
                    no_descriptors(fs, 0, 'a refused call')
                same('close')
                while True:
                    try:
                        f = make(mode.replace('w', 'a'))
                        break
                    except OSError as e:
                        if not p['p'] or e.errno != p['errno']:
                            raise
                pos = len(data)
                continue
            got = want = None
            newpos = pos
            newdata = data
            fs.p = p['p']
            try:
                if k == 'write':
                    serial += 1
                    rec = (b'<%d:%s>' % (serial, (b'x' if enc == 'utf-8' or binary else b'\xbf') * (n * 500 if p['big'] else n)))
                    want = len(rec)
                    newdata = data + rec
                    newpos = len(newdata) if pos == len(data) else None      # as with any file opened to append
                    got = f.write(text(rec))
                elif k in ('read', 'readn', 'readall'):
                    if pos is not None and mode in READABLE:
                        want = text(data[pos:pos + n] if k == 'readn' else data[pos:])
                        newpos = min(max(pos, 0) + n, max(len(data), pos)) if k == 'readn' else max(len(data), pos)
                    got = f.read(n) if k == 'readn' else f.readall() if k == 'readall' else f.read()
                    if mode not in READABLE:
                        raise Violation('mode', 'a read succeeded in mode %s' % mode)
                elif k == 'seek':
                    whence = op[2]
                    want = newpos = n if whence == 0 else len(data)
                    got = f.seek(n if whence == 0 else 0, whence)
                elif k == 'trunc':
                    want = n
                    newdata = data[:n] + bytes(max(0, n - len(data)))
                    got = f.truncate(n)
                elif k == 'truncpos':
                    if pos is None:
                        continue
                    want = pos
                    newdata = data[:pos] + bytes(max(0, pos - len(data)))
                    got = f.truncate()
            except io.UnsupportedOperation:
                if mode in READABLE or not k.startswith('read'):
                    raise
                same('a refused read')
                continue
            except OSError as e:
                if not p['p'] or e.errno != p['errno']:
                    raise
                pos = None
                now = fs.content('log')
                if k == 'write' and now.startswith(data) and newdata.startswith(now) or now == newdata or now == data:
                    data = now
                    sim.probe('failed-' + k)
                else:
                    raise Violation('content', 'a failed %s made %r of %r' % (k, now, data))
                continue
            finally:
                fs.p = {}
                no_descriptors(fs, 0, k)
            if want is not None and (k in ('write', 'seek', 'trunc', 'truncpos') or pos is not None) and got != want:
                raise Violation('result', '%s gave %r, expected %r' % (op, got, want))
            pos, data = newpos, newdata
            same('%s' % (op,))
        f.close()
        no_descriptors(fs, 0, 'close')
        same('close')


class Appenders(Scenario):
    """programs appending to one file, some of which crash, while another reads it and moves it away"""
    name = 'appenders'
    weight = 2

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3, 4])
        progs = [[[rng.choice([0, 5, 40, 400]), rng.choice([0, 0, 0, 0.01])] for _ in range(rng.randint(1, 6))] for _ in range(n)]
        crash = {str(i): rng.randint(1, 40) for i in range(n) if rng.random() < 0.3}
        return {'progs': progs, 'crash': crash, 'rotate': rng.choice([0, 0, 1, 2, 4]),
                'modes': [rng.choice(['a', 'ab', 'a+', 'ab+']) for _ in range(n)],
                'p': fault_plan(rng, 0.2, ('open', 'write', 'close')) if rng.random() < 0.5 else {},
                'errno': rng.choice([errno.ENOSPC, errno.EIO]), 'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def run(self, sim, p):
        fs = FS(sim, p['p'], p['crash'], p['errno'])
        n = len(p['progs'])
        left = [n]
        done = []

        def gone(pr):
            left[0] -= 1

        fs.on_crash = gone

        def everything():
            return [fs.content(x) or b'' for x in fs.ls()]

        def check(rec, where=None):
            c = sum(x.count(rec) for x in everything())
            if c != 1:
                raise Violation('lost' if not c else 'twice', 'the record %r is in the file %d times after write() returned' % (rec[:20], c))

        def process(pr, prog):
            fs.enter_process(pr)
            binary = 'b' in p['modes'][pr]
            f = None
            for i, (size, delay) in enumerate(prog):
                if delay:
                    time.sleep(delay)
                rec = b'<%d.%d:%s>\n' % (pr, i, b'y' * size)
                try:
                    if f is None:
                        f = AutoflushFile('log', p['modes'][pr], **({} if binary else {'encoding': 'utf-8'}))
                    got = f.write(rec if binary else rec.decode())
                except OSError as e:
                    if not p['p'] or e.errno != p['errno']:
                        raise
                    e = None
                    no_descriptors(fs, pr, 'a failed call')
                    sim.probe('write-failed')
                    if sum(x.count(rec) for x in everything()) > 1:
                        raise Violation('twice', 'the record %r is there twice' % rec[:20])
                    continue
                if got != len(rec):
                    raise Violation('result', 'write() of %d gave %r' % (len(rec), got))
                no_descriptors(fs, pr, 'write')
                check(rec)
                done.append((pr, i, rec))
            if f is not None:
                f.close()
            fs.leave_process()
            left[0] -= 1

        def rotate():
            for k in range(p['rotate']):
                time.sleep(0.005)
                sim.yield_point('rotate')
                if fs.exists('log'):
                    REAL['rename'](fs.path('log'), fs.path('log.%d' % k))
                    sim.probe('rotated')
            left[0] -= 1

        left[0] += 1
        for i, prog in enumerate(p['progs']):
            spawn(sim, process, i, prog)
        spawn(sim, rotate)
        while left[0]:
            time.sleep(0.01)
        for pr, i, rec in done:
            check(rec)
        # in the order of each writer
        for pr in range(n):
            for c in everything():
                at = [c.index(rec) for q, i, rec in done if q == pr and rec in c]
                if at != sorted(at):
                    raise Violation('order', 'records of writer %d are out of order' % pr)


SCENARIOS = [Position(), Appenders()]
