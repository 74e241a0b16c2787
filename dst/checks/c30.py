"""C30 helpers for files and directories"""
import codecs
import errno
import os
import re
import time

from ..core import Violation
from ..fs import FS, REAL
from ..runner import Scenario, gen_sched, spawn
from .c29 import fault_plan, no_descriptors

from satella.files import (read_re_sub_and_write, find_files, split, read_in_file, write_to_file, write_out_file_if_different,
                           make_noncolliding_name, try_unlink, read_lines, jump_to_directory)
from satella.os import safe_listdir, whereis

NAMES = ['a', 'b.txt', 'c.tar.gz', 'sub', 'sub/d.txt', 'sub/e', 'sub/a', 'sub/b.txt', 'sub/deep', 'sub/deep/f.txt', 'lnk', 'empty']
CONTENT = ['', 'one\ntwo\n\n  three \n\n \n', 'żółw\nąę', 'x' * 9000, 'aaa bbb aaa\n', 'same', 'one\none\n\ntwo\none\n']
ENC = [None, 'utf-8', 'utf-16-le', 'latin2', 'ascii']


def gen_tree(rng):
    tree = {}
    for n in NAMES:
        if rng.random() < 0.3:
            continue
        parent = os.path.dirname(n)
        if parent and tree.get(parent) != 'dir':
            continue
        if n in ('sub', 'sub/deep', 'empty'):
            tree[n] = 'dir'
        elif n == 'lnk':
            tree[n] = 'link:' + rng.choice(['a', 'sub', 'nothing', 'lnk'])
        else:
            tree[n] = 'file:' + rng.choice(CONTENT[:3] + CONTENT[4:])
    return tree


def build(fs, tree):
    for n, k in tree.items():
        if k == 'dir':
            REAL['mkdir'](fs.path(n))
        elif k.startswith('link:'):
            REAL['symlink'](k[5:], fs.path(n))
        else:
            fs.put(n, k[5:].encode())


def snapshot(fs):
    """name -> content of everything there is"""
    out = {}

    def walk(d, prefix):
        for e in sorted(REAL['listdir'](d)):
            full = os.path.join(d, e)
            st = REAL['lstat'](full)
            if (st.st_mode & 0o170000) == 0o040000:
                out[prefix + e] = 'dir'
                walk(full, prefix + e + '/')
            elif (st.st_mode & 0o170000) == 0o120000:
                out[prefix + e] = 'link:' + os.readlink(full)
            else:
                out[prefix + e] = fs.content(prefix + e)
    walk(fs.dir, '')
    return out


def kind(tree, n):
    """what a path leads to: file, dir or None"""
    seen = set()
    while isinstance(tree.get(n), str) and tree[n].startswith('link:'):
        if n in seen:
            return 'loop', None
        seen.add(n)
        n = tree[n][5:]
    v = tree.get(n)
    if v is None:
        return 'none', None
    return ('dir', n) if v == 'dir' else ('file', n)


class Helpers(Scenario):
    name = 'model'
    weight = 3

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(['write', 'write', 'read', 'read', 'lines', 'sub', 'diff', 'diff', 'diff', 'unlink', 'unlink', 'find', 'find',
                            'name', 'jump', 'jump', 'split', 'list', 'where'])
            ops.append([k, rng.choice(NAMES), rng.randrange(len(CONTENT)), rng.randrange(len(ENC)), rng.randint(0, 7)])
        return {'progs': [ops], 'tree': gen_tree(rng), 'p': fault_plan(rng, 0.2, ('open', 'read', 'write', 'short', 'close', 'unlink', 'listdir', 'chdir', 'mkdir', 'rmdir'))
                if rng.random() < 0.5 else {}, 'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]),
                'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        fs = FS(sim, {}, {}, p['errno'])
        fs.enter_process(0)
        build(fs, p['tree'])
        self.fs, self.sim, self.p = fs, sim, p
        for op in p['progs'][0]:
            before = snapshot(fs)
            self.before = before
            cwd = os.getcwd()
            err = None
            fs.p = p['p']
            try:
                getattr(self, 'do_' + op[0])(*op[1:])
            except OSError as e:
                if not p['p'] or e.errno != p['errno']:
                    raise
                err = e.errno
            finally:
                fs.p = {}
            no_descriptors(fs, 0, op[0])
            if os.getcwd() != cwd:
                if err is None or 'chdir' not in p['p']:
                    raise Violation('cwd', 'the current directory is another one after %s' % op[0])
                os.chdir(cwd)
            if err is not None:
                sim.probe('failed-' + op[0])
                self.damage(op, before, snapshot(fs))

    def damage(self, op, before, after):
        """what a failed call may have changed"""
        k, n, c = op[0], op[1], op[2]
        real = kind(before, n)
        target = real[1] if real[0] == 'file' else before.get(n, '')[5:] if str(before.get(n)).startswith('link:') else n
        diff = {x for x in set(before) | set(after) if before.get(x) != after.get(x)}
        if k in ('write', 'diff', 'sub'):
            allowed = {target}
        elif k == 'jump':
            allowed = {x for x in after if after[x] == 'dir' and x not in before}
        else:
            allowed = set()
        if diff - allowed:
            raise Violation('damage', 'a failed %s of %s changed %s' % (k, n, sorted(diff - allowed)))
        if k in ('write', 'diff') and target in diff:
            full = CONTENT[c].encode(ENC[op[3]] or 'utf-8', 'ignore')
            if not full.startswith(after[target]):
                raise Violation('damage', 'a failed %s left %r' % (k, after[target][:40]))

    # ---- operations ----
    def data(self, c, e):
        enc = ENC[e]
        try:
            raw = CONTENT[c].encode(enc or 'utf-8')
        except UnicodeEncodeError:
            raw = None
        return (CONTENT[c], enc, raw) if enc else (raw, None, raw)

    def expect(self, call, n, data, **kw):
        """a call that may fail because of what the path is"""
        k, real = kind(self.before, n)
        parent = os.path.dirname(n)
        if parent and kind(self.before, parent)[0] != 'dir':
            try:
                call()
            except (FileNotFoundError, NotADirectoryError):
                return False
            raise Violation('result', '%s succeeded without a directory' % n)
        if k in ('dir', 'loop'):
            try:
                call()
            except OSError as e:
                if e.errno not in (errno.EISDIR, errno.ELOOP):
                    raise
                return False
            raise Violation('result', '%s is a directory, and it succeeded' % n)
        return True

    def do_write(self, n, c, e, x):
        data, enc, raw = self.data(c, e)

        def call():
            write_to_file(n, data, enc)
        if raw is None:
            return self.unencodable(call, n)
        if self.expect(call, n, data):
            call()
            self.now_is(n, raw)

    def unencodable(self, call, n):
        """it fails, and nothing else than the file itself is changed"""
        before = self.before
        try:
            call()
        except UnicodeEncodeError:
            pass
        except OSError as e:
            if e.errno not in (errno.EISDIR, errno.ELOOP, errno.ENOENT, errno.ENOTDIR):
                raise
        else:
            raise Violation('result', 'writing what the encoding has not succeeded: %s' % n)
        self.sim.probe('unencodable')
        now = snapshot(self.fs)
        real = kind(before, n)[1] or (before[n][5:] if n in before else n)
        bad = sorted(y for y in set(now) | set(before) if now.get(y) != before.get(y) and y != real)
        if bad:
            raise Violation('damage', 'a failed write to %s changed %s' % (n, bad))

    def now_is(self, n, raw):
        real = kind(self.before, n)[1] or (self.before[n][5:] if n in self.before else n)
        want = dict(self.before)
        want[real] = raw
        now = snapshot(self.fs)
        if now != want:
            bad = sorted(y for y in set(now) | set(want) if now.get(y) != want.get(y))
            raise Violation('content', 'after it returned, %s is %r, expected %r' % (bad[0], (now.get(bad[0]) or '')[:60], (want.get(bad[0]) or '')[:60]))

    def unchanged(self, what):
        if snapshot(self.fs) != self.before:
            raise Violation('content', '%s changed something' % what)

    def do_diff(self, n, c, e, x):
        data, enc, raw = self.data(c, e)
        k, real = kind(self.before, n)
        old = self.before[real] if k == 'file' else None
        try:
            old_text = old.decode(enc) if enc and old is not None else old
        except UnicodeDecodeError:
            return

        def call():
            return write_out_file_if_different(n, data, enc)
        if raw is None:
            return self.unencodable(call, n)
        if not self.expect(call, n, data):
            return
        if real:
            os.utime(self.fs.path(real), (1000, 1000))
        got = call()
        now = REAL['stat'](self.fs.path(n)).st_mtime
        if got is not True and got is not False:
            raise Violation('result', 'write_out_file_if_different() gave %r' % (got,))
        if got:
            if old_text == data and not self.p['p']:
                raise Violation('result', 'said it wrote what had been there')
            self.now_is(n, raw)
        else:
            if old_text != data:
                raise Violation('result', 'said that %r is the same as %r' % (old_text, data))
            if now != 1000:
                raise Violation('written', 'it was the same, but was written')
            self.unchanged('it')

    def do_read(self, n, c, e, x):
        enc = ENC[e]
        k, real = kind(self.before, n)
        kw = {'default': x if x != 3 else None} if x % 2 else {}

        def call():
            return read_in_file(n, enc, **kw)
        if k in ('none', 'dir'):
            try:
                got = call()
            except FileNotFoundError as e:
                if kw:
                    raise Violation('result', 'raised %r in spite of a default' % e)
                return
            except NotADirectoryError:
                return
            if not kw or got != kw['default']:
                raise Violation('result', 'reading what is not there gave %r' % (got,))
            return
        if k == 'loop':
            try:
                call()
            except OSError as e:
                if e.errno != errno.ELOOP:
                    raise
                return
            raise Violation('result', 'a looped link was read')
        old = self.before[real]
        try:
            want = old.decode(enc) if enc else old
        except UnicodeDecodeError:
            try:
                call()
            except UnicodeDecodeError:
                return
            raise Violation('result', 'no UnicodeDecodeError')
        got = call()
        if got != want:
            raise Violation('result', 'read %r of %r' % (got[:60], want[:60]))
        self.unchanged('reading')

    def do_lines(self, n, c, e, x):
        k, real = kind(self.before, n)
        if k != 'file':
            return
        try:
            text = self.before[real].decode()
        except UnicodeDecodeError:
            return
        got = read_lines(n, delete_empty_lines=bool(x % 2))
        want = [y.strip() for y in text.splitlines()]
        if x % 2:
            want = [y for y in want if y]
        if got != want:
            raise Violation('result', 'read_lines() gave %r, expected %r' % (got[:5], want[:5]))
        self.unchanged('reading')

    def do_sub(self, n, c, e, x):
        k, real = kind(self.before, n)
        if k != 'file':
            return
        try:
            text = self.before[real].decode()
        except UnicodeDecodeError:
            return
        if '\r' in text:
            return

        class Bad(Exception):
            pass

        def repl(m):
            if x == 7:
                raise Bad
            return '<' + m.group(0).upper() + '>'
        pat = ['a+', 'b', 'w|o', 'zzz'][x % 4]
        try:
            got = read_re_sub_and_write(n, re.compile(pat) if x & 4 else pat, repl)
        except Bad:
            self.unchanged('a failed replacement')
            return
        except OSError:
            now = snapshot(self.fs)[real]
            new = re.sub(pat, repl, text).encode() if x != 7 else b''
            if now != self.before[real] and not new.startswith(now):
                raise Violation('damage', 'a failed replacement left %r' % now[:60])
            raise
        if x == 7 and re.search(pat, text):
            raise Violation('swallowed', 'the exception of the replacement was swallowed')
        self.now_is(n, re.sub(pat, repl, text).encode())

    def do_unlink(self, n, c, e, x):
        got = try_unlink(n)
        now = snapshot(self.fs)
        rest = {y: v for y, v in self.before.items() if y != n and not y.startswith(n + '/')}
        if {y: now.get(y) for y in rest} != rest:
            raise Violation('damage', 'try_unlink(%r) removed something else' % n)
        if got is True:
            if n not in self.before:
                raise Violation('result', 'said that it removed what had not been there')
            if now != rest:
                raise Violation('result', 'said that it removed %s, which is still there' % n)
        elif got is False:
            if n in self.before and not self.p['p']:
                raise Violation('result', 'did not remove %s' % n)
            if n in self.before and n not in now:
                raise Violation('result', 'said that it did not remove %s, which is gone' % n)
        else:
            raise Violation('result', 'try_unlink() gave %r' % (got,))

    def do_find(self, n, c, e, x):
        root = ['.', 'sub', 'empty', '.'][c % 4]
        if root != '.' and self.before.get(root) != 'dir':
            return
        if kind(self.before, 'lnk')[0] == 'dir' and root == '.':
            return
        wild = [r'(.*)', r'.*\.txt$', r'[ab]', r'.*sub.*', r'pre'][x % 5]
        entire = bool(e & 1)
        prefix = 'pre' if e & 2 else None
        with_path = x < 4
        sub = c != 3
        got = list(find_files(root, wild, prefix_with=prefix, scan_subdirectories=sub, apply_wildcard_to_entire_path=entire,
                              prefix_with_path=with_path))
        want = []
        maybe = set()
        for y, v in self.before.items():
            if root != '.' and not y.startswith(root + '/'):
                continue
            rel = y if root == '.' else y[len(root) + 1:]
            if not sub and '/' in rel:
                continue
            full = os.path.join(root, rel) if with_path else rel
            full = os.path.join(prefix, full) if prefix else full
            if v == 'dir':
                maybe.add(full)
            elif re.match(wild, full if entire else os.path.basename(rel)):
                want.append(full)
        if sorted(y for y in got if sub or y not in maybe) != sorted(want):
            raise Violation('result', 'find_files() gave %s, expected %s' % (sorted(got), sorted(want)))

    def do_name(self, n, c, e, x):
        d, base = os.path.split(n)
        stem, dot, ext = base.rpartition('.')
        if not dot:
            stem, ext = base, ''

        def nth(i):
            return os.path.join(d, stem + ('.%d' % i if i else '') + dot + ext)
        if x < 4:
            for i in range(x):
                # some of them taken
                if kind(self.before, nth(i))[0] == 'none' and nth(i) not in self.before and (not d or self.before.get(d) == 'dir'):
                    self.fs.put(nth(i), b'')
            self.before = snapshot(self.fs)
            got = make_noncolliding_name(n)
            taken = {y for y in self.before if kind(self.before, y)[0] not in ('none', 'loop')}
        else:
            taken = {nth(i) for i in range((x - 3) * (1 + 3 * e))}
            got = make_noncolliding_name(n, lambda y: y in taken)
        k = 0
        while nth(k) in taken:
            k += 1
        if got != nth(k):
            raise Violation('result', 'make_noncolliding_name(%r) gave %r, expected %r' % (n, got, nth(k)))
        self.unchanged('it')

    def do_jump(self, n, c, e, x):
        class Stop(Exception):
            pass
        here = os.getcwd()
        path = ['new', 'new/er', n, 'sub'][c % 4]
        k = kind(self.before, path)[0]
        if k in ('file', 'loop') or k == 'none' and (path in self.before or path == n):
            return
        if x & 4:
            path = os.path.join(here, path)
        try:
            with jump_to_directory(path):
                if os.path.realpath(os.getcwd()) != os.path.realpath(os.path.join(here, path)):
                    raise Violation('cwd', 'the current directory is not the one asked for')
                if x & 1:
                    with jump_to_directory('inner'):
                        if os.path.basename(os.getcwd()) != 'inner':
                            raise Violation('cwd', 'the current directory is not the one asked for')
                if x & 2:
                    raise Stop
        except Stop:
            pass
        else:
            if x & 2:
                raise Violation('swallowed', 'jump_to_directory swallowed an exception')
        if os.getcwd() != here:
            raise Violation('cwd', 'the directory was not put back')
        # used again, from somewhere else
        jump = jump_to_directory(os.path.join(here, path))
        with jump:
            pass
        os.chdir(path)
        try:
            with jump:
                pass
            if os.path.realpath(os.getcwd()) != os.path.realpath(os.path.join(here, path)):
                raise Violation('cwd', 'the directory was not put back the second time')
        finally:
            os.chdir(here)
        if os.getcwd() != here:
            raise Violation('cwd', 'the directory was not put back')
        if not os.path.isdir(self.fs.path(path)):
            raise Violation('result', 'the directory was not made')

    def do_split(self, n, c, e, x):
        path = ['', '/', 'x/', './', '../', '/y/z/', 'x/./', '~/'][x] + n + ('/' if e == 0 else '')
        got = split(path)
        if os.path.join(*got) != path:
            raise Violation('result', 'split(%r) gave %s' % (path, got))
        if any('/' in y for y in got if y != '/'):
            raise Violation('result', 'split(%r) gave %s' % (path, got))

    def do_list(self, n, c, e, x):
        k, real = kind(self.before, n)
        try:
            got = sorted(safe_listdir(n))
        except OSError as ex:
            if k == 'loop' and ex.errno == errno.ELOOP:
                return
            raise
        want = sorted(y[len(real) + 1:] for y in self.before if y.startswith(real + '/') and '/' not in y[len(real) + 1:]) if k == 'dir' else []
        if got != want:
            raise Violation('result', 'safe_listdir(%s) gave %s, expected %s' % (n, got, want))

    def do_where(self, n, c, e, x):
        fs = self.fs
        old = os.environ.get('PATH')
        for y, v in self.before.items():
            if isinstance(v, bytes):
                REAL['chmod'](fs.path(y), [0o755, 0o654, 0o645, 0o744][len(y) // 2 % 4] if (x + len(y)) % 2 else 0o644)
        dirs = [fs.dir, fs.path('sub'), fs.path('a'), fs.path('missing')]
        dirs = dirs[c % 4:] + dirs[:c % 4]
        os.environ['PATH'] = ':'.join(dirs)
        base = os.path.basename(n)
        try:
            got = list(whereis(base))
        finally:
            os.environ['PATH'] = old
        want = []
        for d in dirs:
            rel = os.path.relpath(os.path.join(d, base), fs.dir)
            k, real = kind(self.before, rel)
            if k == 'file' and (x + len(real)) % 2 and not (d == fs.path('a')):
                want.append(os.path.join(d, base))
        if got != want:
            raise Violation('result', 'whereis(%r) gave %s, expected %s' % (base, got, want))


class Racing(Scenario):
    """the same names used by several threads"""
    name = 'racing'
    weight = 1

    def gen(self, rng):
        n = rng.choice([2, 2, 3])
        return {'progs': [[rng.choice(['unlink', 'unlink', 'create', 'find', 'where', 'list'])
                           for _ in range(rng.randint(1, 5))] for _ in range(n)], 'files': rng.randint(1, 4), 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        fs = FS(sim)
        fs.enter_process(0)
        REAL['mkdir'](fs.path('d'))
        names = ['d/f%d' % i for i in range(p['files'])]
        for n in names:
            fs.put(n, b'x')
            REAL['chmod'](fs.path(n), 0o755)
        stable = ['s1', 'd/s2']
        for n in stable:
            fs.put(n, b'x')
            REAL['chmod'](fs.path(n), 0o755)
        old = os.environ.get('PATH')
        os.environ['PATH'] = fs.dir + ':' + fs.path('d')
        removed = {n: 0 for n in names}
        made = {n: 1 for n in names}
        left = [len(p['progs'])]

        def thread(i, prog):
            sim.cur.proc = 0
            for k, what in enumerate(prog):
                n = names[k % len(names)]
                if what == 'unlink':
                    if try_unlink(fs.path(n)):
                        removed[n] += 1
                elif what == 'create':
                    # count it before it can be removed by another
                    if not fs.exists(n):
                        made[n] += 1
                        fs.put(n, b'y')
                        REAL['chmod'](fs.path(n), 0o755)
                elif what == 'find':
                    got = list(find_files('.'))
                    for s in stable:
                        if got.count('./' + s) != 1:
                            raise Violation('result', 'find_files() gave %s %d times' % (s, got.count('./' + s)))
                    if len(set(got)) != len(got):
                        raise Violation('result', 'find_files() gave something twice: %s' % sorted(got))
                elif what == 'where':
                    got = list(whereis('s2'))
                    if got != [fs.path('d/s2')]:
                        raise Violation('result', 'whereis() gave %s' % got)
                    list(whereis('f0'))
                else:
                    got = list(safe_listdir('d'))
                    if got.count('s2') != 1:
                        raise Violation('result', 'safe_listdir() gave %s' % sorted(got))
            left[0] -= 1

        for i, prog in enumerate(p['progs']):
            spawn(sim, thread, i, prog)
        while left[0]:
            time.sleep(0.01)
        os.environ['PATH'] = old
        for n in names:
            there = 1 if fs.exists(n) else 0
            if made[n] != removed[n] + there:
                raise Violation('unlink', '%s was made %d times, removal reported %d times, and it is %s'
                                % (n, made[n], removed[n], 'there' if there else 'gone'))


SCENARIOS = [Helpers(), Racing()]
