"""C34 configuration sources"""
import base64
import copy
import errno
import importlib
import io
import json
import os
import sys
import time

import requests
import toml
import yaml

from ..core import Violation
from ..fs import FS, REAL
from ..runner import Scenario, gen_sched, spawn
from .c29 import fault_plan, no_descriptors

from satella.configuration import sources as S
from satella.exceptions import ConfigurationError

BAD = ['text', '[1, 2]', '{"a": ', '17', '\xff\xfe\x00', 'a: [', '= 3', '"x"', 'null', '!!timestamp x', '[a]\n[[a]]\n', '[' * 700]


def gen_cfg(rng, depth=2):
    out = {}
    for k in 'abcd':
        if rng.random() < 0.55:
            out[k] = gen_val(rng, depth)
    return out


def gen_val(rng, depth):
    r = rng.random()
    if depth and r < 0.35:
        return gen_cfg(rng, depth - 1)
    if r < 0.65:
        return [rng.randint(0, 99) for _ in range(rng.randint(0, 3))]
    return rng.choice([rng.randint(0, 99), 'txt%d' % rng.randint(0, 9), 't\u0119xt%d' % rng.randint(0, 9), True])


def dump(cfg, fmt):
    if fmt == 'json':
        return json.dumps(cfg, ensure_ascii=False)
    return yaml.safe_dump(cfg, allow_unicode=True) if fmt == 'yaml' else toml.dumps(cfg)


def merged(a, b):
    """the documented rule, on values of its own"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = {k: copy.deepcopy(v) for k, v in a.items()}
        for k, v in b.items():
            out[k] = merged(a[k], v) if k in a else copy.deepcopy(v)
        return out
    if isinstance(a, list) and isinstance(b, list):
        return copy.deepcopy(a) + copy.deepcopy(b)
    return copy.deepcopy(b)


LEAVES = ['static', 'static', 'file', 'file', 'dir', 'env', 'envjson', 'http', 'text', 'text']


def gen_tree(rng, depth, counter):
    if depth == 0 or rng.random() < 0.25:
        counter[0] += 1
        n = counter[0]
        k = rng.choice(LEAVES)
        leaf = {'k': k, 'n': n}
        versions = []
        for _ in range(3):
            r = rng.random()
            versions.append(['bad', rng.choice(BAD)] if r < 0.15 else ['none'] if r < 0.25 else ['ok', gen_cfg(rng), rng.choice(['json', 'yaml', 'toml'])])
        leaf['v'] = versions
        if k in ('file', 'dir'):
            leaf['enc'] = rng.choice(['utf-8', 'utf-8', 'utf-16'])
            leaf['pad'] = rng.random() < 0.05
        if k == 'static':
            leaf['v'] = [['ok', gen_cfg(rng), 'json']]
        elif k == 'text':
            leaf['enc'] = rng.choice([None, 'utf-8', 'utf-16', 'base64', 'base64', 'nosuch'])
            leaf['v'] = [v if v[0] != 'none' else ['bad', 'text'] for v in versions[:1]]
            if leaf['enc'] == 'nosuch':
                leaf['v'] = [['bad', 'text']]
            leaf['cls'] = leaf['v'][0][2] if leaf['v'][0][0] == 'ok' else rng.choice(['json', 'yaml', 'toml'])
        elif k == 'dir':
            leaf['files'] = [[rng.choice(['f%d', 'f%d', 's/f%d', 's/t/f%d', 'no%d', 's/no%d']) % i,
                              [rng.choice(['ok', 'ok', 'ok', 'bad', 'none']) for _ in range(3)],
                              rng.choice(['json', 'yaml', 'toml'])] for i in range(rng.randint(0, 4))]
            leaf['subdirs'] = rng.random() < 0.7
            leaf['filter'] = rng.random() < 0.5
            leaf['on_fail'] = rng.randint(0, 1)
            leaf['exists'] = rng.random() < 0.9
            leaf['dangling'] = rng.random() < 0.3
        return leaf
    k = rng.choice(['alt', 'alt', 'opt', 'merge', 'merge', 'merge', 'merge', 'build'])
    node = {'k': k, 'c': [gen_tree(rng, depth - 1, counter) for _ in range(1 if k in ('opt', 'build') else rng.randint(0, 3) if rng.random() < .2 else rng.randint(2, 3))],
            'dct': rng.random() < 0.3}
    if k == 'merge':
        node['on_fail'] = rng.randint(0, 1)
        node['none_ok'] = rng.random() < 0.3
    return node


class Spy(S.BaseSource):
    """stands in front of a source, and notes what it provides"""

    def __init__(self, chk, src, node):
        self.chk, self.src, self.node = chk, src, node

    def provide(self):
        return self.chk.provide(self)


def outcome(f):
    try:
        v = f()
    except ConfigurationError:
        return None, 'ConfigurationError'
    return v, None


class Sources(Scenario):
    name = 'sources'
    weight = 4

    def gen(self, rng):
        counter = [0]
        tree = gen_tree(rng, rng.randint(0, 3), counter)
        progs = [[rng.choice(['provide', 'provide', 'pause']) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
        changes = [[rng.randint(1, max(1, counter[0])), rng.randint(0, 2), rng.randint(0, 3), rng.choice([0, 0, 0.001, 0.01])]
                   for _ in range(rng.randint(0, 6))] if rng.random() < 0.7 else []
        return {'progs': progs, 'tree': tree, 'changes': changes, 'atomic': True,
                'p': fault_plan(rng, 0.3, ('open', 'read', 'close', 'listdir', 'http')) if rng.random() < 0.5 else {},
                'errno': rng.choice([errno.EIO, errno.EACCES, errno.EMFILE]),
                'sched': gen_sched(rng, stalls=False)}

    # ---- construction ----
    def make(self, node):
        k = node['k']
        if k in ('alt', 'opt', 'merge', 'build'):
            ch = [self.make(c) for c in node['c']]
            if node['dct']:
                d = {'type': {'alt': 'AlternativeSource', 'opt': 'OptionalSource', 'merge': 'MergingSource', 'build': 'BuildObjectFrom'}[k]}
                if k == 'build':
                    d.update(key='key', child=ch[0])
                elif k == 'opt':
                    d['arg'] = ch[0]
                else:
                    d['args'] = ch
                if k == 'merge':
                    d.update(on_fail=node['on_fail'], fail_if_no_sources_are_correct=not node['none_ok'])
                src = S.load_source_from_dict(d)
            elif k == 'alt':
                src = S.AlternativeSource(*ch)
            elif k == 'opt':
                src = S.OptionalSource(ch[0])
            elif k == 'build':
                src = S.BuildObjectFrom('key', ch[0])
            else:
                src = S.MergingSource(*ch, on_fail=node['on_fail'], fail_if_no_sources_are_correct=not node['none_ok'])
            return Spy(self, src, node)
        n = node['n']
        self.leaves[n] = node
        if k == 'static':
            src = S.StaticSource(copy.deepcopy(node['v'][0][1]))
            self.statics.append((src, node['v'][0][1]))
        elif k == 'file':
            src = S.FileSource(self.fs.path('file%d' % n), **({'encoding': node['enc']} if node['enc'] != 'utf-8' else {}))
        elif k == 'env':
            src = S.EnvironmentSource('DSTENV%d' % n, 'e')
        elif k == 'envjson':
            src = S.EnvVarsSource('DSTENV%d' % n)
        elif k == 'http':
            src = S.HTTPJSONSource('http://config.test/%d' % n)
        elif k == 'text':
            v = node['v'][0]
            t = dump(v[1], v[2]) if v[0] == 'ok' else v[1]
            enc = node['enc']
            kw = {}
            if enc == 'base64':
                t = base64.encodebytes(t.encode())
                kw['encoding'] = 'base64'
            elif enc:
                t = t.encode(enc if enc != 'nosuch' else 'utf-8')
                kw['encoding'] = enc
            src = {'json': S.JSONSource, 'yaml': S.YAMLSource, 'toml': S.TOMLSource}[node['cls']](t, **kw)
        else:
            flt = (lambda p: not os.path.basename(p).startswith('no')) if node['filter'] else (lambda p: True)
            src = S.DirectorySource(self.fs.path('dir%d' % n), encoding=node['enc'], fname_filter=flt, scan_subdirectories=node['subdirs'], on_fail=node['on_fail'])
            if node['exists']:
                for d in ('', '/s', '/s/t'):
                    REAL['mkdir'](self.fs.path('dir%d%s' % (n, d)))
                if node['dangling']:
                    # neither a file nor a directory
                    REAL['symlink']('nowhere', self.fs.path('dir%d/dangling' % n))
        if k == 'dir':
            for j in range(len(node['files'])):
                self.change(n, 0, j)
        else:
            self.change(n, 0, 0)
        return Spy(self, src, node)

    def file_cfg(self, n, j, v):
        return {'f%d' % j: v, 'l': [[j, v]], 'd': {'k%d' % j: v}}

    def change(self, n, v, j):
        """another program changes what a source reads, at once"""
        node = self.leaves[n]
        k = node['k']
        key, val = n, None
        if k in ('static', 'text'):
            val = node['v'][0]
        elif k == 'dir':
            if not node['files'] or not node['exists']:
                return
            j %= len(node['files'])
            name, kinds, fmt = node['files'][j]
            key = (n, j)
            path = 'dir%d/%s' % (n, name)
            kind = kinds[v]
            if kind == 'none':
                val = ['none']
                if self.fs.exists(path):
                    REAL['unlink'](self.fs.path(path))
            else:
                val = ['ok', self.file_cfg(n, j, v)] if kind == 'ok' else ['bad', '[1']
                text = dump(val[1], fmt) if kind == 'ok' else val[1]
                if fmt == 'toml' and kind == 'ok':      # no tables after lists of lists in there
                    text = json.dumps(val[1])
                self.fs.put('tmp', text.encode(node['enc'] if kind == 'ok' else 'latin1'))
                REAL['rename'](self.fs.path('tmp'), self.fs.path(path))
        else:
            val = node['v'][v]
            if node.get('pad') and val[0] == 'ok':
                val = ['ok', dict(val[1], pad='x' * 70000), val[2]]
            text = dump(val[1], 'json' if k in ('envjson', 'http') else val[2]) if val[0] == 'ok' else None if val[0] == 'none' else val[1]
            if k == 'file':
                if text is None:
                    if self.fs.exists('file%d' % n):
                        REAL['unlink'](self.fs.path('file%d' % n))
                else:
                    self.fs.put('tmp', text.encode(node['enc'] if val[0] == 'ok' else 'latin1'))
                    REAL['rename'](self.fs.path('tmp'), self.fs.path('file%d' % n))
            elif k == 'http':
                self.pages[n] = text
            else:
                if text is not None:
                    text = text.replace('\x00', 'x').replace('\xff', 'x')
                name = 'DSTENV%d' % n
                if text is None:
                    os.environ.pop(name, None)
                else:
                    os.environ[name] = text
                if k == 'env':
                    val = ['none'] if text is None else ['ok', {'e': text}]
        self.history.setdefault(key, []).append((self.sim.seq(), val))

    def during(self, key, start):
        """the versions it had from start on"""
        h = self.history.get(key, [])
        out = []
        for i, (t, v) in enumerate(h):
            if i + 1 < len(h) and h[i + 1][0] < start:
                continue
            out.append(v)
        return out

    # ---- observation ----
    def provide(self, spy):
        st = self.stacks[self.sim.cur]
        mine = []
        st.append(mine)
        start = self.sim.seq()
        faults = self.fired
        try:
            v, err = outcome(spy.src.provide)
        finally:
            st.pop()
        if err is None:
            if not isinstance(v, dict):
                raise Violation('result', 'a %s source provided %r, not a dict' % (spy.node['k'], v))
            self.given.append((v, copy.deepcopy(v)))
        seen = copy.deepcopy(v)
        self.judge(spy.node, spy, mine, seen, err, start, self.fired != faults)
        if st:
            st[-1].append((spy, seen, err))
        if err:
            raise ConfigurationError('as before')
        return v

    def judge(self, node, spy, calls, v, err, start, faulty):
        k = node['k']
        self.sim.probe('%s-%s' % (k, 'failed' if err else 'provided'))
        if k in ('alt', 'opt', 'merge', 'build'):
            exp, experr, n = self.rule(node, [c[1:] for c in calls])
            order = [c[0].node for c in calls]
            if order != node['c'][:len(order)] or n != len(order):
                raise Violation('order', '%s asked %d of its %d sources, %d of them needed' % (k, len(order), len(node['c']), n))
            if experr != err or exp != v:
                raise Violation('result', '%s over %s gave %s instead of %s' % (k, [c[1:] for c in calls], v if err is None else err, exp if experr is None else experr))
            return
        if k == 'dir':
            return self.judge_dir(node, v, err, start, faulty)
        versions = self.during(node['n'], start)
        if err:
            if not faulty and all(x[0] == 'ok' for x in versions):
                raise Violation('refused', 'a %s source failed, with %s' % (k, versions))
        elif not any(x[0] == 'ok' and x[1] == v for x in versions):
            raise Violation('result', 'a %s source provided %r of %s' % (k, v, versions))

    def rule(self, node, got):
        k = node['k']
        n = 0
        if k == 'build':
            v, err = got[0] if got else (None, 'x')
            return ({'key': v} if err is None else None), err, 1
        if k in ('alt', 'opt'):
            for v, err in got:
                n += 1
                if err is None:
                    return v, None, n
            n = len(node['c'])
            return ({}, None, n) if k == 'opt' else (None, 'ConfigurationError', n)
        cfg, ok = {}, 0
        for v, err in got:
            n += 1
            if err is None:
                cfg = merged(cfg, v)
                ok += 1
            elif node['on_fail'] == S.MergingSource.RAISE:
                return None, err, n
        n = len(node['c'])
        if not ok and node['c'] and not node['none_ok']:
            return None, 'ConfigurationError', n
        return cfg, None, n

    def judge_dir(self, node, v, err, start, faulty):
        n = node['n']
        if not node['exists']:
            if not node['on_fail']:
                if not err:
                    raise Violation('result', 'a directory that is not there provided %r' % (v,))
            elif err or v != {}:
                raise Violation('result', 'a directory that is not there provided %r' % (v if not err else err,))
            return
        used = {}
        for j, (name, _, fmt) in enumerate(node['files']):
            if node['filter'] and os.path.basename(name).startswith('no') or '/' in name and not node['subdirs']:
                continue
            used[j] = self.during((n, j), start)
        if err:
            if faulty:
                return
            weak = any(x[0] != 'ok' for vs in used.values() for x in vs)
            if node['on_fail']:
                weak = bool(used) and all(any(x[0] != 'ok' for x in vs) for vs in used.values())
            if not weak:
                raise Violation('refused', 'a directory failed, with %s' % used)
            return
        if used and node['on_fail'] and not faulty and all(x[0] == 'bad' for vs in used.values() for x in vs):
            raise Violation('silent', 'no file could be parsed, and it provided %r' % (v,))
        exp = {}
        lists = []
        for j, vs in used.items():
            mine = v.get('f%d' % j)
            possible = [x[1]['f%d' % j] for x in vs if x[0] == 'ok']
            if mine is None:
                if all(x[0] == 'ok' for x in vs) and not (faulty and node['on_fail']):
                    raise Violation('missing', 'file %s is not in %r' % (node['files'][j][0], v))
                if not node['on_fail'] and all(x[0] == 'bad' for x in vs):
                    raise Violation('silent', 'a file that could not be parsed was ignored: %r' % (v,))
                continue
            if mine not in possible:
                raise Violation('result', 'file %s gave %r, versions %s' % (node['files'][j][0], mine, possible))
            exp['f%d' % j] = mine
            exp.setdefault('d', {})['k%d' % j] = mine
            lists.append([j, mine])
        if lists:
            exp['l'] = sorted(lists)
        got = dict(v)
        if 'l' in got:
            got['l'] = sorted(got['l'])
        if got != exp:
            raise Violation('result', 'a directory gave %r instead of %r' % (v, exp))

    # ---- run ----
    def run(self, sim, p):
        self.sim, self.p = sim, p
        self.leaves, self.statics, self.pages, self.history = {}, [], {}, {}
        self.stacks, self.given = {}, []
        self.fired = 0
        fs = self.fs = FS(sim, {}, {}, p['errno'])
        fs.enter_process(0)
        orig_fail = fs.may_fail

        def may_fail(op):
            try:
                orig_fail(op)
            except OSError:
                self.fired += 1
                raise
        fs.may_fail = may_fail
        self.network()
        root = self.make(p['tree'])
        left = [len(p['progs']) + 1]
        fs.p = p['p']

        def client(prog):
            sim.cur.proc = 0
            self.stacks[sim.cur] = []
            for op in prog:
                if op == 'pause':
                    time.sleep(0.002)
                    continue
                try:
                    root.provide()
                except ConfigurationError:
                    pass
            left[0] -= 1

        def changer():
            sim.cur.proc = 1
            for n, v, j, wait in p['changes']:
                if wait:
                    time.sleep(wait)
                else:
                    sim.yield_point('change')
                if n in self.leaves and self.leaves[n]['k'] not in ('static', 'text'):
                    self.change(n, v, j)
            left[0] -= 1

        for prog in p['progs']:
            spawn(sim, client, prog)
        spawn(sim, changer)
        while left[0]:
            time.sleep(0.01)
        fs.p = {}
        no_descriptors(fs, 0, 'provide()')
        # and once more, with nothing going on
        self.stacks[sim.cur] = []
        for _ in range(2):
            try:
                root.provide()
            except ConfigurationError:
                pass
        for src, cfg in self.statics:
            if src.config != cfg:
                raise Violation('changed', 'the configuration of a StaticSource was %r and is %r' % (cfg, src.config))
        for v, was in self.given:
            if v != was:
                raise Violation('changed', 'what a source provided was %r and is now %r' % (was, v))

    def network(self):
        sim, fs = self.sim, self.fs

        def send(adapter, request, **kw):
            sim.yield_point('http')
            time.sleep(0.001)
            n = int(request.url.rsplit('/', 1)[1])
            p = fs.p.get('http')
            if p and sim.flip('net', p):
                self.fired += 1
                kind = int(sim.now * 1e6) % 3
                sim.probe('net%d' % kind)
                if kind == 0:
                    raise requests.exceptions.ConnectionError('refused')
                if kind == 1:
                    raise requests.exceptions.ReadTimeout('late')
            else:
                kind = None
            r = requests.Response()
            text = self.pages[n]
            r.status_code = 500 if kind == 2 else 404 if text is None else 200
            r.raw = io.BytesIO((text or '{"error": 1}').encode('utf-8'))
            r.url = request.url
            r.request = request
            r.encoding = 'utf-8'
            return r
        requests.adapters.HTTPAdapter.send = send


class Imports(Scenario):
    """any part of satella can be the first one a program imports"""
    name = 'imports'
    weight = 0.02

    def gen(self, rng):
        names = sorted(k for k in sys.modules if k == 'satella' or k.startswith('satella.'))
        return {'progs': [[rng.choice(names)]], 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'satella' or k.startswith('satella.')}
        try:
            importlib.import_module(p['progs'][0][0])
        except ImportError as e:
            raise Violation('import', 'import of %s in a fresh program: %s' % (p['progs'][0][0], e))
        finally:
            for k in list(sys.modules):
                if k == 'satella' or k.startswith('satella.'):
                    del sys.modules[k]
            sys.modules.update(saved)


SCENARIOS = [Sources(), Imports()]
