#!/opt/venv/bin/python
"""
Mutation testing of the checks: one small change at a time in a scratch copy of the repository, to see which ones
a check does not notice.  mutate.py --repo /tmp/copy FILE PROP[,PROP] [--runs 2500] [--workers 4] [--only LINE-LINE] [--out FILE]
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+'}
NAMES = {'notify_all': 'notify', 'popleft': 'pop', 'appendleft': 'append', 'append': 'appendleft', 'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any',
         'RLock': 'Lock', 'monotonic': 'time'}


class Src:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for l in text.splitlines(True):
            self.starts.append(self.starts[-1] + len(l))

    def pos(self, line, col):
        s = self.text[self.starts[line - 1]:self.starts[line]]
        return self.starts[line - 1] + len(s.encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


def mutants(text):
    src = Src(text)
    tree = ast.parse(text)
    out = []

    def rep(n, new, what):
        a, b = src.span(n)
        out.append((n.lineno, what, text[:a] + new + text[b:]))

    def body_stmts(n):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield v

    doc = set()
    for n in ast.walk(tree):
        for b in body_stmts(n):
            if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                doc.add(b[0])
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                for m in ast.walk(s):
                    infunc.add(m)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                s = src.get(d)
                if 'property' in s or 'setter' in s or 'staticmethod' in s or 'classmethod' in s or 'wraps' in s:
                    continue
                a, b = src.span(d)
                a = text.rindex('@', 0, a)
                out.append((d.lineno, 'drop decorator ' + s, text[:a] + '# ' + text[a:b].replace('\n', ' ') + text[b:]))
        if n not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = src.get(n.left), src.get(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (l, o, r), '%s -> %s' % (src.get(n), o))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join(src.get(v) for v in n.values) + ')', '%s -> %s' % (src.get(n), o))
            for k in range(len(n.values)):
                rest = [src.get(v) for j, v in enumerate(n.values) if j != k]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', '%s without %d' % (src.get(n), k))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, '%s %s %s' % (src.get(n.left), OPS[type(n.op)], src.get(n.right)), '%s -> %s' % (src.get(n), OPS[type(n.op)]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, 'bool(%s)' % src.get(n.operand), 'drop not ' + src.get(n))
        elif isinstance(n, ast.Constant) and n not in [d.value for d in doc]:
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), '%s -> %s' % (v, not v))
            elif isinstance(v, (int, float)):
                rep(n, str(v + 1), '%s -> %s' % (v, v + 1))
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s if %s else %s)' % (src.get(n.orelse), src.get(n.test), src.get(n.body)), 'swap ' + src.get(n))
        elif isinstance(n, ast.Name) and n.id in NAMES:
            rep(n, NAMES[n.id], '%s -> %s' % (n.id, NAMES[n.id]))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            rep(n, src.get(n.value) + '.' + NAMES[n.attr], '%s -> %s' % (n.attr, NAMES[n.attr]))
        elif isinstance(n, ast.keyword) and n.arg and ('timeout' in n.arg or n.arg in ('blocking', 'daemon', 'block')):
            rep(n, n.arg + '=None' if 'timeout' in n.arg else n.arg + '=not (%s)' % src.get(n.value), 'kw ' + src.get(n))
        if isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is None and len(n.items) == 1:
                    rep(it.context_expr, '__import__("contextlib").nullcontext()', 'drop with ' + src.get(it.context_expr))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            rep(n.test, 'not (%s)' % src.get(n.test), 'negate ' + src.get(n.test))
            if isinstance(n, ast.While):
                a, b = src.span(n.test)
                st = src.span(n)[0]
                if not any(isinstance(m, (ast.Break, ast.Continue)) for m in ast.walk(n)) and not n.orelse:
                    out.append((n.lineno, 'while -> if ' + src.get(n.test), text[:st] + 'if' + text[st + 5:]))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n.value, 'None', 'return None for ' + src.get(n.value)[:40])
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue, ast.Return)) and n not in doc:
            if isinstance(n, ast.Return) and n.value is not None:
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                continue
            rep(n, 'pass', 'drop ' + src.get(n)[:60].replace('\n', ' '))
    # exchange of neighbours, and a statement moved out of its with block
    for n in ast.walk(tree):
        for b in body_stmts(n):
            for x, y in zip(b, b[1:]):
                if x in infunc and isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(y, (ast.Expr, ast.Assign, ast.AugAssign)) and x not in doc:
                    (a, b1), (c, d) = src.span(x), src.span(y)
                    out.append((x.lineno, 'exchange with the next: ' + src.get(x)[:50].replace('\n', ' '), text[:a] + text[c:d] + text[b1:c] + text[a:b1] + text[d:]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n in infunc and n.finalbody and not n.handlers:
            st = src.span(n)[0]
            ind = ' ' * n.col_offset
            a = src.pos(n.body[0].lineno, 0)
            fa = text.rindex('finally', 0, src.span(n.finalbody[0])[0])
            out.append((n.lineno, 'finally only if no exception', text[:st] + 'if True' + text[st + 3:fa] + 'if True' + text[fa + 7:]))
    seen, res = {text}, []
    for l, w, t in sorted(out, key=lambda x: x[0]):
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((l, w, t))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('props')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--runs', type=int, default=2500)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--only')
    ap.add_argument('--max', type=int, default=1000)
    ap.add_argument('--out')
    a = ap.parse_args()
    text = open(os.path.join(a.repo, a.file)).read()
    ms = mutants(text)
    if a.only:
        ranges = [tuple(map(int, r.split('-'))) for r in a.only.split(',')]
        ms = [m for m in ms if any(lo <= m[0] <= hi for lo, hi in ranges)]
    if len(ms) > a.max:
        random.Random(1).shuffle(ms)
        ms = sorted(ms[:a.max], key=lambda m: m[0])
    scratch = tempfile.mkdtemp(prefix='mut-')
    try:
        work = os.path.join(scratch, 'repo')
        shutil.copytree(a.repo, work, ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests', 'docs'))
        verif = os.path.join(scratch, 'verif')
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays', 'evidence'))
        os.mkdir(os.path.join(verif, 'evidence'))
        env = dict(os.environ, VERIF_REPO=work, PYTHONDONTWRITEBYTECODE='1')
        survived = 0
        for line, what, t in ms:
            with open(os.path.join(work, a.file), 'w') as f:
                f.write(t)
            killed = None
            for p in a.props.split(','):
                try:
                    r = subprocess.run([sys.executable, os.path.join(verif, 'check.py'), '--property', p, '--runs', str(a.runs), '--workers', str(a.workers),
                                        '--no-minimise'], env=env, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    killed = p + ':timeout'
                    break
                if r.returncode:
                    killed = p if r.returncode == 1 else '%s:%d' % (p, r.returncode)
                    break
            rec = {'file': a.file, 'line': line, 'what': what, 'killed': killed}
            if not killed:
                survived += 1
                rec['src'] = text.splitlines()[line - 1].strip()
                rec['text'] = t
            if a.out:
                with open(a.out, 'a') as f:
                    f.write(json.dumps(rec) + '\n')
            if not killed or ':' in killed:
                print('%s:%d %s  [%s] %s' % (a.file, line, what, text.splitlines()[line - 1].strip(), killed or 'SURVIVED'), flush=True)
        print('%s %s: %d mutants, %d survived' % (a.file, a.props, len(ms), survived), flush=True)
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
