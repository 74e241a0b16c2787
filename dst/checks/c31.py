"""C31 Context"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.environment import Context

NAMES = ['v0', 'v1', 'v2', 'v3']


class Stop(Exception):
    pass


class Layer:
    def __init__(self, ctxt, parent, **vs):
        self.ctxt = ctxt
        self.parent = parent
        self.vs = dict(vs)

    def find(self, n):
        x = self
        while x is not None:
            if n in x.vs:
                return x.vs[n]
            x = x.parent
        return None


def gen_body(rng, depth, budget):
    out = []
    for _ in range(rng.randint(1, 5)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = rng.choice(['set', 'set', 'get', 'get', 'del', 'push', 'pushv', 'exists', 'with', 'with', 'top', 'pause', 'raise', 'other'])
        n = rng.choice(NAMES)
        if k == 'with':
            if depth >= 4:
                continue
            kw = {x: rng.randint(0, 99) for x in NAMES if rng.random() < 0.25}
            how = rng.choice(['plain', 'plain', 'plain', 'got', 'parent', 'reuse'])
            out.append([k, how, kw, gen_body(rng, depth + 1, budget)])
        elif k == 'raise' and (depth == 0 or rng.random() < 0.5):
            continue
        else:
            out.append([k, n, rng.randint(100, 10 ** 6)])
    return out


class Environments(Scenario):
    name = 'layers'

    def gen(self, rng):
        return {'progs': [gen_body(rng, 0, [25]) for _ in range(rng.choice([1, 2, 2, 3, 4]))], 'first': rng.choice([0, 0, 1, 2]), 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        left = [len(p['progs'])]
        shared = Layer(Context(v0=-1), None, v0=-1)         # one that all threads may use as a parent

        def check(layer, n, where):
            want = layer.find(n)
            try:
                got = getattr(layer.ctxt, n)
            except AttributeError:
                got = None
            if got != want:
                raise Violation('value', '%s: %s is %r, expected %r' % (where, n, got, want))
            if layer.ctxt.does_exist(n) is not (want is not None):
                raise Violation('exists', '%s: does_exist(%s) is wrong' % (where, n))

        def current(layer, where):
            if Context.get() is not layer.ctxt:
                raise Violation('current', '%s: Context.get() is another context' % where)
            for n in NAMES:
                check(layer, n, where)

        def body(tid, stack, prog, reused):
            top = stack[-1]
            for op in prog:
                k, n = op[0], op[1]
                v = op[2]
                c = top.ctxt
                if k == 'set':
                    setattr(c, n, (tid, v))
                    top.vs[n] = (tid, v)
                elif k == 'get':
                    check(top, n, 'get')
                elif k == 'exists':
                    for x in stack:
                        check(x, n, 'outer layer')
                elif k == 'del':
                    delattr(c, n)
                    top.vs[n] = None
                elif k in ('push', 'pushv'):
                    if top.parent is None or top.parent is shared:
                        continue
                    if k == 'pushv':
                        c.push_up(n, (tid, v))
                        top.parent.vs[n] = (tid, v)
                    elif top.vs.get(n) is not None:
                        c.push_up(n)
                        top.parent.vs[n] = top.vs.pop(n)
                elif k == 'top':
                    current(top, 'in the block')
                elif k == 'pause':
                    time.sleep(0.001)
                elif k == 'other':
                    # what another thread does is not seen here
                    sim.yield_point('other')
                    current(top, 'after other threads')
                elif k == 'raise':
                    raise Stop()
                elif k == 'with':
                    how, kw, sub = op[1:]
                    if how == 'got':
                        cm, kw, parent = Context.get(), {}, top
                    elif how == 'parent':
                        cm, parent = Context(shared.ctxt, **kw), shared
                    elif how == 'reuse' and reused:
                        cm, kw = reused[0]
                        parent = top
                    else:
                        cm, parent = Context(**kw), top
                        reused[:] = [(cm, kw)]
                    try:
                        with cm as new:
                            inner = Layer(new, parent, **kw)
                            current(inner, 'on entry')
                            body(tid, stack + [inner], sub, reused)
                            current(inner, 'on exit')
                    except Stop:
                        sim.probe('raised')
                    current(top, 'after the block')

        def thread(tid, prog):
            if p['first']:
                # a block entered before anything else
                with Context(v1=tid, v3=5) as c:
                    current(Layer(c, None, v1=tid, v3=5), 'in the first block')
                    if p['first'] == 2:
                        with Context(v0=3) as d:
                            current(Layer(d, Layer(c, None, v1=tid, v3=5), v0=3), 'in the second block')
                        current(Layer(c, None, v1=tid, v3=5), 'after the second block')
            root = Context.get()
            layer = Layer(root, None)
            for n in NAMES:
                if root.does_exist(n):
                    raise Violation('leaked', 'a new thread sees %s' % n)
            body(tid, [layer], prog, [])
            current(layer, 'in the end')
            left[0] -= 1

        for i, prog in enumerate(p['progs']):
            spawn(sim, thread, i, prog)
        while left[0]:
            time.sleep(0.01)
        for n in NAMES:
            check(shared, n, 'shared parent')


SCENARIOS = [Environments()]
