"""C15 ExclusiveWritebackCache"""
import time
from concurrent.futures import ThreadPoolExecutor

from ..core import Violation
from ..lin import LinOp, linearizable
from ..runner import Scenario, gen_sched, spawn

from satella.coding.structures import ExclusiveWritebackCache
from satella.exceptions import WouldWaitMore


class Quiet(int):
    """a value that happens to be false"""

    def __bool__(self):
        return False


class Boom(Exception):
    pass


class Storage:
    """what lies behind: slow and failing"""

    def __init__(self, sim, initial, durs, fails):
        self.sim = sim
        self.data = dict(initial)
        self.durs, self.fails = durs, fails
        self.log = []       # [op, key, value, start, end, failed]

    def _call(self, op, key, value=None):
        i = len(self.log)
        r = [op, key, value, self.sim.seq(), None, False]
        self.log.append(r)
        d = self.durs[i % len(self.durs)]
        if d:
            time.sleep(d)
        else:
            self.sim.yield_point('storage')
        return r

    def _fails(self, r):
        f = self.fails.get(r[0])
        if f and len(self.log) % f == 0:
            r[5] = True
            self.sim.fault('storage-' + r[0])
            r[4] = self.sim.seq()
            raise Boom('storage ' + r[0])

    def write(self, key, value):
        r = self._call('write', key, value)
        self._fails(r)
        self.data[key] = value
        r[4] = self.sim.seq()

    def read(self, key):
        r = self._call('read', key)
        self._fails(r)
        r[4] = self.sim.seq()
        f = self.fails.get('lose')
        if f and key in self.data and len(self.log) % f == 0:
            r[5] = True
            self.sim.fault('storage-lookup')    # it is there, but just cannot be found at the moment
            raise KeyError(key)
        return self.data[key]

    def delete(self, key):
        r = self._call('delete', key)
        r[4] = self.sim.seq()
        del self.data[key]


def step(state, op):
    if op.name == 'set':
        return (('v', op.args),)
    if op.name == 'del':
        return (('none',),)
    # get
    if op.res[0] == 'boom':
        return (state,)
    return (state,) if op.res == state else None


class Coherence(Scenario):
    """clients on shared keys: reads are linearizable, the storage gets the writes in order"""
    name = 'coherence'
    weight = 4

    def gen(self, rng):
        progs = []
        keys = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c']])
        for _ in range(rng.randint(1, 3)):
            progs.append([[rng.choice(['get', 'get', 'get', 'set', 'set', 'del', 'del' if rng.random() < 0.5 else 'sync']),
                           rng.choice(keys), rng.choice([0, 0, 0, 0, 0.05, 1.0])]
                          for _ in range(rng.randint(2, 7))])
        return {'progs': progs, 'keys': keys, 'workers': rng.choice([None, None, 1, 2, 3]),
                'ske': rng.choice([None, True, False]), 'init': rng.sample(keys, rng.randint(0, len(keys))),
                'durs': [rng.choice([0, 0, 0.05, 0.3, 1.0]) for _ in range(rng.choice([1, 3, 5]))],
                'fails': {'read': rng.choice([0, 0, 0, 3]), 'write': rng.choice([0, 0, 0, 4])},
                'warm': rng.choice([0, 0, 0, 0, 99, 101]),
                'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        st = Storage(sim, {k: 'init' for k in p['init']}, p['durs'], p['fails'])
        kw = {}
        if p['workers']:
            kw = {'executor': ThreadPoolExecutor(max_workers=p['workers']), 'no_concurrent_executors': p['workers']}
        if p['ske'] is not None:
            kw['store_key_errors'] = p['ske']
        wbc = ExclusiveWritebackCache(st.write, st.read, st.delete, **kw)
        for _ in range(p['warm']):
            try:
                wbc['warm']
            except (KeyError, Boom):
                pass
        hist = []       # [op, key, value, inv, ret, res, t0]
        n = [0]

        def client(prog):
            for op, k, d in prog:
                if d:
                    time.sleep(d)
                v = None
                if op == 'set':
                    n[0] += 1
                    v = n[0]
                h = [op, k, v, sim.seq(), None, None, sim.now]
                hist.append(h)
                if op == 'get':
                    try:
                        h[5] = ('v', wbc[k])
                    except KeyError:
                        h[5] = ('none',)
                    except Boom:
                        h[5] = ('boom',)
                elif op == 'set':
                    wbc[k] = v
                elif op == 'del':
                    del wbc[k]
                else:
                    wbc.sync()
                h[4] = sim.seq()
                if op in ('set', 'del') and sim.now - h[6] > 0.04 + sim.stall_total:
                    raise Violation('blocked', '%s took %.3f s' % (op, sim.now - h[6]))
                if op == 'sync':
                    check_synced(h[3])

        def mine(h):
            return [r for r in st.log if r[1] == h[1] and r[0] == {'set': 'write', 'del': 'delete'}[h[0]]
                    and (h[0] == 'del' or r[2] == h[2])]

        def check_synced(when):
            for q in hist:
                if q[0] == 'set' and q[4] is not None and q[4] < when:
                    rs = mine(q)
                    if len(rs) != 1 or rs[0][4] is None:
                        raise Violation('unsynced', 'sync() returned, but %r was written %s' % (
                            q[2], 'not completely' if rs else 'never'))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        when = sim.seq()
        wbc.sync()
        check_synced(when)
        if any(r[4] is None for r in st.log):
            raise Violation('unsynced', 'sync() returned before a storage call did')
        if wbc.get_queue_length() != 0:
            raise Violation('queue-length', '%s entries waiting after sync()' % wbc.get_queue_length())
        for k in p['keys']:
            hk = [h for h in hist if h[1] == k and h[0] in ('get', 'set', 'del')]
            ops = [LinOp(h[3], h[4], h[0], h[2], h[5]) for h in hk]
            r = linearizable(ops, ('v', 'init') if k in p['init'] else ('none',), step)
            if r is False:
                raise Violation('incoherent', 'reads of %r are not explained by any order: %s' % (k, ops))
            mut = [h for h in hk if h[0] != 'get']
            log = [x for x in st.log if x[1] == k and x[0] != 'read']
            if sum(h[0] == 'del' for h in hk) != sum(x[0] == 'delete' for x in log):
                raise Violation('lost-write', '%d deletes of %r, %d made' % (sum(h[0] == 'del' for h in hk), k,
                                                                             sum(x[0] == 'delete' for x in log)))
            for h in mut:
                if h[0] == 'set' and len(mine(h)) != 1:
                    raise Violation('lost-write', '%r written %d times' % (h[2], len(mine(h))))
            # order of the writes
            pos = {h[2]: mine(h)[0] for h in mut if h[0] == 'set'}
            for a in mut:
                for b in mut:
                    if a[0] == b[0] == 'set' and a[4] < b[3] and pos[a[2]][3] > pos[b[2]][3]:
                        raise Violation('write-order', '%r was written after the later %r' % (a[2], b[2]))
            # what is left in the storage is what the cache says
            try:
                c = ('v', wbc[k])
            except KeyError:
                c = ('none',)
            except Boom:
                continue
            lin = ops + [LinOp(sim.seq(), sim.seq(), 'get', None, c)]
            if linearizable(lin, ('v', 'init') if k in p['init'] else ('none',), step) is False:
                raise Violation('incoherent', 'the final value of %r is %r' % (k, c))
            s = ('v', st.data[k]) if k in st.data else ('none',)
            if not any(x[5] for x in log) and s != c:
                raise Violation('diverged', 'cache says %r, storage %r' % (c, s))


class Calls(Scenario):
    """one client: which operations reach the storage, sync with a timeout"""
    name = 'calls'
    weight = 2

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(2, 10)):
            ops.append([rng.choice(['get', 'get', 'get', 'set', 'del', 'sync', 'sync']), rng.choice('aabc'),
                        rng.choice([None, None, 0, 0.05, 0.45, 1.5, 60.0])])
        return {'progs': [ops], 'ske': rng.choice([None, True, False]), 'dm': rng.random() < 0.8,
                'init': rng.sample(['a', 'b', 'c'], rng.randint(0, 3)), 'workers': rng.choice([None, 1, 2]),
                'durs': [rng.choice([0, 0, 0.05, 0.3, 2.0]) for _ in range(3)],
                'fails': {'read': rng.choice([0, 0, 3]), 'lose': rng.choice([0, 0, 2, 3])},
                'sched': gen_sched(rng, stall_max=(0.01, 0.1))}

    def run(self, sim, p):
        st = Storage(sim, {k: '' for k in p['init']}, p['durs'], p['fails'])
        kw = {} if p['ske'] is None else {'store_key_errors': p['ske']}
        if p['workers']:
            kw['executor'] = ThreadPoolExecutor(max_workers=p['workers'])
        wbc = ExclusiveWritebackCache(st.write, st.read, *([st.delete] if p['dm'] else []), **kw)
        model = {k: '' for k in p['init']}
        known, missing = set(), set()       # surely answered without the storage
        lost = set()        # remembered as missing, though they are in the storage
        n = 0
        for op, k, to in p['progs'][0]:
            n0 = sum(r[0] == 'read' for r in st.log)
            if op == 'get':
                want = ('v', model[k]) if k in model else ('none',)
                try:
                    r = ('v', wbc[k])
                except KeyError:
                    r = ('none',)
                except Boom:
                    r = ('boom',)
                reads = [x for x in st.log if x[0] == 'read'][n0:]
                if r == ('boom',):
                    if len(reads) != 1 or not reads[0][5]:
                        raise Violation('exception', 'a read raised though the storage did not')
                    continue
                if r == ('none',) and len(reads) == 1 and reads[0][5]:
                    if p['ske'] is not False:
                        model.pop(k, None)
                        missing.add(k)
                        lost.add(k)
                    continue
                if r != want:
                    raise Violation('value', '%r read, expected %r' % (r, want))
                if k in known or k in missing:
                    if reads:
                        raise Violation('extra-read', 'a cached entry was read from the storage')
                    sim.probe('cached')
                elif len(reads) > 1:
                    raise Violation('extra-read', '%d storage reads' % len(reads))
                if r[0] == 'v':
                    known.add(k)
                elif p['ske'] is not False:
                    missing.add(k)
            elif op == 'set':
                n += 1
                wbc[k] = model[k] = Quiet(n) if n % 2 else n
                lost.discard(k)
                known.add(k)
                missing.discard(k)
            elif op == 'del':
                if not p['dm']:
                    try:
                        del wbc[k]
                    except TypeError:
                        continue
                    raise Violation('delete', 'no TypeError without delete_method')
                del wbc[k]
                model.pop(k, None)
                lost.discard(k)
                known.discard(k)
                if p['ske'] is not False:
                    missing.add(k)
            else:
                t0 = sim.now
                try:
                    wbc.sync(timeout=to) if to is not None else wbc.sync()
                except WouldWaitMore:
                    el = sim.now - t0
                    slack = 1.5 + sim.stall_total
                    if to is None or el < to - 1e-3:
                        raise Violation('spurious-timeout', 'WouldWaitMore after %.3f of %s' % (el, to))
                    if el > to + slack:
                        raise Violation('late-timeout', 'WouldWaitMore after %.3f of %s' % (el, to))
                    sim.probe('timeout')
                else:
                    if to is not None and sim.now - t0 > to + 1.5 + sim.stall_total:
                        raise Violation('late-timeout', 'sync(%s) took %.3f s' % (to, sim.now - t0))
                    if any(r[4] is None for r in st.log) or sum(r[0] == 'write' for r in st.log) != n:
                        raise Violation('unsynced', 'sync() returned with writes pending')
                    if {k: v for k, v in st.data.items() if k not in lost} != model:
                        raise Violation('diverged', 'storage %r, expected %r' % (st.data, model))
        wbc.sync()
        if {k: v for k, v in st.data.items() if k not in lost} != model:
            raise Violation('diverged', 'storage %r, expected %r' % (st.data, model))


SCENARIOS = [Coherence(), Calls()]
