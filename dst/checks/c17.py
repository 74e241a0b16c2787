"""C17 SyncableDroppable over a failing database and crashes"""
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.structures import DBStorage, SyncableDroppable

LOW, HIGH = -10 ** 9, 10 ** 9


class DBError(Exception):
    pass


class Crash(BaseException):
    """the process dies here"""


class It:
    def __init__(self, db, start):
        self.db, self.last, self.start = db, None, start
        db.opened += 1
        self.closed = False

    def __iter__(self):
        return self

    def __next__(self):
        self.db.call('next')
        if self.closed:
            raise Violation('iterator', 'an iterator was used after being closed')
        for k in sorted(self.db.data):
            if (self.start is None or k >= self.start) and (self.last is None or k > self.last):
                self.last = k
                return k, self.db.data[k]
        raise StopIteration()

    def close(self):
        if not self.closed:
            self.closed = True
            self.db.opened -= 1


class DB(DBStorage):
    """survives crashes"""

    def __init__(self, sim, plan, dur=0):
        self.sim, self.plan, self.dur = sim, plan, dur
        self.data = {}
        self.meta = {'start': None, 'stop': None, 'synced': None}
        self.opened = 0
        self.calls = 0
        self.on_delete = None
        self.quiet = True
        self.puts = []

    def call(self, what, effect=None):
        if self.quiet:
            if effect:
                effect()
            return
        self.calls += 1
        if self.dur:
            time.sleep(self.dur)
        else:
            self.sim.yield_point(what)
        f = self.plan.get(str(self.calls))
        if f and f.startswith('before'):
            self.sim.fault('db-' + f)
            raise DBError(what) if f == 'before' else Crash()
        if effect:
            effect()
        if f and f.startswith('after'):
            self.sim.fault('db-' + f)
            raise DBError(what) if f == 'after' else Crash()

    def put(self, key, value):
        def effect():
            self.data[key] = value
            self.puts.append(key)
        self.call('put', effect)

    def iterate(self, starting_key):
        self.call('iterate')
        return It(self, starting_key)

    def delete(self, key):
        def effect():
            if self.on_delete:
                self.on_delete(key)
            del self.data[key]
        self.call('delete', effect)

    def on_change_start_entry(self, v):
        self.call('start', lambda: self.meta.update(start=v))

    def on_change_stop_entry(self, v):
        self.call('stop', lambda: self.meta.update(stop=v))

    def on_change_synced_up_to(self, v):
        self.call('synced', lambda: self.meta.update(synced=v))


class Faulty(Scenario):
    name = 'faulty'
    weight = 3

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(4, 22)):
            ops.append([rng.choice(['new'] * 7 + ['mem', 'mem', 'db', 'flush', 'archive', 'archive', 'latest', 'sync',
                                                  'sync', 'synced', 'old', 'part'] + (
                ['restart'] if rng.random() < 0.3 else [])),
                        rng.choice([1, 5, 10, 10, 25, 60]), rng.randint(0, 6)])
        plan = {}
        if rng.random() < 0.7:
            kinds = rng.choice([['before'], ['before', 'after'], ['beforecrash', 'aftercrash'],
                                ['before', 'after', 'beforecrash', 'aftercrash']])
            for _ in range(rng.randint(1, 4)):
                plan[str(rng.randint(1, 90))] = rng.choice(kinds)
        return {'progs': [ops], 'plan': plan, 'first': rng.choice([0, 0, 1, -7, 100]), 'span': rng.choice([10, 30, 50]),
                'dbspan': rng.choice([60, 100, 1000]), 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        db = DB(sim, p['plan'])
        db.quiet = False
        span, dbspan = p['span'], p['dbspan']
        live = {}               # what is in the series
        durable = set()         # what must survive a crash
        doubtful = set()        # put that raised after having been done
        state = {'synced': None, 'next': p['first'], 'latest': None, 'tainted': False}
        box = [SyncableDroppable(db, None, None, None, span, dbspan)]

        def on_delete(key):
            if state['latest'] is None or key >= state['latest'] - dbspan:
                raise Violation('deleted-early', 'entry %s was deleted, the latest is %s and the span %s' % (
                    key, state['latest'], dbspan))
        db.on_delete = on_delete

        def contents():
            db.quiet = True
            r = list(box[0].get_archive(LOW, HIGH))
            db.quiet = False
            return r

        def verify(what):
            got = contents()
            want = sorted(live.items())
            if got != want:
                raise Violation('contents', 'after %s the series is %s, expected %s' % (what, got, want))
            fk = box[0].first_key_in_memory
            if fk is not None and db.data and fk <= max(db.data) and fk not in doubtful:
                raise Violation('twice', 'entry %s is both in memory and in the DB' % fk)
            if db.opened:
                raise Violation('iterator', '%d iterators left open' % db.opened)

        def cut(keys, c):
            return [k for k in keys if k < c]

        def crash():
            missing = [k for k in durable if k in live and k not in db.data]
            if missing:
                raise Violation('lost', 'entries %s were lost in a crash after having been saved' % missing)
            for k in list(live):
                if k not in db.data:
                    del live[k]
            durable.intersection_update(live)
            db.opened = 0
            doubtful.clear()
            m = db.meta
            state['synced'] = m['synced']
            state['tainted'] = True
            state['latest'] = m['stop']
            box[0] = SyncableDroppable(db, m['start'], m['stop'], m['synced'], span, dbspan)
            sim.probe('restarted')

        for op, a, b in p['progs'][0]:
            sd = box[0]
            before_puts = len(db.puts)
            got = None
            try:
                if op == 'new':
                    k = state['next']
                    if state['latest'] is not None and k <= state['latest']:
                        k = state['latest'] + 1
                    state['next'] = k + a
                    was = state['latest']
                    try:
                        sd.on_new_data(k, 'v%s' % k)
                    except DBError:
                        # not added: may be repeated, unless the DB did hear of it
                        try:
                            sd.on_new_data(k, 'v%s' % k)
                        except DBError:
                            state['tainted'] = True
                            continue
                    live[k] = 'v%s' % k
                    state['latest'] = k
                elif op == 'old':
                    if state['latest'] is None:
                        continue
                    try:
                        sd.on_new_data(state['latest'] - b, 'old')
                    except ValueError:
                        pass
                    else:
                        raise Violation('old-key', 'a key not greater than the latest was accepted')
                elif op == 'mem':
                    sd.cleanup_keep_in_memory()
                    if state['latest'] is not None:
                        old = cut(live, state['latest'] - span)
                        durable.update(old)
                        bad = [k for k in old if k not in db.data]
                        if bad:
                            raise Violation('not-ejected', '%s not moved to the DB, the latest is %s' % (
                                bad, state['latest']))
                        young = [k for k in db.puts[before_puts:] if k > state['latest'] - span]
                        if young:
                            raise Violation('ejected-early', '%s moved to the DB, the latest is %s' % (
                                young, state['latest']))
                elif op == 'flush':
                    sd.sync_to_db()
                    durable.update(live)
                    if db.data != live:
                        raise Violation('not-flushed', 'DB has %s, the series %s' % (sorted(db.data), sorted(live)))
                    if sd.first_key_in_memory is not None:
                        raise Violation('twice', 'entries left in memory')
                elif op == 'db':
                    if state['latest'] is None:
                        sd.cleanup_keep_in_db()
                        continue
                    c = state['latest'] - dbspan
                    try:
                        sd.cleanup_keep_in_db()
                    except DBError:
                        got = dict(contents())
                        for k in cut(list(live), c):
                            if k not in got:
                                del live[k]
                        state['tainted'] = True
                        sim.probe('half-cleaned')
                        raise
                    except Crash:
                        for k in cut(list(live), c):
                            if k not in db.data:
                                del live[k]
                        raise
                    for k in cut(list(live), c):
                        del live[k]
                    if not live:
                        state['latest'] = db.meta['stop']
                elif op in ('archive', 'part'):
                    lo = state['next'] - 10 * a - b
                    hi = lo + 12 * b + a
                    want = sorted((k, v) for k, v in live.items() if lo <= k <= hi)
                    it = sd.get_archive(lo, hi)
                    if op == 'part' and want:
                        want = want[:1]
                        it = iter(it)
                        try:
                            got = [next(it)]
                        except StopIteration:
                            got = []
                        finally:
                            it.close()
                    else:
                        got = list(it)
                    if got != want:
                        raise Violation('archive', 'get_archive(%s, %s) gave %s, expected %s' % (lo, hi, got, want))
                elif op == 'latest':
                    try:
                        got = sd.get_latest_value()
                    except ValueError:
                        got = None
                    want = max(live.items()) if live else None
                    if got != want:
                        raise Violation('latest', 'get_latest_value gave %s, expected %s' % (got, want))
                elif op in ('sync', 'synced'):
                    want = sorted((k, v) for k, v in live.items() if state['synced'] is None or k > state['synced'])
                    try:
                        if b:
                            want = want[:b]
                            got = list(sd.on_sync_request(b))
                        else:
                            got = list(sd.on_sync_request())
                    except ValueError:
                        got = []
                        if want:
                            raise Violation('sync', 'nothing to synchronize, expected %s' % want)
                    else:
                        if not got:
                            raise Violation('sync', 'no ValueError with nothing to synchronize')
                    if got != want:
                        raise Violation('sync', 'on_sync_request gave %s, expected %s (synced up to %s)' % (
                            got, want, state['synced']))
                    if op == 'synced' and got:
                        sd.on_synced_up_to(got[-1][0])
                        state['synced'] = got[-1][0]
                elif op == 'restart':
                    crash()
            except DBError:
                sim.probe('failed-' + op)
                doubtful.update(k for k in db.puts[before_puts:])
                if op == 'synced':
                    state['synced'] = sd.synced_up_to
                    if state['synced'] is not None and got and state['synced'] > got[-1][0]:
                        raise Violation('sync', 'synced up to %s' % state['synced'])
            except Crash:
                crash()
            verify(op)
            if not state['tainted'] and not any(x.startswith('after') for x in p['plan'].values()):
                sd = box[0]
                if live and (sd.start_entry, sd.stop_entry) != (min(live), max(live)):
                    raise Violation('bounds', 'start and stop entries are %s and %s, expected %s and %s' % (
                        sd.start_entry, sd.stop_entry, min(live), max(live)))
                m = db.meta
                if (m['start'], m['stop'], m['synced']) != (sd.start_entry, sd.stop_entry, sd.synced_up_to):
                    raise Violation('bounds', 'the DB was told %s' % m)


class Threads(Scenario):
    name = 'threads'
    weight = 3

    def gen(self, rng):
        k = 0
        keys = []
        for _ in range(rng.randint(3, 10)):
            k += rng.choice([1, 5, 20])
            keys.append(k)
        nw = rng.choice([1, 2, 2, 3])
        progs = [[] for _ in range(nw)]
        for k in keys:
            for i in rng.sample(range(nw), rng.choice([1, 1, min(2, nw)])):
                progs[i].append(['new', k, rng.choice([0, 0, 0, 0.1])])
        for _ in range(rng.randint(1, 3)):
            progs.append([[rng.choice(['mem', 'flush', 'archive', 'archive', 'archive', 'sync', 'synced', 'latest', 'db']),
                           rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0, 0.05, 0.1])]
                          for _ in range(rng.randint(2, 6))])
        for prog in progs[nw + 1:]:     # only one of them reports
            for o in prog:
                if o[0] == 'synced':
                    o[0] = 'sync'
        return {'progs': progs, 'span': rng.choice([1, 5, 30]), 'dbspan': rng.choice([40, 1000]),
                'dur': rng.choice([0, 0, 0.02]), 'sched': gen_sched(rng, stall_max=(0.01, 0.2))}

    def run(self, sim, p):
        db = DB(sim, {}, p['dur'])
        db.quiet = False
        sd = SyncableDroppable(db, None, None, None, p['span'], p['dbspan'])
        acc = []            # [key, inv, ret, accepted]
        synced = []         # [key, inv, ret]

        def client(prog):
            for op, a, d in prog:
                if d:
                    time.sleep(d)
                s = sim.seq()
                if op == 'new':
                    h = [a, s, None, None]
                    acc.append(h)
                    try:
                        sd.on_new_data(a, 'v%s' % a)
                        h[3] = True
                    except ValueError:
                        h[3] = False
                    h[2] = sim.seq()
                elif op == 'mem':
                    sd.cleanup_keep_in_memory()
                elif op == 'flush':
                    sd.sync_to_db()
                    for h in acc:
                        if h[3] and h[2] < s and h[0] not in db.data and h[0] >= limit():
                            raise Violation('not-flushed', '%s not in the DB after sync_to_db()' % h[0])
                elif op == 'db':
                    sd.cleanup_keep_in_db()
                elif op == 'archive':
                    lo = [LOW, 10, 20][a % 3]
                    it = sd.get_archive(lo, HIGH)
                    got = []
                    for x in it:
                        got.append(x)
                        sim.yield_point('consuming')
                    judge(got, s, lo, 'get_archive')
                elif op in ('sync', 'synced'):
                    before = [x[0] for x in synced if x[2] is not None and x[2] < s]
                    try:
                        got = list(sd.on_sync_request(a) if a else sd.on_sync_request())
                    except ValueError:
                        got = []
                    top = max([x[0] for x in synced], default=LOW)
                    if a and len(got) > a:
                        raise Violation('sync', '%d entries, %d asked for' % (len(got), a))
                    judge(got, s, top + 1, 'on_sync_request', full=not a or len(got) < a)
                    if before and got and got[0][0] <= min(before):
                        raise Violation('sync', 'entry %s was given again' % got[0][0])
                    if op == 'synced' and got:
                        x = [got[-1][0], sim.seq(), None]
                        synced.append(x)
                        sd.on_synced_up_to(x[0])
                        x[2] = sim.seq()
                else:
                    try:
                        k, v = sd.get_latest_value()
                    except ValueError:
                        k = None
                    done = [h[0] for h in acc if h[3] and h[2] < s]
                    if done and (k is None or k < max(done)):
                        raise Violation('latest', '%s is the latest, though %s was added' % (k, max(done)))
                    if k is not None and k not in [h[0] for h in acc]:
                        raise Violation('latest', 'unknown key %s' % k)

        def limit():
            return max([h[0] for h in acc], default=0) - p['dbspan']

        def judge(got, s, lo, what, full=True):
            keys = [k for k, v in got]
            if any(b <= a for a, b in zip(keys, keys[1:])):
                raise Violation('order', '%s gave %s' % (what, keys))
            for k, v in got:
                if v != 'v%s' % k or not any(h[0] == k and h[3] is not False or h[0] == k and h[2] is None for h in acc):
                    raise Violation('contents', '%s gave %r' % (what, (k, v)))
            for h in acc:
                if h[3] and h[2] < s and h[0] >= max(lo, limit()) and h[0] not in keys:
                    if full or (keys and h[0] < keys[-1]):
                        raise Violation('missing', '%s gave %s without %s, added before' % (what, keys, h[0]))

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        ok = [h for h in acc if h[3]]
        if len({h[0] for h in ok}) != len(ok):
            raise Violation('accepted-twice', 'a key was accepted twice')
        for h in acc:
            if h[3]:
                if any(g[3] and g[2] < h[1] and g[0] >= h[0] for g in acc):
                    raise Violation('old-key', '%s accepted after a greater key' % h[0])
            elif not any(g[3] and g[0] >= h[0] and g[1] < h[2] for g in acc):
                raise Violation('rejected', '%s rejected for no reason' % h[0])
        judge(list(sd.get_archive(LOW, HIGH)), sim.seq(), LOW, 'get_archive')
        sd.sync_to_db()
        if sd.first_key_in_memory is not None:
            raise Violation('twice', 'entries left in memory')
        want = [h[0] for h in ok if h[0] >= limit()]
        if not set(want) <= set(db.data) <= {h[0] for h in ok}:
            raise Violation('lost', 'the DB has %s, expected %s' % (sorted(db.data), want))
        if len(set(db.puts)) != len(db.puts):
            raise Violation('twice', 'an entry was written to the DB twice: %s' % db.puts)
        if db.opened:
            raise Violation('iterator', '%d iterators left open' % db.opened)


SCENARIOS = [Faulty(), Threads()]
