"""C22 database transactions under a failing connection"""
import functools

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.db import transaction


class DBError(Exception):
    pass


class DBInterrupted(BaseException):
    """the call to the database was interrupted, as by Ctrl-C"""


class Oops(Exception):
    pass


class Fatal(BaseException):
    pass


FATAL = {'fatal': Fatal, 'kbd': KeyboardInterrupt, 'gexit': GeneratorExit, 'exit': SystemExit}


class Transactions(Scenario):
    name = 'transaction'

    def gen(self, rng):
        progs = [[[rng.choice(['ok', 'ok', 'raise', 'fatal', rng.choice(['kbd', 'gexit', 'exit']), 'sql']), rng.choice(['conn', 'lambda', 'method', 'partial', 'object']),
                   rng.random() < 0.5, rng.random() < 0.5, rng.choice([1, 1, 2])] for _ in range(rng.randint(1, 4))]
                 for _ in range(rng.randint(1, 3))]
        return {'progs': progs, 'p': {k: rng.choice([0.1, 0.5]) for k in ('getter', 'cursor', 'commit', 'rollback', 'close_cursor', 'close', 'execute')
                                      if rng.random() < 0.4},
                'callable': rng.random() < 0.5, 'hard': rng.random() < 0.3, 'sched': gen_sched(rng, stalls=False)}

    def run(self, sim, p):
        def may_fail(what):
            sim.yield_point(what)
            if p['p'].get(what) and sim.flip(what, p['p'][what]):
                raise (DBInterrupted if p['hard'] else DBError)(what)

        class Cursor:
            def __init__(self, conn):
                self.conn = conn
                self.open = True

            def execute(self, x):
                if not self.open:
                    raise Violation('cursor', 'a closed cursor was given')
                may_fail('execute')
                self.conn.pending.append(x)

            def close(self):
                self.open = False       # of no use any more, even if it failed
                self.conn.log.append('close_cursor')
                may_fail('close_cursor')

        class Connection:
            def __init__(self):
                self.log = []
                self.cursors = []
                self.pending = []
                self.durable = []
                self.closed = 0

            def cursor(self):
                self.log.append('cursor')
                if self.closed:
                    raise Violation('used-closed', 'a cursor was requested from a closed connection')
                may_fail('cursor')
                c = Cursor(self)
                self.cursors.append(c)
                return c

            def commit(self):
                self.log.append('commit')
                self.commit_failed = True
                may_fail('commit')
                self.commit_failed = False
                self.durable += self.pending
                self.pending = []

            def rollback(self):
                self.log.append('rollback')
                self.pending = []
                may_fail('rollback')

            def close(self):
                self.log.append('close')
                self.closed += 1
                self.pending = []
                may_fail('close')

        class CallableConnection(Connection):
            def __call__(self, *args):
                raise Violation('called', 'the connection was called')

        def client(me, prog):
            for kind, how, close, log, times in prog:
                made = []

                def get():
                    may_fail('getter')
                    made.append((CallableConnection if p['callable'] else Connection)())
                    return made[-1]

                class Provider:
                    def get(self):
                        return get()

                    def __call__(self):
                        return get()

                conn = Connection()
                src = {'lambda': lambda: get(), 'method': Provider().get, 'partial': functools.partial(get),
                       'object': Provider()}.get(how)
                if src is None:
                    src = conn = (CallableConnection if p['callable'] else Connection)()
                    made.append(conn)
                tr = transaction(src, close, log)
                for k in range(1 if close else times):
                    rows = ['%d-%d' % (k, j) for j in range(2)]
                    before = len(made[0].durable) if made else 0
                    mark = len(made[0].log) if made else 0
                    entered, raised, thrown, fine = False, None, None, False
                    try:
                        with tr as cur:
                            entered = True
                            if made and cur is not made[0].cursors[-1]:
                                raise Violation('cursor', 'the context is not a cursor of the connection')
                            for r in rows:
                                cur.execute(r)
                            if kind == 'sql':
                                thrown = DBError('sql')
                            elif kind == 'raise':
                                thrown = Oops()
                            elif kind in FATAL:
                                thrown = FATAL[kind]()
                            if thrown is not None:
                                raise thrown
                            fine = True
                    except (DBError, DBInterrupted, Oops, Fatal, KeyboardInterrupt, GeneratorExit, SystemExit) as e:
                        raised = e
                    if len(made) > 1:
                        raise Violation('getter', 'the getter was called %d times' % len(made))
                    if not made:
                        if raised is None or raised.args != ('getter',):
                            raise Violation('not-raised', 'no connection could be had, raised was %r' % (raised,))
                        break
                    c = made[0]
                    did = c.log[mark:]
                    if close and (c.closed != 1 or did[-1] != 'close'):
                        raise Violation('not-closed', 'the connection was not closed, calls were %s' % did)
                    if not close and c.closed:
                        raise Violation('closed', 'the connection was closed')
                    if not entered:
                        if raised is None or 'commit' in did:
                            raise Violation('not-raised', 'no cursor, raised was %r, calls %s' % (raised, did))
                        continue
                    if any(x.open for x in c.cursors):
                        raise Violation('cursor-open', 'a cursor was left open, calls were %s' % did)
                    if not fine:
                        if raised is None:
                            raise Violation('swallowed', 'an exception raised in the context was swallowed')
                        if did.count('rollback') != 1 or 'commit' in did:
                            raise Violation('no-rollback', 'the context ended with %r, calls were %s' % (raised, did))
                        if len(c.durable) != before or c.pending:
                            raise Violation('no-rollback', 'changes are not rolled back')
                        chain = [raised]
                        while chain[-1].__context__ is not None:
                            chain.append(chain[-1].__context__)
                        if thrown is not None and thrown not in chain:
                            raise Violation('swallowed', 'the exception raised in the context is lost, got %r' % raised)
                        continue
                    if did.count('commit') != 1:
                        raise Violation('no-commit', 'the context ended fine, calls were %s' % did)
                    if c.commit_failed:
                        chain = [raised]
                        while chain[-1] is not None and chain[-1].__context__ is not None:
                            chain.append(chain[-1].__context__)
                        if not any(x is not None and x.args == ('commit',) for x in chain):
                            raise Violation('not-raised', 'commit failed, raised was %r' % (raised,))
                        if did.count('rollback') != 1 or c.pending:
                            raise Violation('no-rollback', 'commit failed and was not followed by a rollback, calls were %s' % did)
                        if len(c.durable) != before:
                            raise Violation('durable', 'rows are there after a failed commit')
                    else:
                        if 'rollback' in did:
                            raise Violation('rollback', 'rolled back what was committed')
                        if len(c.durable) != before + len(rows):
                            raise Violation('no-commit', '%d rows were committed, not %d' % (len(c.durable) - before, len(rows)))
                        if raised is not None and raised.args not in (('close_cursor',), ('close',)):
                            raise Violation('raised', 'raised %r' % (raised,))

        for t in [spawn(sim, client, i, prog) for i, prog in enumerate(p['progs'])]:
            t.join()


SCENARIOS = [Transactions()]
