"""C10 Future, WrappingFuture, FutureCollection"""
import time
from concurrent.futures import Future as PFuture, CancelledError, TimeoutError as FTimeout, wait, \
    FIRST_COMPLETED, FIRST_EXCEPTION

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import Future, WrappingFuture, FutureCollection, InvalidStateError
from satella.coding.concurrent.futures import wrap_if
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


class One(Scenario):
    """one future, many parties"""
    name = 'future'
    weight = 4

    def gen(self, rng):
        pres = ['add', 'add', 'mul', 'exc', 'raise', 'slow', 'rescue']
        pc = rng.choice([0, 0, 0.3])
        progs = []
        for _ in range(rng.randint(1, 2)):
            progs.append([['fin', rng.choice(['ok', 'ok', 'exc']), rng.choice([0, 0, 0.1, 1.0])]])
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                if k < 0.35:
                    ops.append(['get', rng.choice(['result', 'result', 'exception', 'wait', 'wait1']),
                                rng.choice([None, None, 0, 0.05, 0.5, 3.0])])
                elif k < 0.6:
                    ops.append(['pre', rng.choice(pres)])
                elif k < 0.9 - pc:
                    ops.append([rng.choice(['done', 'on_success', 'on_failure', 'chain'])])
                elif k < 0.93:
                    ops.append(['cancel'])
                else:
                    ops.append(['state'])
            progs.append(ops)
        return {'progs': progs, 'init': [rng.choice(pres) for _ in range(rng.randint(0, 3))],
                'run': rng.random() < 0.5, 'wrap': rng.choice([0, 0, 1, 2, 3]),
                'cancel_src': rng.random() < 0.5,
                'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def shrink(self, p):
        yield from super().shrink(p)
        for i in range(len(p['init'])):
            q = dict(p)
            q['init'] = p['init'][:i] + p['init'][i + 1:]
            yield q

    def run(self, sim, p):
        # wrap: 0 plain Satella future, 1 wraps a fresh one, 2 wraps at some later moment, 3 wraps a finished one
        src = PFuture() if p['wrap'] else None
        if p['wrap'] == 3:
            src.set_result(10)
        if p['wrap'] == 2:
            box = []

            def wrapper():
                box.append(wrap_if(src))
        fut = None
        st = {'cur': None, 'phase': 'pending', 'winner': None}
        pre, done, gets = [], [], []
        preseq = []
        cancels = []
        waits = []

        def outcome_of(f):
            try:
                return ('ok', f.result(0))
            except Boom as e:
                return ('exc', e.args[0])

        def add_pre(kind):
            rec = {'kind': kind, 'inv': sim.seq(), 'ret': None, 'runs': [], 'fin': None}
            pre.append(rec)

            def cb(f):
                rec['runs'].append(sim.seq())
                if f is not fut:
                    raise Violation('callback-arg', 'pre-done callback got another future')
                if f.done():
                    st['phase'] = 'done'        # added after the future has finished
                elif st['phase'] == 'pending':
                    # first to be called
                    st['phase'] = 'pre'
                    st['cur'] = outcome_of(f)
                if st['phase'] == 'pre':
                    now = outcome_of(f)
                    if now != st['cur']:
                        raise Violation('pre-chain', 'a pre-done callback sees %s, should be %s' % (now, st['cur']))
                    preseq.append(rec)
                    if kind == 'slow':
                        time.sleep(0.2)
                    elif kind == 'raise':
                        sim.yield_point('pre')
                        rec['fin'] = sim.seq()
                        raise ValueError('in a callback')
                    elif kind == 'exc':
                        f.set_exception(Boom('pre'))
                        st['cur'] = ('exc', 'pre')
                    elif kind == 'rescue':
                        f.set_result(1000)
                        st['cur'] = ('ok', 1000)
                    elif now[0] == 'ok':
                        v = now[1] + 1 if kind == 'add' else now[1] * 3
                        f.set_result(v)
                        st['cur'] = ('ok', v)
                    sim.yield_point('pre')
                rec['fin'] = sim.seq()

            fut.add_pre_done_callback(cb)
            rec['ret'] = sim.seq()

        def add_done(kind):
            rec = {'kind': kind, 'inv': sim.seq(), 'ret': None, 'runs': []}
            done.append(rec)

            def cb(x):
                if kind == 'done':
                    if x is not fut:
                        raise Violation('callback-arg', 'done callback got another future')
                    if not x.done():
                        raise Violation('callback-early', 'done callback called on a future not done')
                    x = ('cancelled',) if x.cancelled() else outcome_of(x)
                    st['phase'] = 'done'
                elif kind == 'on_success':
                    x = ('ok', x)
                elif kind == 'on_failure':
                    x = ('exc', x.args[0]) if isinstance(x, Boom) else ('bad', repr(x))
                elif kind == 'chain':
                    x = ('exc', x.args[0]) if isinstance(x, Boom) else ('ok', x)
                rec['runs'].append((sim.seq(), x))
                sim.yield_point('done')

            if kind == 'done':
                fut.add_done_callback(cb)
            else:
                if getattr(fut, kind)(cb) is not fut:
                    raise Violation('result', '%s does not return self' % kind)
            rec['ret'] = sim.seq()

        fins = []

        def client(prog):
            for op in prog:
                k = op[0]
                if k == 'fin':
                    if op[2]:
                        time.sleep(op[2])
                    rec = {'inv': sim.seq(), 'what': ('ok', 10) if op[1] == 'ok' else ('exc', 'orig'), 'r': None}
                    fins.append(rec)
                    target = src if src is not None else fut
                    try:
                        if op[1] == 'ok':
                            target.set_result(10)
                        else:
                            target.set_exception(Boom('orig'))
                        rec['r'] = 'ok'
                    except InvalidStateError:
                        rec['r'] = 'invalid'
                    rec['ret'] = sim.seq()
                elif k == 'get':
                    t0 = sim.now
                    inv = sim.seq()
                    kw = {} if op[2] is None else {'timeout': op[2]}
                    try:
                        if op[1] == 'result':
                            r = ('ok', fut.result(**kw))
                        elif op[1] == 'wait1':
                            # returns once it has failed; this one never finishes by itself
                            d, nd = wait([fut, PFuture()], timeout=100, return_when=FIRST_EXCEPTION)
                            waits.append((sim.now - t0 < 100 - 1e-3, fut in d))
                            continue
                        elif op[1] == 'wait':
                            d, nd = wait([fut], timeout=1000 if op[2] is None else op[2])
                            if nd:
                                # stdlib: cancelled futures count only once the executor has noticed
                                if op[2] is None and not fut.cancelled():
                                    raise Violation('wait', 'wait() did not notice a finished future')
                                continue
                            if d != {fut}:
                                raise Violation('wait', 'wait() returned %s' % (d,))
                            continue
                        else:
                            e = fut.exception(**kw)
                            r = ('noexc',) if e is None else ('exc', e.args[0])
                    except CancelledError:
                        r = ('cancelled',)
                    except FTimeout:
                        r = ('timeout',)
                        if op[2] is None or sim.now - t0 < op[2] - 1e-3:
                            raise Violation('spurious-timeout', '%s gave up after %.3f s of %s' % (
                                op[1], sim.now - t0, op[2]))
                    except Boom as e:
                        r = ('exc', e.args[0])
                    gets.append((op[1], r, inv, sim.seq(), t0, sim.now))
                elif k == 'pre':
                    add_pre(op[1])
                elif k in ('done', 'on_success', 'on_failure', 'chain'):
                    add_done(k)
                elif k == 'cancel':
                    rec = {'inv': sim.seq()}
                    cancels.append(rec)
                    target = src if src is not None and p['cancel_src'] else fut
                    rec['r'] = target.cancel()
                    rec['ret'] = sim.seq()
                elif k == 'state':
                    if fut.done() and not fut.cancelled():
                        gets.append(('result', outcome_of(fut), sim.seq(), sim.seq(), sim.now, sim.now))

        has_fin = any(op[0] == 'fin' for pr in p['progs'] for op in pr)
        if p['wrap'] == 0:
            fut = Future()
        elif p['wrap'] in (1, 3):
            fut = WrappingFuture(src)
        if p['run'] and p['wrap'] != 3:
            if not (src if src is not None and (fut is None or p['cancel_src']) else fut).set_running_or_notify_cancel():
                raise Violation('running', 'set_running_or_notify_cancel')
        ths = []
        if p['wrap'] == 2:
            # the source may finish while being wrapped
            ths = [spawn(sim, client, pr) for pr in p['progs'] if pr and pr[0][0] == 'fin']
            w = spawn(sim, wrapper)
            w.join()
            fut = box[0]
            if not isinstance(fut, Future):
                raise Violation('type', 'wrap_if returned %r' % (fut,))
        if wrap_if(fut) is not fut:
            raise Violation('type', 'wrap_if wrapped a Satella future')
        for k in p['init']:
            add_pre(k)
        ths += [spawn(sim, client, pr) for pr in p['progs'] if p['wrap'] != 2 or not (pr and pr[0][0] == 'fin')]
        if not has_fin and p['wrap'] != 3:
            ths.append(spawn(sim, client, [['fin', 'ok', 0]]))
        for t in ths:
            t.join()
        self.judge(sim, p, fut, st, pre, preseq, done, gets, cancels, fins)
        for early, there in waits:
            failed = not fut.cancelled() and fut.exception() is not None
            if early != (failed and there) and not (failed and sim.stall_total):
                raise Violation('wait', 'wait(FIRST_EXCEPTION) returned %s, the future %s' % (
                    'at once' if early else 'after a time out', 'failed' if failed else 'did not fail'))

    def judge(self, sim, p, fut, st, pre, preseq, done, gets, cancels, fins):
        if not fut.done():
            raise Violation('not-done', 'the future never finished')
        cancelled = fut.cancelled()
        if p['wrap'] == 3:
            winners = [{'what': ('ok', 10), 'inv': 0}]
        else:
            winners = [f for f in fins if f['r'] == 'ok']
        if len(winners) + (1 if cancelled else 0) != 1:
            raise Violation('finished-twice', 'finished %d times, cancelled: %s' % (len(winners), cancelled))
        if cancelled != any(c['r'] for c in cancels):
            raise Violation('cancel', 'cancel() returned %s, cancelled() is %s' % ([c['r'] for c in cancels], cancelled))
        if cancelled and p['run']:
            raise Violation('cancel', 'cancelled while running')
        final = ('cancelled',) if cancelled else (st['cur'] if preseq else winners[0]['what'])
        got = ('cancelled',) if cancelled else None
        if not cancelled:
            try:
                got = ('ok', fut.result())
            except Boom as e:
                got = ('exc', e.args[0])
            e = fut.exception()
            if (e is not None) != (got[0] == 'exc'):
                raise Violation('final', 'exception() is %r while result() is %s' % (e, got))
        if got != final:
            raise Violation('final', 'final outcome %s, expected %s (%s)' % (got, final, winners))
        lastpre = max([r['fin'] or 1 << 60 for r in preseq], default=0)
        if preseq and not cancelled:
            # replay the transformations
            v = winners[0]['what']
            for r in preseq:
                k = r['kind']
                if k == 'exc':
                    v = ('exc', 'pre')
                elif k == 'rescue':
                    v = ('ok', 1000)
                elif k in ('add', 'mul') and v[0] == 'ok':
                    v = ('ok', v[1] + 1 if k == 'add' else v[1] * 3)
            if v != final:
                raise Violation('final', 'outcome %s, pre-done callbacks make it %s' % (final, v))
        for r in pre:
            if not cancelled:
                if len(r['runs']) != 1:
                    raise Violation('pre-count', 'pre-done callback called %d times' % len(r['runs']))
                if r['ret'] is not None and p['wrap'] in (0, 1) and r['ret'] < winners[0]['inv'] and \
                        not any(r is q for q in preseq):
                    raise Violation('pre-late', 'pre-done callback called after the future finished')
            elif len(r['runs']) > 1:
                raise Violation('pre-count', 'pre-done callback called %d times' % len(r['runs']))
        for a in preseq:
            for b in preseq:
                if a['ret'] < b['inv'] and a['runs'][0] > b['runs'][0]:
                    raise Violation('pre-order', 'pre-done callbacks called out of order')
        for kind, r, inv, ret, t0, t1 in gets:
            if r == ('timeout',):
                continue
            exp = final
            if kind == 'exception' and final[0] == 'ok':
                exp = ('noexc',)
            if r != exp:
                raise Violation('waiter', '%s() returned %s, final outcome is %s' % (kind, r, final))
            if not cancelled and ret < lastpre:
                raise Violation('waiter-early', 'seen before pre-done callbacks finished')
        for r in done:
            k = r['kind']
            should = {'done': 1, 'on_success': final[0] == 'ok', 'on_failure': final[0] == 'exc',
                      'chain': 1}[k]
            if k == 'chain' and cancelled:
                continue
            if len(r['runs']) != int(should):
                raise Violation('done-count', '%s callback called %d times, outcome %s' % (k, len(r['runs']), final))
            for s, x in r['runs']:
                if x != final:
                    raise Violation('done-value', '%s callback saw %s, outcome %s' % (k, x, final))
                if s < lastpre and not cancelled:
                    raise Violation('done-early', 'done callback called before pre-done callbacks finished')
        sim.probe('final:' + final[0])


class Coll(Scenario):
    name = 'collection'
    weight = 2

    def gen(self, rng):
        n = rng.randint(1, 4)
        return {'outs': [[rng.choice(['ok', 'ok', 'exc', 'never', 'cancel']) if rng.random() < 0.7 else 'ok',
                          rng.choice([0, 0.1, 1.0, 3.0])] for _ in range(n)],
                'op': rng.choice(['result', 'result', 'exception', 'cancel', 'set_result', 'set_exception', 'callback',
                                  'one', 'running']),
                'timeout': rng.choice([None, 0.5, 5.0]), 'how': rng.randint(0, 9), 'running': rng.randint(0, 15),
                'plain': rng.random() < 0.5, 'sched': gen_sched(rng, stall_max=(0.01, 0.3))}

    def run(self, sim, p):
        outs = [o[0] for o in p['outs']]
        n = len(outs)
        if p['timeout'] is None and p['op'] in ('result', 'exception'):
            outs = ['ok' if o == 'never' else o for o in outs]
        futs = [PFuture() if p['plain'] else Future() for _ in range(n)]
        if p['running'] & 1:
            futs.reverse()          # not in the order they were made
        if p['how'] == 0:
            fc = FutureCollection(futs)
        elif p['how'] == 1:
            fc = FutureCollection()
            for f in futs:
                fc.add(f)
        elif p['how'] == 2:
            fc = FutureCollection(futs[:1])
            fc += futs[1:]
        elif p['how'] == 3:
            a, b = FutureCollection(futs[:1]), FutureCollection(futs[1:])
            fc = a + b
            if len(a) != 1 or len(b) != n - 1:
                raise Violation('collection', '+ changed a collection')
        elif p['how'] == 4:
            a = FutureCollection(futs[:1])
            fc = a + tuple(futs[1:])
            if len(a) != 1:
                raise Violation('collection', '+ changed a collection')
        elif p['how'] == 5:
            fc = FutureCollection()
            for f in futs:
                old, k = fc, len(fc)
                fc = fc + f
                if len(old) != k:
                    raise Violation('collection', '+ changed a collection')
        elif p['how'] == 6:
            fc = fc0 = FutureCollection()
            for f in futs:
                fc += f
            if fc is not fc0:
                raise Violation('collection', '+= made another collection')
        elif p['how'] == 7:
            fc = fc0 = FutureCollection(futs[:1])
            fc += FutureCollection(futs[1:])
            if fc is not fc0:
                raise Violation('collection', '+= made another collection')
        elif p['how'] == 8:
            fc = FutureCollection(iter(futs))
        else:
            fc = fc0 = FutureCollection(tuple(futs[:1]))
            fc += futs[1:]
            if fc is not fc0:
                raise Violation('collection', '+= made another collection')
        if len(fc) != n or any(fc[i] is not f for i, f in enumerate(futs)):
            raise Violation('collection', 'members differ')
        seen = []
        op = p['op']
        if op in ('callback', 'one'):
            fc.add_done_callback(seen.append, only_one=op == 'one')
        if op in ('set_result', 'set_exception', 'cancel', 'running'):
            run = [bool(p['running'] >> i & 1) for i in range(n)]
            if op == 'cancel':
                for f, r in zip(futs, run):
                    if r:
                        f.set_running_or_notify_cancel()
                r = fc.cancel()
                if r != (not any(run)):
                    raise Violation('cancel', 'returned %s, running: %s' % (r, run))
                if [f.cancelled() for f in futs] != [not x for x in run]:
                    raise Violation('cancel', 'running %s, cancelled %s' % (run, [f.cancelled() for f in futs]))
            elif op == 'running':
                for f, r in zip(futs, run):
                    if not r:
                        f.cancel()
                if fc.set_running_or_notify_cancel() != any(run):
                    raise Violation('running', 'wrong result')
                if [f.running() for f in futs] != run:
                    raise Violation('running', 'not all futures were set running')
            elif op == 'set_result':
                fc.set_result(5)
                if fc.result(timeout=1) != [5] * n or [f.result(0) for f in futs] != [5] * n:
                    raise Violation('set', 'result not set')
            else:
                e = Boom(1)
                fc.set_exception(e)
                if fc.exception() is not e or any(f.exception(0) is not e for f in futs):
                    raise Violation('set', 'exception not set')
            return

        times = [None] * n

        def finish(i):
            d = p['outs'][i][1]
            if d:
                time.sleep(d)
            if outs[i] == 'ok':
                futs[i].set_result(i)
            elif outs[i] == 'exc':
                futs[i].set_exception(Boom(i))
            elif outs[i] == 'cancel':
                futs[i].cancel()
            times[i] = sim.now

        ths = [spawn(sim, finish, i) for i in range(n)]
        t0 = sim.now
        if op in ('callback', 'one'):
            for t in ths:
                t.join()
            exp = [f for f, o in zip(futs, outs) if o != 'never']
            if op == 'one':
                if len(seen) > 1 or any(s not in futs for s in seen) or not seen and len(exp) == n:
                    raise Violation('callback', 'called %d times' % len(seen))
            elif len(seen) != len(exp) or {id(x) for x in seen} != {id(x) for x in exp}:
                raise Violation('callback', 'called %d times, %d futures done' % (len(seen), len(exp)))
            return
        kw = {} if p['timeout'] is None else {'timeout': p['timeout']}
        try:
            r = ('ok', getattr(fc, op)(**kw))
        except WouldWaitMore:
            r = ('timeout',)
        except CancelledError:
            r = ('cancelled',)
        except Boom as e:
            r = ('exc', e.args[0])
        if r == ('timeout',):
            if p['timeout'] is None or sim.now - t0 < p['timeout'] - 1e-3:
                raise Violation('spurious-timeout', 'gave up after %.3f s' % (sim.now - t0))
            if 'never' not in outs and None not in times and max(times) < t0 + p['timeout'] - 1e-3 - sim.stall_total:
                raise Violation('spurious-timeout', 'gave up though all were done in time')
            sim.probe('timeout')
            return
        bad = [i for i, o in enumerate(outs) if o != 'ok']
        if op == 'result':
            if not bad:
                exp = ('ok', list(range(n)))
            elif outs[bad[0]] == 'exc':
                exp = ('exc', bad[0])
            else:
                exp = ('cancelled',) if outs[bad[0]] == 'cancel' else None
            if r != exp:
                raise Violation('result', 'futures %s: result() gave %s' % (outs, r))
        else:
            if not bad:
                ok = r == ('ok', None)
            elif outs[bad[0]] == 'exc':
                ok = r[0] == 'ok' and isinstance(r[1], Boom) and r[1].args == (bad[0],)
            else:
                ok = outs[bad[0]] == 'cancel' and r == ('cancelled',)
            if not ok:
                raise Violation('exception', 'futures %s: exception() gave %s' % (outs, r))


SCENARIOS = [One(), Coll()]
