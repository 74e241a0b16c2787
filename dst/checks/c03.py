"""C03 Timer"""
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn

from satella.coding.concurrent import Timer


class Timers(Scenario):
    name = 'timers'
    horizon = 2000.0

    def gen(self, rng):
        progs = []
        n = 0
        ivs = [0.3, 0.5, 1.0, 1.5, 3.0] if rng.random() < .5 else [rng.choice([0.3, 1.0, 2.5])]
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k = rng.random()
                if k < 0.7 or n == 0:
                    ops.append(['start', n, rng.choice(ivs), rng.random() < 0.3,
                                rng.choice(['ok', 'ok', 'ok', 'raise', 'slow', 'restart']),
                                rng.choice(['none', 'args', 'kwargs'])])
                    n += 1
                elif k < 0.85:
                    ops.append(['cancel', rng.randrange(n)])
                else:
                    ops.append(['sleep', rng.choice([0.2, 0.7, 1.3])])
            progs.append(ops)
        return {'progs': progs, 'sched': gen_sched(rng, stall_max=(0.01, 0.3, 3.0),
                                                   pstall=(0, 0, 0, 0.01, 0.1))}

    def run(self, sim, p):
        T = {}          # n -> record
        slow_total = [0.0]

        def make(n, interval, sep, kind, argk):
            rec = {'n': n, 'interval': interval, 'calls': [], 'started': None, 'cancel': None,
                   'sep': sep}

            def fn(*args, **kwargs):
                rec['calls'].append((sim.now, args, kwargs))
                sim.log('fired', n)
                if kind == 'raise':
                    raise ValueError('callback failure')
                if kind == 'slow':
                    if not sep:
                        slow_total[0] += 2.5
                    time.sleep(2.5)
                if kind == 'restart' and n < 1000:
                    start(1000 + n, interval, sep, 'ok', argk)

            kw = {}
            if argk == 'args':
                kw['args'] = [n, 'x']
            if argk == 'kwargs':
                kw['kwargs'] = {'k': n}
            rec['expect'] = (tuple(kw.get('args', ())), kw.get('kwargs', {}))
            iv = interval if n % 2 else '%ss' % interval
            rec['timer'] = Timer(iv, fn, spawn_separate=sep, **kw)
            return rec

        def start(n, *a):
            rec = make(n, *a)
            rec['begun'] = sim.now
            T[n] = rec
            rec['timer'].start()
            rec['started'] = sim.now
            sim.log('started', n)

        def client(prog):
            for op in prog:
                if op[0] == 'start':
                    start(*op[1:])
                elif op[0] == 'cancel':
                    rec = T.get(op[1])
                    if rec is not None:
                        rec['timer'].cancel()
                        if rec['cancel'] is None:
                            rec['cancel'] = sim.now
                        sim.log('cancel', op[1])
                else:
                    time.sleep(op[1])

        for t in [spawn(sim, client, prog) for prog in p['progs']]:
            t.join()
        sim.faults_on = False
        time.sleep(60 + 3 * sim.stall_total)
        for rec in list(T.values()):
            due = rec['begun'] + rec['interval']
            nc = len(rec['calls'])
            what = 'timer %d (interval %s)' % (rec['n'], rec['interval'])
            if nc > 1:
                raise Violation('duplicate', '%s fired %d times' % (what, nc))
            if nc == 1:
                at, args, kwargs = rec['calls'][0]
                if at < due - 1e-6:
                    raise Violation('early', '%s fired %.4f s after start()' % (what, at - rec['begun']))
                if (args, kwargs) != rec['expect']:
                    raise Violation('arguments', '%s got %r' % (what, (args, kwargs)))
                if rec['cancel'] is not None and rec['cancel'] < due - 1e-6 and at > due:
                    raise Violation('cancelled', '%s fired at +%.3f although cancelled at +%.3f' % (
                        what, at - rec['begun'], rec['cancel'] - rec['begun']))
                late = at - (rec['started'] + rec['interval'])
                allowed = 1.1 + slow_total[0] + sim.stall_total
                if late > allowed:
                    raise Violation('late', '%s fired %.3f s late (allowed %.3f)' % (what, late, allowed))
                sim.probe('fired')
            elif rec['cancel'] is None:
                raise Violation('lost', '%s never fired; background thread errors: %r' % (
                    what, sim.thread_errors))
            else:
                sim.probe('cancelled')
        dues = sorted(r['calls'][0][0] for r in T.values() if r['calls'])
        if len(set(dues)) < len(dues):
            sim.probe('simultaneous')
        # the service still works
        rec = make(5000, 0.5, False, 'ok', 'none')
        rec['timer'].start()
        time.sleep(5)
        if len(rec['calls']) != 1:
            raise Violation('lost', 'timers stopped working after this history; errors: %r' % (
                sim.thread_errors,))


SCENARIOS = [Timers()]
