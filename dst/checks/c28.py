"""C28 PrometheusHTTPExporterThread"""
import errno
import io
import threading
import time

from ..core import Violation
from ..runner import Scenario, gen_sched, spawn
from .c25 import entries

import http.server
import socketserver

from satella.instrumentation.metrics import getMetric
from satella.instrumentation.metrics.exporters import PrometheusHTTPExporterThread


class Net:
    """listening sockets by address, and what was sent"""

    def __init__(self, sim, p):
        self.sim, self.p = sim, p
        self.bound = {}
        self.sockets = []


NET = [None]


class Socket:
    def __init__(self, *a, **kw):
        self.net = NET[0]
        self.net.sockets.append(self)
        self.addr = None
        self.closed = False
        self.listening = False
        self.queue = []
        self.cond = threading.Condition()

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def fileno(self):
        return 1000 + self.net.sockets.index(self)

    def bind(self, addr):
        self.net.sim.yield_point('bind')
        if addr in self.net.bound:
            self.net.sim.fault('address-in-use')
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.net.bound[addr] = self
        self.addr = addr

    def getsockname(self):
        return self.addr

    def listen(self, n):
        self.listening = True

    def close(self):
        self.closed = True
        if self.addr is not None and self.net.bound.get(self.addr) is self:
            del self.net.bound[self.addr]
        for c in self.queue:
            c.reset()

    def accept(self):
        sim = self.net.sim
        if self.net.p['paccept'] and sim.flip('accept', self.net.p['paccept']):
            sim.fault('accept-fails')
            c = self.queue.pop(0)
            c.reset()
            raise OSError(errno.ECONNABORTED, 'Connection aborted')
        c = self.queue.pop(0)
        c.accepted = True
        return c, ('10.0.0.1', 40000)

    def push(self, c):
        if not self.listening or self.closed:
            raise ConnectionRefusedError()
        with self.cond:
            if self.closed:
                raise ConnectionRefusedError()
            self.queue.append(c)
            self.cond.notify_all()


class Selector:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def register(self, server, events):
        self.sock = server.socket

    def select(self, timeout=None):
        s = self.sock
        with s.cond:
            if not s.queue:
                s.cond.wait(timeout)
            return [s] if s.queue else []


class Conn:
    """the server's end of a connection"""

    def __init__(self, sim, request, kind):
        self.sim, self.request, self.kind = sim, request, kind
        self.sent = b''
        self.timeout = None
        self.done = threading.Event()
        self.accepted = False
        self.was_reset = False

    def settimeout(self, t):
        self.timeout = t

    def makefile(self, mode, bufsize=-1):
        return Reader(self)

    def sendall(self, data):
        self.sim.yield_point('send')
        if self.kind == 'gone':
            self.sim.fault('client-gone')
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.sent += bytes(data)

    def shutdown(self, how):
        if self.kind == 'gone':
            raise OSError(errno.ENOTCONN, 'not connected')

    def close(self):
        self.done.set()

    def reset(self):
        self.was_reset = True
        self.done.set()

    def fileno(self):
        return 999


class Reader(io.RawIOBase):
    def __init__(self, conn):
        self.conn = conn
        self.buf = io.BytesIO(conn.request)

    def readline(self, limit=-1):
        c = self.conn
        if c.kind == 'silent':
            c.sim.fault('silent-client')
            time.sleep(c.timeout if c.timeout is not None else 1000000)
            raise TimeoutError('timed out')
        if c.kind == 'reset':
            c.sim.fault('connection-reset')
            raise ConnectionResetError(errno.ECONNRESET, 'reset')
        c.sim.yield_point('recv')
        return self.buf.readline(limit)

    def close(self):
        pass


class FakeSocketModule:
    socket = Socket
    SHUT_WR = 1
    AF_INET, SOCK_STREAM, SOL_SOCKET, SO_REUSEADDR = 2, 1, 1, 2
    SO_REUSEPORT = 15

    @staticmethod
    def getfqdn(host=''):
        return host


LABEL = 'q"\\\n\u017c'


class Exporter(Scenario):
    name = 'exporter'
    weight = 1
    horizon = 3000.0
    max_steps = 2000000

    def gen(self, rng):
        progs = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append([rng.choice(['get'] * 7 + ['404', 'post', 'garbage', 'gone', 'reset', 'silent', 'update', 'update']),
                            rng.choice([0, 0, 0.2, 1.0])])
            progs.append(ops)
        return {'progs': progs, 'in_use': rng.random() < 0.15, 'paccept': rng.choice([0, 0, 0.3]),
                'extra': rng.random() < 0.5, 'metric': rng.random() < 0.5, 'bad': rng.choice([0, 0, 0.3]),
                'end': rng.choice(['normal', 'normal', 'at-once', 'twice', 'before', 'with']),
                'restart': rng.random() < 0.3, 'sched': gen_sched(rng, jumps=False, stalls=False)}

    def run(self, sim, p):
        net = NET[0] = Net(sim, p)
        socketserver.socket = http.server.socket = FakeSocketModule
        socketserver._ServerSelector = Selector
        addr = ('127.0.0.1', 1025)
        other = None
        if p['in_use']:
            other = Socket()
            other.bind(addr)
        cnt = getMetric('app.counter', 'counter')
        lab = getMetric('app.lab', 'int')
        lab.runtime(4, k=LABEL)
        getMetric('app.some.deep.one', 'int').runtime(8)
        hidden = getMetric('app.hidden', 'int', internal=True)
        failing = [False]

        def call():
            if p['bad'] and sim.flip('callable', p['bad']):
                sim.fault('metric-fails')
                failing[0] = True
                raise ValueError('cannot be measured')
            return 12
        getMetric('app.call', 'callable', value_getter=call)
        extra = {'host': 'h1'} if p['extra'] else None
        t = PrometheusHTTPExporterThread(addr[0], addr[1], extra, enable_metric=p['metric'])
        th_failed = [False]
        ups = []            # (seq0, seq1)
        stopping = [None]
        okcount = [0, 0]

        def http_get(kind):
            path = {'404': '/metric', 'post': '/metrics'}.get(kind, '/metrics')
            req = ('%s %s HTTP/1.1\r\nHost: x\r\n\r\n' % ('POST' if kind == 'post' else 'GET', path)).encode()
            if kind == 'garbage':
                req = b'\x00\xff\xfe zzz\r\n\r\n'
            c = Conn(sim, req, kind)
            s0 = sim.seq()
            sock = net.bound.get(addr)
            if sock is None or sock is other:
                return None
            failing[0] = False
            f0 = sim.stats.get('fault:metric-fails', 0)
            try:
                sock.push(c)
            except ConnectionRefusedError:
                return None
            t0 = sim.now
            c.done.wait(2000)
            if not c.done.is_set():
                raise Violation('no-answer', 'no answer to a request in 2000 s: %s' % kind)
            return c, s0, sim.seq(), sim.now - t0

        def client(prog):
            for kind, delay in prog:
                if delay:
                    time.sleep(delay)
                if kind == 'update':
                    s0 = sim.seq()
                    rec = [s0, 1 << 60]
                    ups.append(rec)
                    cnt.runtime(1)
                    hidden.runtime(3)
                    rec[1] = sim.seq()
                    continue
                before = stopping[0]
                r = http_get(kind)
                if r is None:
                    continue
                c, s0, s1, took = r
                if c.was_reset:
                    if stopping[0] is None and not p['paccept']:
                        raise Violation('no-answer', 'connection closed without a reason')
                    continue
                if kind in ('gone', 'reset', 'silent'):
                    continue
                if took > 60 * sum(len(x) for x in p['progs']):
                    raise Violation('slow', 'answered after %r s' % took)
                self.judge(sim, p, kind, c, s0, s1, ups, extra, okcount)

        def serve():
            if p['end'] == 'before':
                t.terminate()
                t.start()
            else:
                t.start()

        before_end = spawn(sim, lambda: None)
        if p['end'] == 'with':
            with t:
                if not p['in_use']:
                    time.sleep(0.1)
                ths = [spawn(sim, client, prog) for prog in p['progs']]
                for x in ths:
                    x.join()
                stopping[0] = sim.now
        else:
            serve()
            if p['end'] not in ('at-once',):
                time.sleep(0.1)
            ths = [spawn(sim, client, prog) for prog in p['progs']]
            if p['end'] in ('normal', 'twice'):
                for x in ths:
                    x.join()
            elif p['end'] == 'at-once':
                sim.yield_point('end')
            stopping[0] = sim.now
            if t.terminate() is not t:
                raise Violation('terminate', 'terminate() does not return the thread')
            if p['end'] == 'twice':
                t.terminate()
        t0 = sim.now
        t.join()
        if sim.now - t0 > 15 * (1 + sum(o[0] == 'silent' for pr in p['progs'] for o in pr)):
            raise Violation('terminate', 'took %.1f s to end' % (sim.now - t0))
        if t.is_alive():
            raise Violation('terminate', 'still alive after join')
        mine = [s for s in net.sockets if s is not other]
        if any(not s.closed for s in mine):
            raise Violation('socket', 'a socket was left open')
        for x in ths:
            x.join()
        if p['in_use'] and net.bound.get(addr) is not other:
            raise Violation('socket', 'somebody else\'s socket was closed')
        if p['metric'] and okcount[0]:
            e = entries(getMetric('prometheus.exports_per_time', 'cps').to_metric_data())
            per = {dict(l)['period']: v for (n, l), v in e.items()}
            if sorted(per) != [1, 20, 60]:
                raise Violation('metric', 'exports per periods %r' % sorted(per))
            if sim.now - sim.base < 59 and not okcount[0] <= per[60] <= okcount[0] + okcount[1] + sum(
                    o[0] == 'gone' for pr in p['progs'] for o in pr):
                raise Violation('metric', '%d exports, %r counted' % (okcount[0], per[60]))
        if p['restart'] and not p['in_use']:
            # the address can be used again
            getMetric('app').reset()
            t2 = PrometheusHTTPExporterThread(addr[0], addr[1], None, enable_metric=p['metric'])
            t2.start()
            time.sleep(0.1)
            r = http_get('get')
            if r is None:
                raise Violation('restart', 'a new exporter on the same address does not listen')
            if not r[0].was_reset and b' 200 ' not in r[0].sent.split(b'\r\n')[0]:
                raise Violation('restart', 'a new exporter answers %r' % r[0].sent[:50])
            t2.terminate().join()

    @staticmethod
    def judge(sim, p, kind, c, s0, s1, ups, extra, okcount):
        head, _, body = c.sent.partition(b'\r\n\r\n')
        status = head.split(b'\r\n')[0].decode('latin1')
        want = {'get': ' 200 ', '404': ' 404 ', 'post': ' 501 ', 'garbage': ' 400 '}[kind]
        if kind == 'garbage' and status:
            return
        if not c.sent and kind == 'get' and p['bad']:
            return      # a metric failed
        if kind == 'garbage':
            return
        if want not in status:
            raise Violation('status', '%s answered with %r' % (kind, status))
        if kind != 'get':
            return
        okcount[0] += 1
        text = body.decode('utf8')
        got = {}
        for line in text.split('\n'):
            if line:
                k, _, v = line.rpartition(' ')
                if k.startswith('app_call{') or k.startswith('app_call '):
                    stamp, (k, _, v) = v, k.rpartition(' ')
                    if abs(int(stamp) - (sim.now + sim.wall_offset) * 1000) > 60000:
                        raise Violation('body', 'timestamp of %r at %r' % (stamp, sim.now + sim.wall_offset))
                if k in got:
                    raise Violation('body', '%r twice' % k)
                got[k] = v
        if not text.endswith('\n'):
            raise Violation('body', 'truncated: %r' % text)
        ext = ['host="h1"'] if extra else []

        def key(name, *labels):
            return name, frozenset(list(labels) + ext)
        parsed = {}
        for k, v in got.items():
            name, _, labels = k.partition('{')
            parsed[name, frozenset(labels[:-1].split(',')) if labels else frozenset()] = v
        lo = sum(u[1] < s0 for u in ups)
        hi = sum(u[0] < s1 for u in ups)
        v = parsed.pop(key('app_counter'), None)
        if v is None or not lo <= int(v) <= hi:
            raise Violation('body', 'app_counter is %r, should be within [%d, %d]: %r' % (v, lo, hi, text))
        if parsed.pop(key('app_call'), None) != '12':
            raise Violation('body', 'app_call missing: %r' % text)
        if parsed.pop(key('app_lab', 'k="q\\"\\\\\\n\u017c"'), None) != '4':
            raise Violation('body', 'app_lab missing: %r' % text)
        if parsed.pop(key('app_some_deep_one'), None) != '8':
            raise Violation('body', 'app_some_deep_one missing: %r' % text)
        if any('hidden' in n for n, _ in parsed):
            raise Violation('body', 'internal metric exported: %r' % text)
        if any(not n.startswith('prometheus_') for n, _ in parsed):
            raise Violation('body', 'unknown entries %r' % parsed)


SCENARIOS = [Exporter()]
