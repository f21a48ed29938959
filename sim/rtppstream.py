"""C21: the real media-relay client over a stream control channel (unix or TCP),
its worker threads and a model of the relay behind a byte stream that is cut,
stalled, broken and re-established."""
import errno
from .core import NS
from .unit import LoopWorld, judge
from . import gen
from .gen import tm
from .rtppworld import Job, VERS, state

PATH = '/simfs/rtpproxy.sock'
TCP = ('10.9.0.1', 22222)
INF = float('inf')


class Conn(object):
    def __init__(self, w, sock):
        self.w, self.sock = w, sock
        self.buf = b''
        self.dead = False
        self.n = len(w.conns)
        w.conns.append(self)
        sock.peer = self

    def on_send(self, sock, data):
        w, ch = self.w, self.w.ch
        if self.dead:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        n = len(data)
        if w.faulty() and n > 1 and ch.flip('s.part', w.p_part):
            w.sim.fault('short_send')
            n = 1 + ch.pick('s.partn', n - 1)
        self.buf += data[:n]
        w.sim.log('SEND', self.n, data[:n])
        while b'\n' in self.buf:
            ln, self.buf = self.buf.split(b'\n', 1)
            w.command(self, ln.decode('ascii'))
        return n

    def on_close(self, sock):
        self.dead = True

    def kill(self, how):
        if self.dead:
            return
        self.w.breaks.append(self.w.sim.t())
        self.w.sim.fault('conn_' + how)
        self.w.sim.mark('k%d' % self.n)
        self.w.sim.log('KILL', self.n, how)
        self.dead = True
        if how == 'reset':
            self.sock.feed_eof(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
        elif how == 'timeout':
            self.sock.feed_eof(OSError(errno.ETIMEDOUT, 'Connection timed out'))
        else:
            self.sock.feed_eof()


class StreamWorld(LoopWorld):
    def __init__(self, sim, ch):
        LoopWorld.__init__(self, sim, ch)
        self.jobs = []
        self.conns = []
        self.breaks = []
        self.down = []            # (from, to) connections refused
        self.slow = []            # (from, to, delay)
        self.orphan = []
        self.transitions = [(0.0, False)]
        self.caps = {v: ch.flip('cap', 0.8) for v in VERS}
        self.answers = {}         # command text -> [answers given]
        self.order = []
        self.seen = []
        self.ansno = 0
        self.inter = []           # EINTR and odd errors (t, errno)
        self.shut = self.shut_done = None
        self.tcp = ch.flip('s.tcp', 0.4)
        self.nworkers = 1 + ch.pick('s.nw', 3)
        self.net.streams[TCP if self.tcp else PATH] = self
        self.net.sock_faults = self.sfault
        self.net.recv_chunk = self.chunk
        self.p_part = 0
        self.hb = []

    def faulty(self):
        return not self.sim.calm and self.sim.t() < self.fault_until

    def refused(self):
        t = self.sim.t()
        return any(a <= t < b for a, b in self.down)

    def on_connect(self, sock):
        if self.refused():
            self.sim.fault('conn_refused')
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        c = Conn(self, sock)
        if self.faulty() and self.p_kill and self.ch.flip('s.earlykill', self.p_kill / 4):
            self.sim.at(0, c.kill, 'eof')

    def sfault(self, sock, op):
        if sock.peer is None or not isinstance(sock.peer, Conn) or not self.faulty() or op not in ('send', 'recv'):
            return None
        if self.p_intr and self.ch.flip('f.' + op, self.p_intr):
            e = (errno.EINTR, errno.EINTR, errno.EPIPE, errno.ECONNRESET, errno.ETIMEDOUT, errno.EHOSTUNREACH)[
                self.ch.weighted('f.e', (6, 6, 1, 1, 1, 1) if not self.only_intr else (1, 1, 0, 0, 0, 0))]
            self.sim.fault('sock_error' if e != errno.EINTR else 'eintr')
            self.inter.append((self.sim.t(), e))
            if e != errno.EINTR:
                sock.peer.dead = True
                sock.reof = True
                sock.rbuf = b''
                self.breaks.append(self.sim.t())
            return OSError(e, 'x')
        return None

    def chunk(self, sock, n):
        if n > 1 and self.faulty() and self.p_cut and self.ch.flip('r.cut', self.p_cut):
            k = 1 + self.ch.pick('r.cutn', n - 1)
            # (an answer of several lines cannot be told complete at a line end)
            while k < n and sock.rbuf[k - 1:k] == b'\n':
                k += 1
            if k < n:
                self.sim.fault('short_recv')
            return k
        return n

    # -- the relay
    def command(self, conn, text):
        t = self.sim.t()
        self.seen.append((t, text))
        self.sim.log('CMD', conn.n, text)
        self.sim.mark('c' + text[:8])
        if text == 'Ib':
            self.hb.append(t)
        self.ansno += 1
        if text.startswith('VF'):
            a = '1' if self.caps[text.split()[1]] else '0'
        elif text == 'V':
            a = '20040107'
        elif text == 'Ib':
            a = 'sessions created: %d\nactive sessions: 1\nactive streams: 2\npackets received: 3\npackets transmitted: 4' % self.ansno
        elif text.startswith('X'):
            a = ('%d 10.9.0.1 ' % (20000 + self.ansno)) + 'z' * 3000
        else:
            a = '%d 10.9.0.1' % (20000 + self.ansno)
        self.answers.setdefault(text, []).append((t, a))
        d = 0.0005
        for x, y, dl in self.slow:
            if x <= t < y:
                d = max(d, min(dl, 200.0))
                self.sim.fault('relay_slow')
        b = (a + '\n').encode()
        if self.faulty() and self.p_kill and self.ch.flip('s.kill', self.p_kill):
            how = self.ch.choice('s.how', ('eof', 'reset', 'eof'))
            cut = self.ch.pick('s.cut', len(b)) if self.ch.flip('s.mid', 0.5) else 0
            if cut and b[cut - 1:cut] == b'\n':
                cut -= 1
            if cut:
                self.sim.at(d, self.feed, conn, b[:cut])
            self.sim.at(d + self.ch.choice('s.kd', (0.0, 0.001, 0.1)), conn.kill, how)
            return
        self.give(conn, b, d)

    def give(self, conn, b, d):
        if self.faulty() and len(b) > 1 and self.p_cut and self.ch.flip('a.cut', self.p_cut):
            k = 1 + self.ch.pick('a.cutn', len(b) - 1)
            while k < len(b) and b[k - 1:k] == b'\n':
                k += 1
            if k < len(b):
                self.sim.fault('answer_in_pieces')
                self.sim.at(d, self.feed, conn, b[:k])
                self.sim.at(d + self.ch.choice('a.gap', (0.0, 0.001, 0.05, 1.0)), self.feed, conn, b[k:])
                return
        self.sim.at(d, self.feed, conn, b)

    def feed(self, conn, b):
        if not conn.dead and not conn.sock.closed:
            conn.sock.feed(b)

    # -- the client
    def main(self):
        from sippy.Rtp_proxy.client import Rtp_proxy_client
        w = self

        class Client(Rtp_proxy_client):
            @property
            def online(self):
                return self.__dict__.get('_on', False)

            @online.setter
            def online(self, v):
                if v != self.__dict__.get('_on', False):
                    w.transitions.append((w.sim.t(), v))
                    w.sim.log('ONLINE', v)
                    w.sim.mark('o%d' % v)
                self.__dict__['_on'] = v
        self.cl = Client({'_sip_address': '10.0.0.1'}, spath='tcp:%s:%d' % TCP if self.tcp else 'unix:' + PATH,
                         nworkers=self.nworkers)
        self.threads = self.sim.threads[1:]

    def submit(self, j):
        if self.shut is not None:
            return
        j.sub = self.sim.t()
        self.order.append(j)
        self.sim.log('SUBMIT', j.n)
        self.cl.send_command(j.text, self.completed, j)

    def completed(self, res, j, ex=None):
        j.done.append((self.sim.t(), res, ex, self.sim.cur is self.sim.main))
        self.sim.log('DONE', j.n, res if res is None else res[:40], type(ex).__name__)
        if j.n % 9 == 4:
            raise ValueError('planned')

    def shutdown(self):
        if self.shut is None:
            self.shut = self.sim.t()
            self.sim.log('SHUT')
            self.cl.shutdown()
            self.shut_done = self.sim.t()
            self.left = [t.name for t in self.threads if not t.done]

    def plan(self, n, horizon):
        ch, sim = self.ch, self.sim
        self.horizon = horizon
        self.fault_until = horizon - 150
        self.p_part = self.p_intr = self.p_cut = self.p_kill = 0
        self.only_intr = ch.flip('s.oi', 0.5)
        if not sim.calm:
            self.p_part = ch.choice('p.part', (0, 0, 0.1, 0.5))
            self.p_cut = ch.choice('p.cut', (0, 0, 0.1, 0.5))
            self.p_intr = ch.choice('p.intr', (0, 0, 0, 0.1))
            self.p_kill = ch.choice('p.kill', (0, 0, 0.05, 0.3))
            for i in range(ch.pick('down.n', 3)):
                a = ch.choice('down.at', (0.0, 1.0, 20.0, 60.0)) + ch.real('down.atj', 0.0, 20.0)
                self.down.append((a, a + ch.choice('down.d', (0.2, 2.0, 15.0, 70.0))))
                how = ch.choice('down.how', ('eof', 'reset', 'timeout'))
                sim.at(a + 0.0001, lambda how=how: [c.kill(how) for c in self.conns])
            for i in range(ch.pick('k.n', 4)):
                sim.at(ch.real('k.at', 0.0, horizon - 160), self.kill_one, ch.choice('k.how', ('eof', 'reset', 'timeout')))
            for i in range(ch.pick('slow.n', 3)):
                a = ch.real('slow.at', 0.0, horizon - 170)
                self.slow.append((a, a + ch.choice('slow.l', (1.0, 10.0)), ch.choice('slow.d', (0.1, 1.0, 5.0, 30.0))))
            gen.stalls(sim, ch, horizon - 150)
        for i in range(n):
            k = ch.choice('j.kind', ('U', 'U', 'D', 'Q', 'G', 'X'))
            j = Job(i, tm(ch, 'j.at', (0.0, 0.5, 0.5, 2.0, 10.0, 60.0, 75.0), 3.0), '%s job%d from to' % (k, i))
            self.jobs.append(j)
            self.onloop(j.t, self.submit, j)
        if ch.flip('shut', 0.3):
            self.onloop(ch.choice('shut.t', (0.6, 3.0, 20.0, 100.0)) + ch.real('shut.at', 0.0, 5.0), self.shutdown)

    def kill_one(self, how):
        c = [c for c in self.conns if not c.dead]
        if c:
            c[self.ch.pick('k.which', len(c))].kill(how)


def c21(w):
    cr = w.crashed()
    if cr:
        yield ('crash', cr)
        return
    for n, tb in w.sim.dead_threads:
        yield ('thread-died', tb[-600:])
    end = max(w.exit_t, w.horizon)
    for j in w.jobs:
        if j.sub is None:
            continue
        if len(j.done) > 1:
            yield ('completed-twice', 'command %s completed %d times' % (j.text, len(j.done)))
        if not j.done:
            yield ('never-completed', 'command %s given at %.3f never completed' % (j.text, j.sub))
            continue
        t, res, ex, main = j.done[0]
        if not main:
            yield ('wrong-thread', 'command %s completed outside of the event loop' % j.text)
        if res is None:
            near = [b for b in w.breaks if b <= t + 0.001] or any(a <= t and b >= j.sub - 0.001 for a, b in w.down)
            if not near:
                yield ('failed-for-nothing', 'command %s failed at %.3f (%r), the channel was fine' % (j.text, t, ex))
            elif not any(a <= t and b >= j.sub - 0.001 for a, b in w.down) and \
                    len([b for b in w.breaks if j.sub - 0.1 <= b <= t]) < 11 and \
                    not any(e in (errno.ETIMEDOUT, errno.EHOSTUNREACH) for x, e in w.inter) and 'conn_timeout' not in w.sim.faults:
                yield ('failed-not-retried', 'command %s failed at %.3f (%r) over a broken connection, relay accepting new ones' % (j.text, t, ex))
        else:
            mine = [a for x, a in w.answers.get(j.text, ()) if x <= t]
            if res not in mine:
                other = [k for k, v in w.answers.items() if any(a == res for x, a in v)]
                yield ('wrong-answer', 'command %s completed with %r, relay answered %r (%s)' %
                       (j.text, res[:60], [a[:60] for a in mine], other))
    # with one worker, in the order given
    if w.nworkers == 1:
        first = {}
        for t, c in w.seen:
            first.setdefault(c, len(first))
        o = [first[j.text] for j in w.order if j.text in first]
        if o != sorted(o):
            yield ('out-of-order', 'relay saw the commands as %s' % o)
    tr = w.transitions
    quiet = max([0.0, w.fault_until] + [b for a, b in w.down] + [b + d for a, b, d in w.slow] + [b for a, b in w.stall_log])
    if w.shut is None:
        if quiet + 140 < end and not tr[-1][1]:
            yield ('not-back', 'relay reachable since %.3f, not in service at %.3f' % (quiet, end))
        n = len([1 for t in w.hb if t > end - 20])
        if tr[-1][1] and tr[-1][0] < end - 30 and not 12 <= n <= 24:
            yield ('heartbeats', '%d heartbeats in the last 20 s' % n)
        if tr[-1][1]:
            for v, name in VERS.items():
                if getattr(w.cl, name) != w.caps[v] and not w.breaks and not w.down:
                    yield ('caps-wrong', 'capability %s is %s' % (name, w.caps[v]))
    else:
        if w.shut_done is None:
            yield ('shutdown-hangs', 'shutdown called at %.3f did not return' % w.shut)
        elif w.left:
            yield ('threads-left', 'still running after shutdown: %s' % w.left)
    for a, b in w.down:
        lim = a + 1.2 + 2.0 + w.stalled(a - 10, b) + max([0] + [d for x, y, d in w.slow])
        if min(b, w.shut or INF) > lim + 0.1 and state(tr, lim) is True and not any(a < t <= lim and not on for t, on in tr):
            yield ('outage-unnoticed', 'relay refuses connections since %.3f, still in service at %.3f' % (a, lim))


def run(sim, ch, tier):
    gen.loop_knobs(sim, ch)
    w = StreamWorld(sim, ch)
    w.plan(3 + ch.pick('njobs', 20), 320.0)
    w.start(320.0)
    return judge(w, [c21], {})
