"""C27: the real datagram server, its sender and receiver threads, over a
simulated socket with failing calls, slow look-ups and bursts."""
import errno
import re
from .unit import LoopWorld, judge
from .seams import S
from . import gen
from .gen import tm

INF = float('inf')
HOSTS = {'a.example': '10.5.0.1', 'b.example': '10.5.0.2'}
HOSTS6 = {'a.example': '2001:db8::1', 'b.example': '2001:db8::2'}


class Out(object):
    def __init__(self, n, t, dst, ip):
        self.n, self.t, self.dst, self.ip = n, t, dst, ip
        self.sub = None
        self.subno = 0
        self.tx = []            # times it hit the wire
        self.errs = []          # errors its sendto met
        self.slow = 0.0
        self.exc = None
        self.thread = 0


class In(object):
    def __init__(self, n, t, size):
        self.n, self.t, self.size = n, t, size
        self.arr = []
        self.got = []
        self.srv = None


class UdpWorld(LoopWorld):
    def __init__(self, sim, ch):
        cfg = gen.netcfg(sim, ch, loss=0, dup=0.1, slow=0.1)
        LoopWorld.__init__(self, sim, ch, cfg)
        self.v6 = ch.flip('u.v6', 0.2)
        self.nworkers = 1 + ch.pick('u.nw', 3)
        self.direct = ch.flip('u.direct', 0.2)
        self.pdelay = ch.choice('u.pd', (0.0, 0.0, 0.0, 0.0, 0.5))
        self.ip = '2001:db8::99' if self.v6 else '10.0.0.1'
        self.outs, self.ins = [], []
        self.subs = 0
        self.shut = self.shut_done = None
        self.late = []
        self.rx_order = []
        self.arr_order = []
        self.slow_dns = 0.0
        self.recv_faults = []
        self.left_errs = {}
        S.dns = self.dns
        self.net.sock_faults = self.faults
        self.net.on_sent.append(self.sent)
        self.net.on_dlv.append(self.dlv)
        self.other = []
        self.srv = None

    # -- seams
    def dns(self, host):
        s = self.sim
        if host is None:
            return '::' if self.v6 else '0.0.0.0'
        if host in HOSTS:
            d = self.lookup.get(host, 0.0)
            if d:
                s.fault('slow_lookup')
                self.slow_dns += d
                s.sleep(d)
            return (HOSTS6 if self.v6 else HOSTS)[host]
        if re.match(r'^[0-9.]+$', host) or ':' in host:
            return host
        if host == 'slowfail.example':
            s.fault('slow_lookup')
            self.slow_dns += 0.5
            s.sleep(0.5)
        s.fault('lookup_failed')
        import socket
        if host.startswith('\u00fc'):
            raise UnicodeError('label empty or too long')
        raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')

    def faults(self, sock, op):
        ch, sim = self.ch, self.sim
        if sim.calm or sock is not getattr(self.srv, 'skt', None):
            return None
        if op == 'sendto' and self.p_send and ch.flip('f.send', self.p_send):
            e = (errno.EAGAIN, errno.ENOBUFS)[ch.pick('f.tr', 2)] if self.only_tr else ch.choice('f.serr', (errno.EAGAIN, errno.ENOBUFS, errno.EHOSTUNREACH, errno.ENETUNREACH, errno.EPERM, errno.EMSGSIZE, errno.EINVAL,
                                     errno.ECONNREFUSED))
            sim.fault('send_error')
            self.cur_err = e
            self.errlog.append((sim.t(), e, sim.cur))
            return OSError(e, 'x')
        if op == 'recvfrom' and self.p_recv and ch.flip('f.recv', self.p_recv):
            e = ch.choice('f.rerr', (errno.EINTR, errno.ECONNREFUSED, errno.EIO, errno.ENOBUFS, errno.ENOMEM, 'mem'))
            sim.fault('recv_error')
            sim.mark('E')
            self.nrecv_err += 1
            if self.nrecv_err > 12:
                return None
            return MemoryError() if e == 'mem' else OSError(e, 'x')
        return None

    def sent(self, rec):
        seq, t, src, dst, data = rec
        m = re.match(rb'out (\d+)\.', data)
        if m is None:
            self.other.append(rec)
            return
        o = self.outs[int(m.group(1))]
        o.tx.append((t, seq, dst, data))
        self.sim.log('TX', o.n, dst)
        self.sim.mark('t%d' % o.n)
        if self.shut_done is not None and t > self.shut_done:
            self.late.append(o.n)

    def dlv(self, src, dst, data):
        m = re.match(rb'in (\d+)\.', data)
        if m:
            i = self.ins[int(m.group(1))]
            i.arr.append((self.sim.t(), len(self.arr_order)))
            self.arr_order.append(i.n)
            self.sim.log('ARR', i.n)

    # -- application
    def main(self):
        from sippy.Udp_server import Udp_server, Udp_server_opts
        o = Udp_server_opts(('[%s]' % self.ip if self.v6 else self.ip, 5060), self.recv)
        o.nworkers = self.nworkers
        o.direct_dispatch = self.direct
        o.pdelay_out_max = self.pdelay
        if self.pdelay and self.ch.flip('u.pin', 0.5):
            o.pdelay_in_max = 0.3
        self.pin = o.pdelay_in_max
        self.srv = Udp_server({}, o)
        self.mine = self.sim.threads[1:]
        self.palloc()

    def palloc(self):
        from sippy.Udp_server import Udp_server, Udp_server_opts
        from sippy.Network_server import RTP_port_allocator, PortAllocationError
        ch = self.ch
        self.ports = []
        if not ch.flip('u.pa', 0.2):
            return
        lo = 20000 + ch.pick('u.palo', 3)
        hi = lo + ch.pick('u.pahi', 12)
        lo2 = lo + lo % 2
        if hi < lo2:
            return
        taken = set()
        for p in range(lo2, hi + 1, 2):
            if ch.flip('u.taken', 0.3):
                taken.add(p)
                self.net.socks[(self.ip, p)] = None
        self.range = (lo, hi, taken)
        for i in range(3):
            o = Udp_server_opts(('[%s]' % self.ip if self.v6 else self.ip, RTP_port_allocator(lo, hi)), None)
            o.nworkers = 1
            try:
                s = Udp_server({}, o)
            except PortAllocationError:
                self.sim.fault('no_port')
                continue
            self.ports.append((s, o.laddress, s.uopts.laddress))
        for p in taken:
            del self.net.socks[(self.ip, p)]

    def recv(self, data, address, srv, rtime):
        t = self.sim.t()
        m = re.match(rb'in (\d+)\.', data)
        a = address if isinstance(address, tuple) else address.address
        if m is None:
            self.sim.violate('unknown-data', 'the application was given %r from %s' % (data[:40], a))
            return
        i = self.ins[int(m.group(1))]
        i.got.append((t, a, len(data), rtime.monot - self.sim.t0 / 1e9, self.sim.cur is self.sim.main))
        self.rx_order.append(i.n)
        self.sim.log('GOT', i.n)
        if self.shut_done is not None:
            self.late.append(-i.n)
        if i.n % 7 == 3:
            self.sim.fault('handler_raises')
            raise ValueError('planned')
        if i.n % 5 == 1 and self.shut is None:
            self.send(self.replies.pop(0) if self.replies else None)

    def send(self, o):
        if o is None or self.shut is not None:
            return
        o.sub = self.sim.t()
        self.subs += 1
        o.subno = self.subs
        data = ('out %d.' % o.n) + 'x' * (o.n * 61 % 1500)
        if o.n % 2:
            data = data.encode()
        self.sim.log('SEND', o.n, o.dst)
        try:
            self.srv.send_to(data, o.dst)
        except Exception as e:
            o.exc = e

    def shutdown(self):
        if self.shut is None:
            self.shut = self.sim.t()
            self.sim.log('SHUT')
            self.srv.shutdown()
            self.shut_done = self.sim.t()
            self.alive_after = [t.name for t in self.threads()]
            self.sim.log('SHUTDONE')

    def threads(self):
        return [t for t in self.mine if not t.done]

    def jammed(self, t0):
        """the socket was full for as long as a sender keeps trying"""
        by = {}
        for t, e, th in self.errlog:
            if t >= t0 and e in (errno.EAGAIN, errno.ENOBUFS):
                ts = by.setdefault(th, [])
                ts.append(t)
                if len(ts) >= 20 and t - ts[-20] < 0.25 + self.stalled(ts[-20] - 1, t):
                    return True
        return False

    def plan(self, n, horizon):
        ch, sim = self.ch, self.sim
        self.horizon = horizon
        self.errlog = []
        self.nrecv_err = 0
        self.p_send = 0 if sim.calm else ch.choice('p.send', (0, 0, 0.05, 0.3))
        self.p_recv = 0 if sim.calm else ch.choice('p.recv', (0, 0, 0.05, 0.2))
        self.only_tr = ch.flip('p.tr', 0.5)
        if self.only_tr and self.p_send:
            self.p_send = ch.choice('p.trp', (0.2, 0.5))
        self.lookup = {}
        if not sim.calm:
            for h in HOSTS:
                self.lookup[h] = ch.choice('dns.d', (0.0, 0.0, 0.01, 0.3, 2.0))
        dsts = [('[2001:db8::5]', 5060), ('[2001:db8::6]', 5060), ('a.example', 5061), ('b.example', 5060)] if self.v6 else \
            [('10.4.0.1', 5060), ('10.4.0.2', 5060), ('10.4.0.1', 5062), ('a.example', 5061), ('b.example', 5060)]
        if self.v6:
            dsts = dsts[:2] + [('[a.example]', 5061), ('[b.example]', 5060)]
        bad = [('10.4.0.1', 99999), ('10.4.0.1', -3), ('nosuch.example', 5060), ('slowfail.example', 5060), ('\u00fc.example', 5060), ('10.4.0.3', 0)]
        if self.v6:
            bad = [('[2001:db8::5]', 99999), ('[nosuch.example]', 5060), ('2001:db8::7', 5060)]
        for i in range(n):
            isbad = not sim.calm and ch.flip('o.bad', 0.12)
            d = ch.choice('o.dst', bad if isbad else dsts)
            ip = d[0].strip('[]')
            ip = (HOSTS6 if self.v6 else HOSTS).get(ip, ip)
            o = Out(i, tm(ch, 'o.t', (0.0, 0.0, 0.1, 0.2, 1.0, 3.0), 0.01), d, None if isbad else ip)
            self.outs.append(o)
        self.replies = self.outs[n // 2 + n // 4:]
        for o in self.outs[:n // 2]:
            self.onloop(o.t, self.send, o)
        for k, o in enumerate(self.outs[n // 2:n // 2 + n // 4]):
            o.thread = 1 + k
            sim.at(o.t, lambda o=o: sim.spawn('app%d' % o.n, lambda: self.send(o)))
        for i in range(ch.pick('n.in', 25)):
            t = tm(ch, 'i.t', (0.0, 0.1, 0.1, 0.2, 1.0, 3.0), 0.01)
            x = In(i, t, 6 + ch.pick('i.sz', 1400))
            x.src = ('2001:db8::%d' % (1 + i % 3) if self.v6 else '10.4.0.%d' % (1 + i % 3), 5060 + i % 2)
            self.ins.append(x)
            sim.at(t, self.inject, x)
        for i in range(0 if sim.calm else ch.pick('n.empty', 3)):
            sim.at(tm(ch, 'i.t', (0.0, 0.1, 1.0), 0.01), self.empty, ch.pick('n.emp', 110))
        if ch.flip('u.shut', 0.6):
            t = ch.choice('u.shutt', (0.05, 0.1, 0.2, 1.0, 3.0, 8.0)) + ch.real('u.shutj', 0, 0.05)
            if ch.flip('u.shutth', 0.2):
                sim.at(t, lambda: sim.spawn('stopper', self.shutdown))
            else:
                self.onloop(t, self.shutdown)
        gen.stalls(sim, ch, 6.0, maxd=1.0)

    def inject(self, x):
        d = ('in %d.' % x.n).encode()
        d += b'y' * (x.size - len(d))
        self.net.inject(x.src, (self.ip, 5060), d)

    def empty(self, n):
        self.sim.fault('empty_datagrams', n)
        for i in range(n):
            self.net.inject(('10.4.0.1', 5060), (self.ip, 5060), b'')


def c27(w):
    c = w.crashed()
    if c:
        yield ('crash', c)
        return
    if w.sim.dead_threads:
        yield ('thread-died', 'a thread of the server died: %s' % w.sim.dead_threads[0][1][-500:])
    stop = INF if w.shut is None else w.shut
    end = max(w.exit_t, w.horizon)     # (a run ends early when nothing is left to happen)
    for o in w.outs:
        if o.sub is None:
            continue
        if len(o.tx) > 1:
            yield ('sent-twice', 'datagram %d sent %d times' % (o.n, len(o.tx)))
        for t, seq, dst, data in o.tx:
            if o.ip is not None and dst != (o.ip, o.dst[1]):
                yield ('wrong-destination', 'datagram %d for %s went to %s' % (o.n, o.dst, dst))
            if o.ip is None and dst != (o.dst[0].strip('[]'), o.dst[1]):
                yield ('wrong-destination', 'datagram %d for %s, which is no address, went to %s' % (o.n, o.dst, dst))
            if len(data) != len('out %d.' % o.n) + o.n * 61 % 1500:
                yield ('corrupted', 'datagram %d sent as %d bytes' % (o.n, len(data)))
        if o.ip is None:
            continue
        if o.exc is not None:
            yield ('send-raised', 'send_to of datagram %d raised %r' % (o.n, o.exc))
        # (everything queued before it may take its time)
        lim = o.sub + w.slow_dns + 0.21 * len(w.outs) + (w.pdelay if w.pdelay else 0) + 0.2 + w.stalled(o.sub - 5, end)
        hard = any(e not in (errno.EAGAIN, errno.ENOBUFS) for t, e, th in w.errlog if t >= o.sub) or \
            w.jammed(o.sub)
        if not o.tx and not hard and lim < min(stop, end):
            yield ('never-sent', 'datagram %d given at %.3f never sent' % (o.n, o.sub))
    # in order per destination (one sender thread)
    if w.nworkers == 1 and not w.pdelay:
        seen = {}
        for o in sorted([o for o in w.outs if o.tx and not o.thread], key=lambda o: o.subno):
            k = o.tx[0][2]
            if k in seen and seen[k].tx[0][1] > o.tx[0][1] and seen[k].subno < o.subno:
                yield ('reordered', 'datagrams %d and %d to %s swapped' % (seen[k].n, o.n, k))
            seen[k] = o
        if not w.direct and not w.pin:
            seq = w.rx_order
            # first arrivals, duplicates by the network are told apart by position
            ai = 0
            for n in seq:
                while ai < len(w.arr_order) and w.arr_order[ai] != n:
                    ai += 1
                if ai >= len(w.arr_order):
                    yield ('received-out-of-order', 'received %s, arrived %s' % (seq[:40], w.arr_order[:40]))
                    break
                ai += 1
    for i in w.ins:
        if len(i.got) > len(i.arr):
            yield ('received-twice', 'datagram %d arrived %d times, handed over %d times' % (i.n, len(i.arr), len(i.got)))
        n_due = 0
        for t, no in i.arr:
            # a failing call is retried after a second at most
            lim = t + 0.1 + (1.1 * w.nrecv_err) + w.pin + (w.slow_dns if w.direct else 0) + w.stalled(t - 5, end)
            if lim < min(stop, end):
                n_due += 1
        if len(i.got) < n_due:
            yield ('received-lost', 'datagram %d arrived at %.3f, handed over %d of %d times' % (i.n, i.arr[0][0], len(i.got), len(i.arr)))
        for t, a, ln, rt, main in i.got:
            if a != (('[%s]' % i.src[0] if w.v6 else i.src[0]), i.src[1]):
                yield ('wrong-source', 'datagram %d from %s handed over as from %s' % (i.n, i.src, a))
            if ln != i.size:
                yield ('truncated', 'datagram %d of %d bytes handed over with %d' % (i.n, i.size, ln))
            if rt > t + 1e-6 + w.pin or i.arr and rt < i.arr[0][0] - 1e-6:
                yield ('receive-time', 'datagram %d arrived at %.6f, stamped %.6f, handed over at %.6f' % (i.n, i.arr[0][0], rt, t))
            if not w.direct and not main:
                yield ('wrong-thread', 'datagram %d handed over outside of the event loop' % i.n)
    if w.shut is not None and w.shut_done is None:
        if w.shut + w.slow_dns + 3 + 1.1 * w.nrecv_err + 0.21 * 20 + w.stalled(w.shut, end) < end:
            yield ('shutdown-hangs', 'shutdown called at %.3f did not return by %.3f' % (w.shut, end))
    elif w.shut is not None:
        if w.alive_after:
            yield ('threads-left', 'after shutdown still running: %s' % w.alive_after)
        if w.late:
            yield ('active-after-shutdown', 'sent or handed over after shutdown: %s' % w.late)
    seen = set()
    for s, asked, got in w.ports:
        lo, hi, taken = w.range
        p = got[1]
        if not lo <= p <= hi or p % 2 or p in taken or p in seen:
            yield ('port-allocation', 'range %s: got port %s, handed out before: %s' % (w.range, p, seen))
        seen.add(p)


def run(sim, ch, tier):
    gen.loop_knobs(sim, ch)
    w = UdpWorld(sim, ch)
    w.plan(2 + ch.pick('n.out', 30), 60.0)
    w.start(60.0)
    return judge(w, [c27], {})
