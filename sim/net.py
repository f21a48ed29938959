"""Simulated network: UDP datagrams between the process under test and the
endpoints that live in the harness, with loss, duplication, delay, reordering
and partitions decided by the chooser."""
import errno
import socket as _socket
from .core import NS


class NetCfg(object):
    lat_min = 0.001
    lat_max = 0.02
    loss = 0.0
    dup = 0.0
    slow = 0.0            # probability of a long delay
    slow_max = 3.0
    fault_until = None    # simulated seconds; no random faults after that


class Net(object):
    def __init__(self, sim, cfg=None):
        self.sim = sim
        self.cfg = cfg or NetCfg()
        self.socks = {}           # (ip, port) -> SimSocket (UDP, bound)
        self.ends = {}            # (ip, port) -> callback(data, src, dst)
        self.blocked = set()      # set of frozenset({ip, ip}) / (src,dst) pairs partitioned
        self.sent = []            # (seq, t, src, dst, data) datagrams sent by the process
        self.inflight = {}        # id(data) -> (src, dst, data), datagrams not yet processed
        self.on_sent = []
        self.on_proc = []
        self.on_dlv = []
        self.dead_ends = set()    # ends that neither receive nor send (crashed)
        self.streams = {}         # (ip,port)/path -> stream server model
        self.sock_faults = None
        self.nextport = 40000
        self.lastarr = {}

    # -- hooks from SimSocket
    def socket_created(self, s):
        pass

    def socket_closed(self, s):
        if s.laddr in self.socks and self.socks[s.laddr] is s:
            del self.socks[s.laddr]

    def sock_fault(self, sock, op):
        if self.sock_faults is not None:
            return self.sock_faults(sock, op)
        return None

    def recv_chunk(self, sock, n):
        return n

    def bind(self, sock, addr):
        ip, port = addr[0], addr[1]
        if port == 0:
            while (ip, self.nextport) in self.socks:
                self.nextport += 2
            port = self.nextport
            self.nextport += 2
        port = int(port)
        if (ip, port) in self.socks and sock.type == _socket.SOCK_DGRAM:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        if sock.type == _socket.SOCK_DGRAM:
            self.socks[(ip, port)] = sock
        return (ip, port) + tuple(addr[2:])

    def local_for(self, sock, addr):
        return ('10.0.0.1', 39999)

    def listen(self, sock):
        pass

    def stream_connect(self, sock, addr):
        srv = self.streams.get(addr)
        if srv is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        srv.on_connect(sock)

    # -- datagrams
    def udp_send(self, sock, dst, data):
        src = sock.laddr or ('10.0.0.1', 0)
        if src[0] in ('0.0.0.0', '::'):
            src = ('10.0.0.1', src[1])
        dst = (dst[0], int(dst[1]))
        sim = self.sim
        seq = len(self.sent)
        rec = (seq, sim.t(), src, dst, data)
        self.sent.append(rec)
        for f in self.on_sent:
            f(rec)
        self._carry(src, dst, data, False)

    def inject(self, src, dst, data):
        """An endpoint of the harness sends a datagram."""
        if src in self.dead_ends:
            return
        self._carry(src, dst, data, True)

    def _faulty(self):
        c = self.cfg
        return c.fault_until is None or self.sim.t() < c.fault_until

    def _carry(self, src, dst, data, inbound):
        sim, c = self.sim, self.cfg
        ch = sim.ch
        d = 'in' if inbound else 'out'
        if (src[0], dst[0]) in self.blocked:
            sim.fault('partition_drop')
            return
        faulty = self._faulty()
        if faulty and c.loss and ch.flip('loss.' + d, c.loss):
            sim.fault('loss')
            sim.mark('L')
            return
        n = 1
        if faulty and c.dup and ch.flip('dup.' + d, c.dup):
            sim.fault('dup')
            n = 2
        for i in range(n):
            lat = ch.real('lat.' + d, c.lat_min, c.lat_max)
            if faulty and c.slow and ch.flip('slow.' + d, c.slow):
                sim.fault('delay')
                lat += ch.real('slowby.' + d, 0.05, c.slow_max)
            if i:
                lat += ch.real('duplag', 0.0, 1.0)
            at = sim.now + int(lat * NS)
            k = (src, dst)
            if at < self.lastarr.get(k, 0):
                sim.fault('reorder')
            else:
                self.lastarr[k] = at
            sim.at(lat, self._arrive, src, dst, bytes(bytearray(data)))

    def _arrive(self, src, dst, data):
        if (src[0], dst[0]) in self.blocked:
            self.sim.fault('partition_drop')
            return
        s = self.socks.get(dst)
        if s is None:
            s = self.socks.get(('0.0.0.0', dst[1])) if dst[0] == '10.0.0.1' else None
        if s is not None:
            self.inflight[id(data)] = (src, dst, data)
            for f in self.on_dlv:
                f(src, dst, data)
            s.deliver(data, src)
            return
        e = self.ends.get(dst)
        if e is not None:
            if dst in self.dead_ends:
                return
            e(data, src, dst)

    def note_exec(self, fn, args):
        """Observer of event-loop calls: tells when a received datagram is
        handed to the application."""
        stack = [args]
        depth = 0
        while stack and depth < 200:
            depth += 1
            x = stack.pop()
            if type(x) is tuple or type(x) is list:
                stack.extend(x)
            elif type(x) is bytes:
                r = self.inflight.get(id(x))
                if r is not None and r[2] is x:
                    del self.inflight[id(x)]
                    for f in self.on_proc:
                        f(r[0], r[1], x)
                    return
