"""C30: the real RTP end point, output worker, ingest and their shared threads'
bookkeeping (sippy/Rtp) over stand-ins for the compiled rtpsynth modules, with
audio producers, a control thread per end point and a lossy network."""
import errno
import gc
import struct
import threading
import traceback
from array import array
from .unit import LoopWorld, judge
from .seams import S
from . import gen, rtpstub
from .gen import tm

HORIZON = 12.0
VALS = [b for b in range(256) if b not in (0x7f, 0xff)]
ADDRS = [('192.0.2.1', 4000), ('192.0.2.2', 4000), ('192.0.2.1', 4002), ('2001:db8::1', 5000)]


class R(object):
    """what one output worker was given and what it made of it"""

    def __init__(self, ep, t):
        self.ep, self.t = ep, t
        self.chunks = []            # their bytes, encoded
        self.frames = []
        self.nin = self.nout = 0
        self.pkts = []              # (t, slot, pkt)
        self.slots = []             # (t, backlog before)
        self.ended = None
        self.joined = None
        self.ctr = None
        self.psize = self.unit = self.ptime = self.pt = None
        self.ended_t = None
        self.marks = []
        self.started_t = None
        self.died = False


class E(object):
    def __init__(self, n):
        self.n = n
        self.ep = None
        self.busy = 0
        self.ws = []
        self.state = []             # (t0, t1, op, target, ptime) completed and running control calls
        self.out = []               # audio delivered (t, sink, samples, rate)
        self.jb = []
        self.fed = []
        self.made = self.gone = None
        self.err = None
        self.sink = 0
        self.chs = []
        self.calls = []
        self.sent = []
        self.rx = []
        self.stop = False
        self.dropped = None


class MediaWorld(LoopWorld):
    def __init__(self, sim, ch):
        LoopWorld.__init__(self, sim, ch)
        rtpstub.W = self
        self.synths, self.procs, self.pchans, self.servers, self.schans = [], [], [], [], []
        self.jb_ep = None
        self.eps = []
        self.died = []
        self.raised = []
        self.p_full = 0 if sim.calm else ch.choice('m.pfull', (0, 0, 0, 0.05, 0.3))
        self.p_bind = 0 if sim.calm else ch.choice('m.pbind', (0, 0, 0.2, 0.5))
        self.p_late = 0 if sim.calm else ch.choice('m.plate', (0, 0, 0.1, 0.5))
        self.vseed = ch.pick('m.v', 1000)
        self.threads_ = []
        self.jb = self
        self.cur = None
        self.by_thread = {}
        self.tk = 0

    # -- what the stand-ins report
    def append(self, rec):          # jitter buffer output
        if self.cur is not None:
            self.cur.jb.append(rec)

    def late(self):
        if self.p_late and self.ch.flip('m.late', self.p_late):
            self.sim.fault('late_wakeup')
            return self.ch.real('m.lated', 0, 0.008)
        return 0

    def slot(self, c, now):
        r = getattr(getattr(c.cb, '__self__', None), '_r', None)
        self.sim.mark('slot')
        if r is not None:
            r.slots.append((self.sim.t(), r.nin - r.nout, self.tick()))
            r.chan = c
            c.r = r

    def cb_died(self, what, e):
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        self.sim.log('CBDIED', what, repr(e))
        self.died.append((self.sim.t(), what, tb))

    def bind_fault(self, port):
        if self.p_bind and self.ch.flip('m.bind', self.p_bind):
            e = self.ch.choice('m.binde', (errno.EADDRINUSE, errno.EADDRINUSE, errno.EADDRINUSE, errno.EMFILE))
            self.sim.fault('bind_error')
            self.sim.log('BIND', e)
            return e
        return 0

    def full(self):
        if self.p_full and self.ch.flip('m.full', self.p_full):
            self.sim.fault('send_queue_full')
            return True
        return False

    def ep_of(self, c):
        for e in self.eps:
            if c in e.chs:
                return e
        return None

    def sent(self, c, pkt, target):
        self.sim.log('RTP', pkt[2:4].hex(), target and target[1])
        e = self.ep_of(c)
        if e is not None:
            e.sent.append((self.tick(), target, bytes(pkt), c))

    def target(self, c, t):
        pass

    def pktin(self, c, data, addr):
        e = self.cur = self.ep_of(c)
        self.sim.mark('pktin')
        if e is not None:
            e.rx.append([self.tick(), None, addr, data, 0])

    def pktin_done(self, c, data, addr):
        if self.cur is not None and self.cur.rx:
            self.cur.rx[-1][1] = self.tick()
        self.cur = None

    # -- the user
    def classes(self, e):
        from sippy.Rtp.Handlers import RTPHandlers
        from sippy.Rtp.OutputWorker import RTPOutputWorker
        from sippy.Rtp.Ingest import RTPInStream
        w, sim = self, self.sim

        class Writer(RTPOutputWorker):
            def __init__(self, params):
                RTPOutputWorker.__init__(self, params)
                self._r = r = R(e, sim.t())
                e.ws.append(r)
                r.ptime = params.out_ptime
                r.psize = self.samplerate_out * params.out_ptime // 1000
                r.unit = self.codec.crate * params.out_ptime // 1000
                r.pt = self.codec.ptype
                self._feed = list(e.feed) if e.feed else None

            def set_pkt_send_f(self, f):
                r = self._r

                def g(pkt):
                    r.pkts.append((w.tick(), len(r.slots), bytes(pkt)))
                    r.nout += sum(1 for b in pkt[12:] if b != 0xff)
                    return f(pkt)
                RTPOutputWorker.set_pkt_send_f(self, g)

            def soundout(self, chunk):
                self._r.chunks.append(chunk._data)
                self._r.frames.append(chunk.nframes)
                n = len(chunk._data)
                res = RTPOutputWorker.soundout(self, chunk)
                self._r.nin += n
                return res

            def update_frm_ctrs(self, *a, **kw):
                res = RTPOutputWorker.update_frm_ctrs(self, *a, **kw)
                self._r.marks.append((self._r.nout, res[1]))
                if self._feed and res[0] == res[1] and not self._r.ended:
                    n, rate = self._feed.pop(0)
                    if n:
                        self.soundout(w.chunk(n, rate))
                    else:
                        self.end()
                return res

            def start(self):
                RTPOutputWorker.start(self)
                self._r.started_t = sim.t()

            def end(self):
                if self._r.ended is None:
                    self._r.ended = w.tick()
                    self._r.ended_t = sim.t()
                RTPOutputWorker.end(self)

            def join(self, *a, **kw):
                RTPOutputWorker.join(self, *a, **kw)
                self._r.joined = w.tick()
                self._r.ctr = self.get_frm_ctrs()

        class In(RTPInStream):
            def pkt_proc(self, data, address, rtime):
                if w.cur is e and e.rx:
                    e.rx[-1][4] += 1
                return RTPInStream.pkt_proc(self, data, address, rtime)
        h = RTPHandlers()
        h.writer_cls = Writer
        h.rtp_instream_cls = In
        return h

    def params(self, target, ptime, sr, proto, codec, lport=0):
        from sippy.Rtp.Params import RTPParams
        from sippy.Rtp.Codecs.G711 import G711Codec
        from sippy.Rtp.Codecs.G722 import G722Codec

        class P(RTPParams):
            def _get_laddr(self):
                return '10.0.0.1' if self.rtp_proto == 'IP4' else '2001:db8::99'
        p = P(target, out_ptime=ptime, out_sr=sr, rtp_proto=proto)
        p.codec = G722Codec if codec else G711Codec
        if lport:
            p.rtp_lport = lport
        return p

    def chunk(self, n, rate):
        from sippy.Rtp.Core.AudioChunk import AudioChunk
        k = rate // 8000
        data = bytearray()
        for _ in range(max(1, n)):
            self.vseed = (self.vseed * 1103515245 + 12345) & 0x7fffffff
            data.append(VALS[(self.vseed >> 12) % len(VALS)])
        pcm = array('h', [rtpstub.DEC[b] for b in data for _ in range(k)])
        c = AudioChunk(pcm if n % 3 else pcm.tobytes(), rate)
        c._data = bytes(data)
        return c

    def call(self, e, op, fn, arg=None):
        """one control call, in a thread of the harness"""
        c = [self.tick(), None, op, arg, None]
        e.calls.append(c)
        self.sim.log('CALL', e.n, op, str(arg))
        self.sim.mark(op)
        try:
            r = fn()
            c[4] = r
            return r
        except OSError as x:
            c[4] = OSError(x.errno)
            if not self.p_bind or (x.errno == errno.EADDRINUSE and not (op == 'make' and arg[5])):
                self.raised.append((self.sim.t(), op, traceback.format_exc()))
        except Exception as x:
            c[4] = Exception(str(x))
            self.raised.append((self.sim.t(), op, traceback.format_exc()))
        finally:
            c[1] = self.tick()
            self.sim.log('DONE', e.n, op)

    def control(self, e, plan):
        from sippy.Rtp.EPoint import RTPEPoint
        from sippy.Rtp.Conf import RTPConf
        self.by_thread[self.sim.cur] = e
        for t, op, arg in plan:
            d = t - self.sim.t()
            if d > 0:
                self.sim.sleep(d)
            if self.sim.stopping:
                return
            if op == 'make':
                def mk():
                    n0 = len(self.schans)
                    target, ptime, sr, proto, codec, lport = arg
                    ep = RTPEPoint(RTPConf(10000 + 1000 * e.n, 10998 + 1000 * e.n), self.params(target, ptime, sr, proto, codec, lport), self.sink(e, 0), handlers=self.classes(e))
                    e.ep = ep
                    e.made = self.tick()
                self.call(e, op, mk, arg)
                if e.ep is None:
                    return
            elif op == 'update':
                target, ptime, sr, proto, codec, lport = arg
                self.call(e, op, lambda: e.ep.update(self.params(target, ptime, sr, proto, codec)), arg)
            elif op == 'connect':
                e.sink += 1
                self.call(e, op, lambda: e.ep.connect(self.sink(e, e.sink)), e.sink)
            elif op == 'shutdown':
                e.stop = True
                self.call(e, op, e.ep.shutdown)
                e.gone = self.tick()
            elif op == 'stopper':
                self.go('stopper', self.other_stop, e)
            elif op == 'drop':
                e.stop = True
                c = [self.tick(), None, 'drop', None, None]
                e.calls.append(c)
                self.sim.log('DROP', e.n)
                e.dropped = self.sim.t()
                e.ep = None
                c[1] = self.tick()

    def other_stop(self, e):
        e.stop = True
        ep = e.ep
        if ep is None:
            return
        self.call(e, 'shutdown', ep.shutdown)
        if e.gone is None:
            e.gone = self.tick()

    def producer(self, e, plan):
        for t, n, rate in plan:
            d = t - self.sim.t()
            if d > 0:
                self.sim.sleep(d)
            if self.sim.stopping or e.stop:
                return
            ep = e.ep
            if ep is None:
                continue
            c = self.chunk(n, rate)
            self.call(e, 'soundout', lambda: ep.soundout(c), n)
            ep = None

    def sink(self, e, k):
        def audio_in(chunk):
            self.sim.log('AUDIO', e.n, k, len(chunk.audio))
            e.out.append((self.tick(), k, list(chunk.audio), chunk.samplerate))
        return audio_in

    def network(self, e, plan):
        """packets for the end point (t, seq, ts, payload, source, bad)"""
        for t, data, addr in plan:
            d = t - self.sim.t()
            if d > 0:
                self.sim.sleep(d)
            if self.sim.stopping:
                return
            cs = [c for c in e.chs if not c.closed]
            if cs:
                e.fed.append((self.sim.t(), cs[-1], data, self.tick()))
                cs[-1].srv.feed(cs[-1], data, addr)

    def go(self, name, fn, *a):
        t = threading.Thread(target=fn, args=a, name=name, daemon=True)
        self.threads_.append(t)
        t.start()

    def newchan(self, c):
        self.schans.append(c)
        e = self.by_thread.get(self.sim.cur)
        if e is not None:
            e.chs.append(c)

    def tick(self):
        self.tk += 1
        return self.tk

    def main(self):
        for e in self.eps:
            self.go('ctl%d' % e.n, self.control, e, e.plan)
            for p in e.producers:
                self.go('audio%d' % e.n, self.producer, e, p)
            if e.net:
                self.go('net%d' % e.n, self.network, e, e.net)


def plan(w, ch):
    sim = w.sim
    k = 1 + ch.pick('m.n', 3)
    for i in range(k):
        e = E(i)
        w.eps.append(e)
        e.feed = None
        t0 = ch.choice('e.t0', (0.1, 0.1, 0.1, 0.5, 2.0)) + (ch.real('e.t0j', 0, 0.02) if ch.flip('e.t0k', 0.4) else 0)

        def par():
            proto = 'IP6' if ch.flip('e.ip6', 0.3) else 'IP4'
            tgt = None if ch.flip('e.not', 0.2) else (ADDRS[3] if proto == 'IP6' else ADDRS[ch.pick('e.tgt', 3)])
            return (tgt, ch.choice('e.pt', (20, 20, 20, 10, 30)), ch.choice('e.sr', (8000, 16000)), proto, ch.pick('e.codec', 4) == 3, 0)
        p0 = par()
        if ch.flip('e.lport', 0.15):
            p0 = p0[:5] + (20000 + 2 * i,)
        plan = [(t0, 'make', p0)]
        cur = p0
        t = t0
        for _ in range(ch.pick('e.nu', 4)):
            t += ch.choice('e.ut', (0.0, 0.02, 0.02, 0.1, 0.5, 1.0)) + ch.real('e.utj', 0, 0.02)
            if ch.flip('e.con', 0.25):
                plan.append((t, 'connect', None))
                continue
            n = par()
            # codec and rate stay those of the call, as the offer/answer has them
            n = (n[0], n[1] if ch.flip('e.upt', 0.4) else cur[1], cur[2], n[3] if n[0] is None or n[0] != ADDRS[3] or True else cur[3], cur[4], 0)
            if ch.flip('e.same', 0.3):
                n = cur
            plan.append((t, 'update', n))
            cur = n
        t += ch.choice('e.st', (0.0, 0.02, 0.3, 1.0, 3.0)) + ch.real('e.stj', 0, 0.03)
        how = ch.pick('e.how', 5)
        if how == 0:
            plan.append((t, 'drop', None))
        else:
            if how == 1:
                plan.insert(max(1, len(plan) - ch.pick('e.sp', 2)), (max(t0 + 0.01, ch.choice('e.spt', [x[0] for x in plan] + [t, t]) - ch.choice('e.spd', (0.0, 0.0, 0.0, 0.02))), 'stopper', None))
                plan.sort(key=lambda x: x[0])
            plan.append((t, 'shutdown', None))
        tend = t
        e.plan = plan
        e.producers = []
        feedable = [8000, 16000, 32000]
        # one source of audio per end point: the order among several is nobody's to tell
        feed = ch.flip('e.feed', 0.2)
        for _ in range(0 if feed else 1):
            pp = []
            u = t0 + ch.choice('p.t', (0.0, 0.05, 0.3))
            if ch.flip('p.al', 0.4):
                u = ch.choice('p.alt', [x[0] for x in plan])
            for _ in range(ch.pick('p.n', 12)):
                pp.append((u, ch.choice('p.sz', (160, 160, 80, 200, 1, 800, 2400)) + ch.pick('p.szj', 3), ch.choice('p.r', (8000, 8000, 16000, 32000))))
                u += ch.choice('p.d', (0.0, 0.02, 0.02, 0.1, 0.6))
            e.producers.append(pp)
        if feed:
            e.feed = [(ch.choice('f.sz', (160, 80, 200, 801)), ch.choice('f.r', (8000, 16000))) for _ in range(1 + ch.pick('f.n', 8))]
            if ch.flip('f.end', 0.5):
                e.feed.append((0, 0))
        # inbound
        np_ = []
        if ch.flip('e.in', 0.8):
            u = t0 + ch.choice('n.t', (0.0, 0.01, 0.2))
            seq, ts = ch.choice('n.seq', (0, 65533, 500)), ch.choice('n.ts', (0, 0xfffffff0, 7))
            src = p0[0] or ADDRS[0]
            for j in range(ch.pick('n.n', 80)):
                sz = 160
                w.vseed = (w.vseed * 1103515245 + 12345) & 0x7fffffff
                pl = bytes(VALS[(w.vseed + x * 37) % len(VALS)] for x in range(sz))
                d = struct.pack('!BBHII', 0x80, 0, seq & 0xffff, ts & 0xffffffff, 9) + pl
                seq += 1
                ts += sz
                u += 0.02
                if ch.flip('n.loss', 0.0 if sim.calm else 0.08):
                    sim.fault('loss')
                    continue
                at = u + (ch.choice('n.jit', (0, 0, 0, 0.03, 0.07)) if not sim.calm else 0)
                a = ADDRS[ch.pick('n.a', 4)] if ch.flip('n.alien', 0.05) else src
                np_.append((at, d, a))
                if ch.flip('n.dup', 0.0 if sim.calm else 0.05):
                    sim.fault('dup')
                    np_.append((at + 0.01, d, a))
                if ch.flip('n.junk', 0.02):
                    np_.append((at, b'\x00' * ch.pick('n.junkn', 20), a))
            np_.sort(key=lambda x: x[0])
        e.net = np_
    gen.stalls(sim, ch, 4.0, maxd=0.5)


def c30(w):
    c = w.crashed()
    if c:
        yield ('crash', c)
        return
    for n, tb in w.sim.dead_threads:
        yield ('thread-died', 'thread %s died: %s' % (n, tb[-800:]))
    for t, what, tb in w.died:
        yield ('callback-died', 'the %s thread got an exception out of a callback at %.3f: %s' % (what, t, tb[-800:]))
    for t, op, tb in w.raised:
        yield ('call-raised', '%s raised at %.3f: %s' % (op, t, tb[-800:]))
    for t in w.threads_:
        if not t._t.done:
            yield ('stuck', 'thread %s of the user never came back' % t.name)
            return
    for e in w.eps:
        for x in one_ep(w, e):
            yield x
    # everything was given back
    for k, l in (('server', w.servers), ('pacer', w.procs)):
        for x in l:
            if not x.stop:
                yield ('leftover-' + k, 'a shared %s of %d is still running after all %d end points went away' % (k, len(l), len(w.eps)))
            elif not x.thr._t.done:
                yield ('thread-left', 'thread of a %s is still there' % k)


def ctl(e):
    return [c for c in e.calls if c[2] != 'soundout']


def state(e, k):
    """(target, sink, up) at tick k, None while a control call was under way"""
    target = sink = None
    up = False
    for c in ctl(e):
        if c[0] > k:
            continue
        if c[1] is None or c[1] > k:
            return None
        if isinstance(c[4], Exception):
            return None
        if c[2] == 'make':
            target, up, sink = c[3][0], True, 0
        elif c[2] == 'update':
            target = c[3][0]
        elif c[2] == 'connect':
            sink = c[3]
        elif c[2] in ('shutdown', 'drop'):
            up = False
    return target, sink, up


def one_ep(w, e):
    name = 'end point %d' % e.n
    gone = max([c[1] for c in ctl(e) if c[2] == 'shutdown' and c[1] is not None] or [0]) or None
    made = e.made is not None
    for c in e.chs:
        if not c.closed:
            yield ('channel-left', '%s: its network channel on port %d is still open' % (name, c.local_addr[1]))
    for r in e.ws:
        for x in writer(w, e, r, name):
            yield x
    if gone is not None:
        late = [p for r in e.ws for p in r.pkts if p[0] > gone] or [o for o in e.out if o[0] > gone] or [s for r in e.ws for s in r.slots if s[2] > gone]
        if late:
            yield ('after-shutdown', '%s: still at work after shutdown() came back: %r' % (name, late[0]))
    for k, target, pkt, c in e.sent:
        st = state(e, k)
        if st is None or target is None:
            continue
        if not st[2] or st[0] is None:
            yield ('sent-nowhere', '%s: a packet went to %s while there was no peer' % (name, target))
        elif tuple(target) != st[0]:
            yield ('wrong-target', '%s: a packet went to %s, the peer is %s' % (name, target, st[0]))
    for c in e.calls:
        if c[2] == 'soundout' and not isinstance(c[4], Exception):
            st0, st1 = state(e, c[0]), state(e, c[1])
            busy = any(x[0] < c[1] and (x[1] is None or x[1] > c[0]) for x in ctl(e))
            if st0 and st0 == st1 and not busy and st0[2] and st0[0] is not None and c[4] is None:
                yield ('audio-refused', '%s: audio was not taken although there is a peer' % name)
    # what came in
    for t, c, data, k in e.fed:
        if not any(r[0] > k and r[3] is data for r in e.rx) and (c.closed_t is None or c.closed_t - t > 0.05 + w.stalled(t - 1, c.closed_t + 1)):
            yield ('deaf', '%s: a packet that arrived at %.3f was never looked at' % (name, t))
            break
    for r in e.rx:
        st = state(e, r[0])
        if st is None or r[1] is None or state(e, r[1]) != st:
            continue
        if st[0] is None or tuple(r[2]) == st[0]:
            if r[4] != 1:
                yield ('packet-ignored', '%s: a packet from %s was handled %d times (peer %s)' % (name, r[2], r[4], st[0]))
        elif r[4]:
            yield ('stranger-heard', '%s: a packet from %s was accepted, the peer is %s' % (name, r[2], st[0]))
    exp = b''.join(d if k == 'f' else b'\xff' * d for _, k, d in e.jb)
    got, sr = [], None
    ups = [c for c in ctl(e) if c[2] == 'make']
    if ups and made:
        sr = ups[0][3][2]
        f = sr // 8000
        for k, sink, samples, rate in e.out:
            if rate != sr or len(samples) != sr // 10:
                yield ('chunk-shape', '%s: got %d samples at %d instead of %d at %d' % (name, len(samples), rate, sr // 10, sr))
                return
            st = state(e, k)
            if st is not None and st[2] and st[1] != sink:
                yield ('wrong-sink', '%s: audio went to consumer %d instead of %d' % (name, sink, st[1]))
            got.extend(samples[::f])
        want = list(rtpstub.ulaw2linear(exp))
        if got != want[:len(got)]:
            i = next((i for i in range(len(got)) if i >= len(want) or got[i] != want[i]), -1)
            yield ('audio-in', '%s: the audio handed over differs from what came in at sample %d of %d' % (name, i, len(got)))
        elif len(want) - len(got) >= 800 and e.jb:
            yield ('audio-kept', '%s: %d samples came in but only %d were handed over' % (name, len(want), len(got)))


def writer(w, e, r, name):
    data = b''.join(r.chunks)
    out = b''
    base = None
    for i, (k, slot, pkt) in enumerate(r.pkts):
        v, pt, seq, ts, ssrc = struct.unpack('!BBHII', pkt[:12])
        pl = pkt[12:]
        if len(pl) != r.psize or pt != r.pt:
            yield ('packet-shape', '%s: a packet of %d bytes, type %d instead of %d, %d' % (name, len(pl), pt, r.psize, r.pt))
            return
        if base is None:
            base = (seq, ts, slot)
        if seq != (base[0] + i) & 0xffff:
            yield ('sequence', '%s: packet %d has number %d instead of %d' % (name, i, seq, (base[0] + i) & 0xffff))
        if ts != (base[1] + (slot - base[2]) * r.unit) & 0xffffffff:
            yield ('timestamp', '%s: packet %d of pacing slot %d (first in %d) has timestamp %d, the first had %d' % (name, i, slot, base[2], ts, base[1]))
        if i and slot == r.pkts[i - 1][1]:
            yield ('two-in-slot', '%s: two packets in one pacing slot' % name)
        out += pl.replace(b'\xff', b'')
    if out != data[:len(out)]:
        n = next(i for i in range(len(out)) if i >= len(data) or out[i] != data[i])
        yield ('audio-out', '%s: the audio sent differs from what was queued at byte %d of %d (chunks %s)' % (name, n, len(data), [len(c) for c in r.chunks]))
    by = {}
    for p in r.pkts:
        by[p[1]] = p
    for i, (t, backlog, k) in enumerate(r.slots):
        nxt = r.slots[i + 1][2] if i + 1 < len(r.slots) else None
        if backlog > 0 and i + 1 not in by and (r.ended is None or (nxt is not None and r.ended > nxt)):
            yield ('starved', '%s: nothing was sent in pacing slot %d although %d bytes were waiting' % (name, i + 1, backlog))
            break
    if r.slots:
        t0 = r.slots[0][0]
        for i, (t, backlog, k) in enumerate(r.slots):
            due = t0 + i * r.ptime / 1000.0
            if t < due - 0.0005:
                yield ('too-fast', '%s: pacing slot %d at %.4f, due %.4f' % (name, i, t, due))
                break
            if t > due + 0.06 + w.stalled(t - 1.5, t + 1):
                yield ('too-slow', '%s: pacing slot %d at %.4f, due %.4f' % (name, i, t, due))
                break
    if r.started_t is not None and not r.died:
        last = r.slots[-1][0] if r.slots else r.started_t - r.ptime / 1000.0
        end = r.ended_t if r.ended_t is not None else HORIZON - 1
        if e.dropped is not None:
            end = min(end, e.dropped)
        if end - last > r.ptime / 1000.0 + 0.06 + w.stalled(last - 1, end + 1):
            yield ('pacing-stopped', '%s: the output worker was not called any more after %.3f, it was ended at %.3f' % (name, last, end))
    for nout, done in r.marks:
        n = tot = 0
        for c, f in zip(r.chunks, r.frames):
            n += len(c)
            if n > nout:
                break
            tot += f
        if done > tot:
            yield ('counted-early', '%s: %d frames counted as done when only %d bytes had been sent' % (name, done, nout))
            break
    if r.ctr is not None:
        if r.ctr[1] > r.ctr[0]:
            yield ('counters', '%s: %d frames done of %d taken' % (name, r.ctr[1], r.ctr[0]))
        if out == data and r.chunks and r.ctr[0] != r.ctr[1]:
            yield ('counters', '%s: all audio was sent, but the counters say %d of %d' % (name, r.ctr[1], r.ctr[0]))


def run(sim, ch, tier):
    import sys
    from . import seams
    gen.loop_knobs(sim, ch)
    w = MediaWorld(sim, ch)
    if ch.flip('m.trace', 0.5) and not sim.calm:
        import sippy.Rtp.EPoint as A
        import sippy.Rtp.OutputWorker as B
        import sippy.Rtp.Singletons as C
        import sippy.Rtp.Ingest as D
        S.trace_files = (A.__file__, B.__file__, C.__file__, D.__file__)
    plan(w, ch)
    w.start(HORIZON)
    w.eps_ = w.eps
    gc.collect()
    return judge(w, [c30], {'packets': sum(len(r.pkts) for e in w.eps for r in e.ws), 'audio_in': sum(len(e.out) for e in w.eps),
                            'nontrivial': any(r.pkts for e in w.eps for r in e.ws) or any(e.out for e in w.eps),
                            'sample': {'endpoints': len(w.eps), 'calls': [(c[2], str(c[3])) for e in w.eps for c in ctl(e)][:12]}})
