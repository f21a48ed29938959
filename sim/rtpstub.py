"""Stand-ins for the compiled modules `rtpsynth` and `G722` (not installed
here), as far as sippy/Rtp relies on them: a pacing thread, a network thread,
an RTP packet writer, a jitter buffer, G.711 mu-law, sample rate conversion.
The world of a run is in `W`: it sees every call."""
import errno
import struct
import sys
import threading
import time
import types
from array import array

W = None
SHIFT = 50_000_000


def _ns():
    return time.monotonic_ns()


# -- G.711 mu-law
def _dec(b):
    b = ~b & 0xff
    t = ((b & 0x0f) << 3) + 0x84
    t <<= (b & 0x70) >> 4
    return (0x84 - t) if b & 0x80 else (t - 0x84)


DEC = [_dec(b) for b in range(256)]
ENC = {}
for _b in range(256):
    ENC.setdefault(DEC[_b], _b)
ENC[0] = 0xff


def _enc(v):
    x = ENC.get(v)
    if x is None:
        x = min(range(256), key=lambda b: abs(DEC[b] - v))
        ENC[v] = x
    return x


def linear2ulaw(pcm):
    return bytes(_enc(v) for v in pcm)


def ulaw2linear(data):
    return array('h', [DEC[b] for b in data])


def resample_linear(pcm, a, b):
    if a % b == 0:
        return array('h', pcm[::a // b])
    if b % a == 0:
        k = b // a
        return array('h', [v for v in pcm for _ in range(k)])
    raise AssertionError('unusual sample rates %d %d' % (a, b))


class G722(object):
    """not G.722, but like it at 8000: one sample, one byte"""

    def __init__(self, sr, br, use_numpy=False):
        pass

    def encode(self, pcm):
        return linear2ulaw(pcm)

    def decode(self, data):
        return ulaw2linear(data)


# -- packets
class RtpSynth(object):
    def __init__(self, srate, ptime):
        self.unit = srate * ptime // 1000
        self.seq = W.ch.choice('rs.seq', (0, 65530, 1000))
        self.ts = W.ch.choice('rs.ts', (0, 0xffffffff - 500, 160))
        self.ssrc = 7
        W.synths.append(self)

    def next_pkt(self, plen, pt, pload=None):
        assert len(pload) == plen
        p = struct.pack('!BBHII', 0x80, pt, self.seq & 0xffff, self.ts & 0xffffffff, self.ssrc) + pload
        self.seq += 1
        self.ts += self.unit
        return p

    def skip(self, n):
        self.ts += self.unit * n


class RTPParseError(Exception):
    pass


class RTPFrameType(object):
    RTP = 0
    ERS = 1


def _ns_obj(**kw):
    return types.SimpleNamespace(**kw)


class RtpJBuf(object):
    """reordering buffer: gives frames in order once, erasures for what did not come"""

    def __init__(self, cap):
        self.cap = cap
        self.buf = {}
        self.next = None
        self.ltop = None

    def lseq(self, seq):
        if self.ltop is None:
            self.ltop = seq + 65536
            return self.ltop
        base = self.ltop & ~0xffff
        best = min((base + k * 65536 + seq for k in (-1, 0, 1)), key=lambda x: abs(x - self.ltop))
        self.ltop = max(self.ltop, best)
        return best

    def udp_in(self, data, rtime):
        if len(data) < 12 or data[0] >> 6 != 2:
            raise RTPParseError('bad packet')
        seq, ts = struct.unpack('!HI', data[2:8])
        ls = self.lseq(seq)
        out = []
        if self.next is None:
            self.next = ls
            self.nts = ts
        if ls < self.next or ls in self.buf:
            return out
        self.buf[ls] = (ts, bytes(data[12:]), rtime)
        while self.buf:
            if self.next in self.buf:
                ts, pl, rt = self.buf.pop(self.next)
                out.append(_ns_obj(content=_ns_obj(type=RTPFrameType.RTP, frame=_ns_obj(rtp=_ns_obj(lseq=self.next))), rtp_data=pl, opaque=rt))
                W.jb.append((self, 'f', pl))
                self.next += 1
                self.nts = ts + len(pl)
            elif len(self.buf) >= self.cap:
                nx = min(self.buf)
                diff = self.buf[nx][0] - self.nts & 0xffffffff
                out.append(_ns_obj(content=_ns_obj(type=RTPFrameType.ERS, lseq_start=self.next, lseq_end=nx - 1, ts_diff=diff)))
                W.jb.append((self, 'e', diff))
                self.next = nx
            else:
                break
        return out


# -- threads
class _Chan(object):
    closed = False
    busy = False
    closed_t = None


class RtpProc(object):
    def __init__(self):
        self.cv = threading.Condition()
        self.chs = []
        self.stop = False
        W.procs.append(self)
        self.thr = threading.Thread(target=self.run, name='RtpProc', daemon=True)
        self.thr.start()

    def create_channel(self, proc_in):
        if self.stop:
            raise RuntimeError('RtpProc is shut down')
        c = PChan()
        c.proc, c.cb, c.due, c.active = self, proc_in, None, True
        c.n = 0
        with self.cv:
            self.chs.append(c)
            self.cv.notify_all()
        W.pchans.append(c)
        return c

    def run(self):
        with self.cv:
            while not self.stop:
                act = [c for c in self.chs if c.active]
                if not act:
                    self.cv.wait()
                    continue
                c = min(act, key=lambda c: c.due or 0)
                now = _ns()
                if c.due is not None and c.due > now:
                    self.cv.wait((c.due - now) / 1e9)
                    continue
                c.busy = True
                self.cv.release()
                d = W.late()
                if d:
                    W.sim.sleep(d)
                    now = _ns()
                W.slot(c, now)
                r = None
                cb = c.cb
                try:
                    r = cb(now, c.due or 0)
                except Exception as e:
                    W.cb_died('pacing', e)
                cb = None
                self.cv.acquire()
                c.busy = False
                c.due = r
                c.active = r is not None and not c.closed
                self.cv.notify_all()

    def shutdown(self):
        with self.cv:
            self.stop = True
            self.cv.notify_all()
        if W.sim.cur is not self.thr._t:
            self.thr.join()


class PChan(_Chan):
    def close(self):
        p = self.proc
        with p.cv:
            if self.closed:
                raise RuntimeError('channel is closed')
            self.closed = True
            self.active = False
            if self in p.chs:
                p.chs.remove(self)
            while self.busy and W.sim.cur is not p.thr._t:
                p.cv.wait()
            self.cb = None
            p.cv.notify_all()


class RtpQueueFullError(RuntimeError):
    pass


class RtpServer(object):
    def __init__(self):
        self.cv = threading.Condition()
        self.q = []
        self.stop = False
        self.chs = []
        W.servers.append(self)
        self.thr = threading.Thread(target=self.run, name='RtpServer', daemon=True)
        self.thr.start()

    def create_channel(self, pkt_in, bind_host=None, bind_port=None, bind_family=None, **kw):
        if self.stop:
            raise RuntimeError('RtpServer is shut down')
        e = W.bind_fault(bind_port)
        if e:
            raise OSError(e, 'bind')
        if any(c.local_addr[1] == bind_port and c.fam == bind_family for c in self.chs):
            raise OSError(errno.EADDRINUSE, 'bind')
        c = SChan()
        c.srv, c.cb, c.target, c.fam = self, pkt_in, None, bind_family
        c.local_addr = (bind_host, bind_port)
        with self.cv:
            self.chs.append(c)
        W.newchan(c)
        return c

    def feed(self, ch, data, addr):
        with self.cv:
            self.q.append((ch, data, addr, _ns()))
            self.cv.notify_all()

    def run(self):
        with self.cv:
            while not self.stop:
                if not self.q:
                    self.cv.wait()
                    continue
                c, data, addr, t = self.q.pop(0)
                if c.closed:
                    continue
                c.busy = True
                self.cv.release()
                cb = c.cb
                try:
                    W.pktin(c, data, addr)
                    cb(data, addr, t)
                    W.pktin_done(c, data, addr)
                except Exception as e:
                    W.cb_died('network', e)
                cb = None
                self.cv.acquire()
                c.busy = False
                self.cv.notify_all()

    def shutdown(self):
        with self.cv:
            self.stop = True
            self.cv.notify_all()
        if W.sim.cur is not self.thr._t:
            self.thr.join()


class SChan(_Chan):
    def set_target(self, host, port):
        W.target(self, (host, port))
        self.target = (host, port)

    def send_pkt(self, pkt):
        if self.closed:
            raise RuntimeError('channel is closed')
        if W.full():
            W.sent(self, pkt, None)
            raise RtpQueueFullError('queue is full')
        W.sent(self, pkt, self.target)

    def close(self):
        s = self.srv
        with s.cv:
            self.closed = True
            self.closed_t = W.sim.t()
            if self in s.chs:
                s.chs.remove(self)
            while self.busy and W.sim.cur is not s.thr._t:
                s.cv.wait()
            self.cb = None


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    mod('rtpsynth').__path__ = []
    mod('rtpsynth.RtpServer', RtpServer=RtpServer, RtpQueueFullError=RtpQueueFullError)
    mod('rtpsynth.RtpProc', RtpProc=RtpProc)
    mod('rtpsynth.RtpSynth', RtpSynth=RtpSynth)
    mod('rtpsynth.RtpJBuf', RtpJBuf=RtpJBuf, RTPFrameType=RTPFrameType, RTPParseError=RTPParseError)
    mod('rtpsynth.RtpUtils', linear2ulaw=linear2ulaw, ulaw2linear=ulaw2linear, resample_linear=resample_linear)
    mod('G722', G722=G722)
