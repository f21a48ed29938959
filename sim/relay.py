"""A media relay under the whole B2BUA (C22): a model of the relay that keeps
its sessions, and the oracle over its commands and the SDP on the wire."""
import re
try:
    from urllib.parse import unquote
except ImportError:
    from urllib import unquote
from . import gen, oracles, seams
from .gen import tm
from .oracles import V, a_end, b_bye, stalled, delta
from .seams import S, SimSocket, AF_UNIX
from .rtppworld import VERS

INF = float('inf')
CMDLIM = 3.0


class Cmd(object):
    def __init__(self, relay, t, cookie, text):
        self.relay, self.cookie, self.text = relay, cookie, text
        self.sends = [t]
        self.arrived = []
        self.answer = None
        self.ans_in = []          # answers that reached the client
        f = text.split(' && ')[0].split()
        self.op = f[0][:1] if not f[0].startswith('VF') else 'VF'
        self.sid = f[1] if self.op in ('U', 'D') and len(f) > 1 else None
        self.media = (f[2], int(f[3])) if self.op == 'U' else None
        self.tag = f[4] if self.op == 'U' else None
        self.notify = (f[-2], f[-1]) if self.op == 'U' and len(f) in (7, 8) and f[-2].startswith('/') else None
        self.err = False          # the relay answered with an error
        self.ports = None

    def failed(self):
        """(from, to): when the B2BUA may have given this one up; None when it got its answer"""
        if self.err and self.ans_in:
            return self.ans_in[0], self.ans_in[0]
        if self.ans_in and self.ans_in[0] < self.sends[0] + CMDLIM / 4:
            return None
        if self.ans_in:
            return self.sends[0] + CMDLIM / 4, self.ans_in[0]
        return self.sends[0] + CMDLIM / 4, INF


class Relay(object):
    def __init__(self, w, n, bridge):
        self.w, self.n, self.sim, self.ch = w, n, w.sim, w.sim.ch
        self.ip = '10.9.0.%d' % n
        self.addr = (self.ip, 22222)
        self.bridge = bridge
        self.media_ip = '10.9.1.%d' % n if bridge else self.ip
        self.cmds = {}
        self.order = []
        self.sess = {}            # sid -> {tag: port}
        self.nport = 30000
        self.outages, self.slow, self.errs, self.restarts = [], [], [], []
        self.caps = {v: self.ch.flip('cap', 0.8) for v in VERS}
        self.timeouts = []        # (t, sid, tag) sessions the relay gave up itself
        self.online = []          # (t, bool)
        w.net.ends[self.addr] = self.relay_in
        w.net.on_sent.append(self.sent)
        w.net.on_dlv.append(self.dlv)
        w.relays.append(self)

    # -- observation
    def sent(self, rec):
        seq, t, src, dst, data = rec
        if dst != self.addr:
            return
        ck, _, text = data.decode('ascii').partition(' ')
        c = self.cmds.get(ck)
        if c is None:
            c = self.cmds[ck] = Cmd(self, t, ck, text)
            self.order.append(c)
            self.sim.log('RTPP', self.n, text)
            if c.op in 'UD':
                self.sim.mark('r' + c.op)
        else:
            c.sends.append(t)

    def dlv(self, src, dst, data):
        if src != self.addr:
            return
        c = self.cmds.get(data.split(None, 1)[0].decode('latin1'))
        if c is not None and data == c.answer:
            c.ans_in.append(self.sim.t())

    # -- the relay
    def relay_in(self, data, src, dst):
        t = self.sim.t()
        if any(a <= t < b for a, b in self.outages):
            self.sim.fault('relay_down')
            return
        ck, _, text = data.decode('ascii').partition(' ')
        c = self.cmds[ck]
        c.arrived.append(t)
        if c.answer is None:
            c.answer = ('%s %s\n' % (ck, self.act(c, t))).encode()
            if c.op in 'UD':
                self.sim.log('RTPPans', self.n, c.answer[33:].decode().strip())
        d = 0.0005
        for a, b, x in self.slow:
            if a <= t < b:
                d = max(d, x)
                self.sim.fault('relay_slow')
        self.sim.at(d, self.reply, src, c.answer)

    def reply(self, dst, data):
        t = self.sim.t()
        if not any(a <= t < b for a, b in self.outages):
            self.w.net.inject(self.addr, dst, data)

    def act(self, c, t):
        text = c.text
        if c.op == 'VF':
            return '1' if self.caps[text.split()[1]] else '0'
        if c.op == 'V':
            return '20040107'
        if c.op == 'I':
            return 'sessions created: 10\nactive sessions: %d\nactive streams: 2\npackets received: 3\npackets transmitted: 4' % len(self.sess)
        if c.op == 'D':
            if self.sess.pop(c.sid, None) is None:
                return 'E8'
            return '0'
        if c.op == 'U':
            for a, b in self.errs:
                if a <= t < b:
                    self.sim.fault('relay_error')
                    c.err = True
                    return self.ch.choice('rl.err', ('E71', 'E10', '0', 'E8'))
            s = self.sess.setdefault(c.sid, {})
            if c.tag not in s or 'N' in text.split()[0]:
                self.nport += 2
                s[c.tag] = self.nport
            c.ports = (self.media_ip, s[c.tag])
            if c.notify is not None:
                s[None] = c.notify
            return '%d %s' % (s[c.tag], self.media_ip) if self.bridge else '%d' % s[c.tag]
        return 'E0'

    def restart(self):
        self.sim.fault('relay_restart')
        self.sess.clear()
        self.restarts.append(self.sim.t())

    def give_up(self):
        """media time-out: the relay drops a session and says so"""
        c = [(sid, s) for sid, s in sorted(self.sess.items()) if None in s]
        if not c:
            return
        sid, s = self.ch.choice('rl.to', c)
        path, tag = s[None]
        del self.sess[sid]
        self.sim.fault('media_timeout')
        self.timeouts.append((self.sim.t(), sid, tag))
        self.sim.log('RTPPtimeout', sid, tag)
        Notifier(self.w, path, ('%s\n' % unquote(tag)).encode())


class Notifier(object):
    """the connection a relay reports a media time-out on"""

    def __init__(self, w, path, data):
        l = w.sim.unix.get(path)
        if l is None or l.closed:
            return
        s = self.sock = SimSocket(AF_UNIX)
        s.peer, s.raddr, s.laddr = self, '', l.laddr
        l.rx.append((s, ''))
        seams._notify(l)
        s.feed(data)
        w.sim.at(0.5, s.feed_eof)

    def on_send(self, sock, data):
        return len(data)

    def on_close(self, sock):
        pass


def attach(w, ch):
    """Call before the world starts."""
    import sippy.b2bua as B
    w.rtpp_on = True
    w.relays = []
    n = 1 + ch.weighted('rl.n', (6, 3, 1))
    for i in range(n):
        Relay(w, i + 1, ch.flip('rl.br', 0.4))
    Base = B.Rtp_proxy_client
    made = []

    class Client(Base):
        def __init__(s, *a, **kw):
            s.__dict__['_r'] = w.relays[len(made)]
            made.append(s)
            Base.__init__(s, *a, **kw)

        @property
        def online(s):
            return s.__dict__.get('_on', False)

        @online.setter
        def online(s, v):
            r = s.__dict__['_r']
            if v != s.__dict__.get('_on', False):
                r.online.append((w.sim.t(), v))
                w.sim.log('RELAY', r.n, 'online' if v else 'offline')
                w.sim.mark('rl%d' % v)
            s.__dict__['_on'] = v
    B.Rtp_proxy_client = Client
    for r in w.relays:
        w.opts += ['-r', 'udp:%s:22222' % r.ip]
    return w.relays


def faults(w, ch, t0, horizon):
    """relay failures over the life of the calls"""
    sim = w.sim
    w.lag = 0.25
    if sim.calm:
        return
    c = w.net.cfg
    if c.loss or c.dup or c.slow:
        w.lag = 7.0
    hit = False
    for r in w.relays:
        for i in range(ch.pick('rl.out', 3)):
            a = ch.real('rl.outat', t0 - 1.5, horizon)
            r.outages.append((a, a + ch.choice('rl.outd', (0.3, 1.5, 4.0, 12.0, 70.0))))
            hit = True
        for i in range(ch.pick('rl.slow', 3)):
            a = ch.real('rl.slowat', t0 - 0.5, horizon)
            r.slow.append((a, a + ch.choice('rl.slowl', (0.5, 3.0, 20.0)), ch.choice('rl.slowd', (0.05, 0.3, 1.0, 2.0, 3.5))))
            hit = True
        for i in range(ch.pick('rl.err', 3)):
            a = ch.real('rl.errat', t0 - 0.5, horizon)
            r.errs.append((a, a + ch.choice('rl.errl', (0.05, 0.5, 5.0, 30.0))))
        if ch.flip('rl.rest', 0.15):
            sim.at(ch.real('rl.restat', t0, horizon), r.restart)
        for i in range(ch.pick('rl.mto', 3)):
            sim.at(ch.real('rl.mtoat', t0 + 0.2, horizon), r.give_up)
    if hit:
        w.lag = 15.0


# -- session descriptions --------------------------------------------------------
def sects(body):
    """[(address, port, transport)] of every medium"""
    addr = None
    out = []
    for l in body.replace('\r', '').split('\n'):
        if l.startswith('c='):
            a = l.split()[-1]
            if out:
                out[-1][0] = a
            else:
                addr = a
        elif l.startswith('m='):
            f = l.split()
            out.append([addr, int(f[1]), f[2].lower()])
    return [tuple(x) for x in out]


RELAYED = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp')


def relay_off(call, D, A):
    """the route this outbound leg was placed on does without the relay"""
    m = re.search(r'-b2b_(\d+)$', D.callid)
    k = int(m.group(1)) - 1 if m else 0
    return k < len(call.routes) and 'rtpp=0' in call.routes[k][1].split(';')


def over_at(w, A, Bs):
    """(earliest, latest) time at which the call of leg A was over, or None"""
    ea, why = a_end(A)
    return ea.t if ea is not None else None


def c22(w):
    from .sipmsg import sdp_mark
    v = V(w)
    end = w.exit_t
    cmds = [c for r in w.relays for c in r.order]
    ports = {}
    for c in cmds:
        if c.op == 'U' and c.ports is not None and c.ans_in:
            ports.setdefault((c.sid, c.media), set()).add(c.ports)
    known = set()
    for A, Bs in v.pairs():
        call = A.call
        if call is None:
            continue
        cid = A.callid
        known.add(cid)
        mine = [c for c in cmds if c.sid is not None and c.sid.rsplit('-', 1)[0] == cid]
        us = [c for c in mine if c.op == 'U']
        ds = [c for c in mine if c.op == 'D']
        ea, why = a_end(A)
        to = [x for r in w.relays for x in r.timeouts if x[1].rsplit('-', 1)[0] == cid]
        # -- nothing is deleted before the call is over
        for d in ds:
            if ea is None or ea.t > d.sends[0] + 0.001:
                yield ('deleted-early', 'session %s deleted at %.3f, call %d still up' % (d.sid, d.sends[0], call.n))
        sids = []
        for u in us:
            if (u.relay, u.sid) not in sids:
                sids.append((u.relay, u.sid))
        # -- everything is deleted once the call is over
        if ea is not None:
            t0 = max([ea.t] + [u.sends[0] for u in us])
            lim = t0 + delta(w, t0)
            for u in us:
                f = u.failed()
                if f is not None and u.sends[0] > ea.t - 20:
                    lim = max(lim, u.sends[0] + 4 * CMDLIM + 1 + stalled(w, u.sends[0], end))
            for r, sid in sids:
                if any(d.sid == sid and d.relay is r for d in ds):
                    continue
                if any(x[1] == sid for x in to):
                    # the relay dropped it: only a session opened again needs deleting
                    tt = max(x[0] for x in to if x[1] == sid)
                    if not any(u.sid == sid and u.arrived and u.arrived[0] > tt + delta(w, tt) for u in us):
                        continue
                if end > lim:
                    yield ('session-left', 'session %s never deleted, call %d was over at %.3f (%s)' % (sid, call.n, ea.t, why))
                    break
        for i, d in enumerate(ds):
            if any(x.sid == d.sid and x.relay is d.relay for x in ds[:i]):
                yield ('deleted-twice', 'session %s deleted twice, at %.3f' % (d.sid, d.sends[0]))
        if len(set(u.relay for u in mine)) > 1:
            yield ('two-relays', 'call %d: commands went to several relays' % call.n)
        # -- media addresses given to either party
        orig = {}
        for D in [A] + Bs:
            for e in D.evs:
                if e.d == 'i' and e.m.body and sdp_mark(e.m.body):
                    orig.setdefault(sdp_mark(e.m.body), sects(e.m.body))
        for D in [A] + Bs:
            vers = {}
            for e in D.evs:
                mk = sdp_mark(e.m.body) if e.d == 'o' and e.m.body else None
                if mk is None or mk not in orig:
                    continue
                off = relay_off(call, D if D is not A else src_leg(mk, Bs, call) or A, A)
                got, want = sects(e.m.body), orig[mk]
                if len(got) != len(want):
                    yield ('sdp-media-count', 'call %d: %s carried %d media, relayed with %d' % (call.n, mk, len(want), len(got)))
                    continue
                k = 0
                for g, o in zip(got, want):
                    if off or o[2] not in RELAYED:
                        if g != o:
                            yield ('sdp-changed', 'call %d: medium %s sent as %s, no relay is involved' % (call.n, o, g))
                        continue
                    ok = ports.get(('%s-%d' % (cid, k), (o[0], o[1])), set())
                    k += 1
                    if o[1] == 0 and g[1] != 0:
                        yield ('medium-revived', 'call %d: %s at %.3f offers a medium on port %d the other party has turned off' %
                               (call.n, e.m.brief(), e.t, g[1]))
                        continue
                    if o[1] == 0 and g[1] == 0 and g[0] in [p[0] for p in ok]:
                        continue
                    if o[0] == g[0] == '0.0.0.0' and mk not in orig:
                        continue
                    if (g[0], g[1]) not in ok:
                        yield ('not-relayed', 'call %d: %s at %.3f tells the party on the %s side to send media %s to %s:%d, relay gave %s' %
                               (call.n, e.m.brief(), e.t, D.side, o, g[0], g[1], sorted(ok)))
                ov = oline(e.m.body)
                if mk in vers and vers[mk] != ov:
                    yield ('sdp-version', 'call %d: %s sent under %s and %s' % (call.n, mk, vers[mk], ov))
                for m2, o2 in vers.items():
                    if m2 != mk and not off and o2 == ov:
                        yield ('sdp-version', 'call %d: %s and %s sent under one version %s' % (call.n, m2, mk, ov))
                vers[mk] = ov
        # -- a relay that fails does not leave the caller hanging
        att = A.attempts[-1]
        fin = att.first_final
        if ea is None and fin is None:
            t = att.t
            def on(t):
                return any(state(r.online, t) for r in w.relays)
            if not any(state(r.online, x) for r in w.relays for x in (t, t + stalled(w, t, t + 60))) and \
                    not any(t <= a <= t + delta(w, t) for r in w.relays for a, o in r.online) and end > t + delta(w, t):
                yield ('no-relay-hangs', 'no relay is in service when call %d comes at %.3f, caller left waiting' % (call.n, t))


def failed_at(w, B, t, pending=False):
    """a relay command for the call of this leg may have been found to have
    failed at t (or was still waiting for its answer then)"""
    cid = re.sub(r'-b2b_\d+$', '', B.callid)
    for r in w.relays:
        for c in r.order:
            if c.op == 'U' and c.sid.rsplit('-', 1)[0] == cid and c.sends[0] <= t:
                if pending and (not c.ans_in or c.ans_in[0] >= t - 0.001):
                    return True
                f = c.failed()
                if f is not None and f[0] - 0.001 <= t and (f[1] == INF or t <= f[1] + 0.01 + stalled(w, f[1] - 1, f[1] + 1)):
                    return True
    return False


def oline(body):
    m = re.search(r'^o=(.*)$', body, re.M)
    return m.group(1).strip() if m else None


def src_leg(mk, Bs, call):
    """the outbound leg that issued a session description"""
    for D in Bs:
        for e in D.evs:
            if e.d == 'i' and e.m.body and ('a=mark:%s\r' % mk) in e.m.body:
                return D
    return None


def state(tr, t):
    s = False
    for a, on in tr:
        if a <= t:
            s = on
    return s
