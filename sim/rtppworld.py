"""C20: the real media-relay client over the unreliable (UDP) control channel
against a model of the relay."""
import errno
from .core import NS
from .unit import LoopWorld
from . import gen
from .gen import tm

VERS = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported',
        '20090810': 'sbind_supported', '20150617': 'wdnt_supported', '20250523': 'copy_p_supported'}
RELAY = ('10.9.0.1', 22222)
LIMIT = {'I': 10.0, 'G': 1.0}


class Cmd(object):
    """One command as seen on the wire (by cookie)."""

    def __init__(self, cookie, text, t):
        self.cookie, self.text = cookie, text
        self.sends = [t]
        self.arrived = []         # at the relay
        self.answer = None
        self.ans_in = []          # answers that reached the client's socket
        self.limit = LIMIT.get(text[0], 3.0)


class Job(object):
    def __init__(self, n, t, text):
        self.n, self.t, self.text = n, t, text
        self.cmd = None
        self.done = []            # (t, result, online just then)
        self.sub = None


class RtppWorld(LoopWorld):
    bad_version = False

    def __init__(self, sim, ch, netcfg):
        LoopWorld.__init__(self, sim, ch, netcfg)
        self.jobs = []
        self.cmds = {}
        self.order = []
        self.transitions = [(0.0, False)]
        self.outages = []         # (from, to) nothing gets through
        self.restarts = []
        self.slow = []            # (from, to, delay) the relay takes its time
        self.badver = []          # (from, to) another version is announced
        self.caps = {v: ch.flip('cap', 0.8) for v in VERS}
        self.shut = None
        self.late_sent = []
        self.cl = None
        self.ansno = 0
        self.net.ends[RELAY] = self.relay_in
        self.net.on_sent.append(self.sent)
        self.net.on_dlv.append(self.dlv)
        self.maxrtt = 0.0

    # -- the client
    def main(self):
        from sippy.Rtp_proxy.client import Rtp_proxy_client
        w = self

        class Client(Rtp_proxy_client):
            @property
            def online(self):
                return self.__dict__.get('_on', False)

            @online.setter
            def online(self, v):
                if v != self.__dict__.get('_on', False):
                    w.transitions.append((w.sim.t(), v))
                    w.sim.log('ONLINE', v)
                    w.sim.mark('o%d' % v)
                self.__dict__['_on'] = v
        self.cl = Client({'_sip_address': '10.0.0.1'}, spath='udp:%s:%d' % RELAY)

    def submit(self, j):
        if self.shut is not None:
            return
        j.sub = self.sim.t()
        self.cl.send_command(j.text, self.completed, j)

    def completed(self, res, j, ex=None):
        j.done.append((self.sim.t(), res, self.cl.online))
        self.sim.log('DONE', j.n, res)

    def shutdown(self):
        if self.shut is None:
            self.shut = self.sim.t()
            self.cl.shutdown()
            self.shut_done = self.sim.t()

    # -- observation
    def sent(self, rec):
        seq, t, src, dst, data = rec
        ck, _, text = data.decode('ascii').partition(' ')
        self.sim.log('TX', ck[:4], text)
        c = self.cmds.get(ck)
        if c is None:
            c = self.cmds[ck] = Cmd(ck, text, t)
            self.order.append(c)
            for j in self.jobs:
                if j.text == text:
                    j.cmd = c
        else:
            c.sends.append(t)
        if self.shut is not None:
            self.late_sent.append((t, text))

    def dlv(self, src, dst, data):
        ck = data.split(None, 1)[:1]
        if not ck:
            return
        c = self.cmds.get(ck[0].decode('latin1'))
        if c is not None and c.answer is not None and data == c.answer:
            c.ans_in.append(self.sim.t())
            self.sim.log('RX', c.cookie[:4], c.text)

    # -- the relay
    def out(self, t=None):
        t = self.sim.t() if t is None else t
        return any(a <= t < b for a, b in self.outages)

    def relay_in(self, data, src, dst):
        t = self.sim.t()
        if self.out():
            self.sim.fault('relay_down')
            return
        ck, _, text = data.decode('ascii').partition(' ')
        c = self.cmds[ck]
        c.arrived.append(t)
        if c.answer is None:
            self.ansno += 1
            c.answer = ('%s %s\n' % (ck, self.answer(text))).encode()
        d = 0.0
        for a, b, x in self.slow:
            if a <= t < b:
                d = max(d, x)
                self.sim.fault('relay_slow')
        self.sim.at(d + 0.0005, self.reply, src, c.answer)

    def reply(self, dst, data):
        if not self.out():
            self.net.inject(RELAY, dst, data)

    def answer(self, text):
        t = self.sim.t()
        f = text.split()
        if text.startswith('VF'):
            return '1' if self.caps[f[1]] else '0'
        if text == 'V':
            bad = any(a <= t < b for a, b in self.badver)
            if bad:
                self.sim.fault('relay_wrong_version')
            return '20030101' if bad else '20040107'
        if text == 'Ib':
            return 'sessions created: 10\nactive sessions: 1\nactive streams: 2\npackets received: 3\npackets transmitted: 4'
        return '%d 10.9.0.1' % (20000 + self.ansno)

    def plan(self, n, horizon):
        ch, sim = self.ch, self.sim
        self.horizon = horizon
        for i in range(n):
            k = ch.choice('j.kind', ('U', 'U', 'D', 'Q', 'G', 'I'))
            j = Job(i, tm(ch, 'j.at', (0.5, 2.0, 10.0, 60.0, 75.0, 140.0, 200.0), 8.0), '%s job%d from to' % (k, i))
            self.jobs.append(j)
            self.onloop(j.t, self.submit, j)
        if not sim.calm:
            for i in range(ch.pick('out.n', 3)):
                a = ch.real('out.at', 0.0, horizon - 160)
                self.outages.append((a, a + ch.choice('out.d', (0.5, 2.0, 5.0, 15.0, 70.0))))
            for i in range(ch.pick('slow.n', 3)):
                a = ch.real('slow.at', 0.0, horizon - 160)
                self.slow.append((a, a + ch.choice('slow.l', (1.0, 10.0, 50.0)), ch.choice('slow.d', (0.1, 0.4, 1.2, 2.5, 5.0, 12.0))))
            for i in range(ch.pick('ver.n', 2)):
                a = ch.choice('ver.at', (0.0, 0.0, 60.0))
                self.badver.append((a, a + ch.choice('ver.d', (1.0, 70.0))))
            for i in range(ch.pick('gb.n', 4)):
                sim.at(ch.real('gb.at', 0.0, horizon), self.garbage, ch.pick('gb.k', 5))
            gen.stalls(sim, ch, horizon - 100)
        if ch.flip('shut', 0.3):
            self.onloop(ch.real('shut.at', 0.0, horizon), self.shutdown)

    def garbage(self, k):
        self.sim.fault('garbage')
        s = [x for x in self.net.socks.values()]
        if not s:
            return
        dst = ('10.0.0.1', s[0].laddr[1])
        d = (b'\xff\xfe\x00\x80', b'deadbeef', b'0123456789abcdef0123456789abcdef 20040107\n', b' \n', b'x y z\r\n')[k]
        self.net.inject(('10.9.0.%d' % (1 + k % 2), 22222), dst, d)


def slow_max(w, t):
    """slowest answer any round trip may have shown up to t"""
    return max([0.3 + 2 * w.net.cfg.lat_max + (2 * w.net.cfg.slow_max if w.net.cfg.slow else 0)] +
               [x + 1.0 + (2 * w.net.cfg.slow_max if w.net.cfg.slow else 0) for a, b, x in w.slow if a <= t])


def quick(w, t):
    """nothing made an answer take longer than 0.2 s so far"""
    return not w.net.cfg.slow and not w.net.cfg.dup and not any(a <= t and x > 0.19 for a, b, x in w.slow) and \
        not any(a <= t for a, b in w.stall_log + w.outages)


def limit(w, c, t):
    """No command may take longer than this: its own time limit, or four times
    the round trip the relay is known for."""
    return max(c.limit, 4 * min(slow_max(w, t), 16.0))


def c20(w):
    cr = w.crashed()
    if cr:
        yield ('crash', cr)
        return
    end = w.exit_t
    fails = []
    for j in w.jobs:
        if j.sub is None:
            continue
        c = j.cmd
        if c is None:
            if w.shut is None or w.shut > j.sub + 0.1:
                yield ('never-sent', 'command %s never sent' % j.text)
            continue
        if len(j.done) > 1:
            yield ('completed-twice', 'command %s completed %d times: %s' % (j.text, len(j.done), j.done))
        st = w.stalled(c.sends[0] - 1, end)
        if not j.done:
            if j.sub + limit(w, c, j.sub) + 0.5 + st < end:
                yield ('never-completed', 'command %s sent at %.3f never completed' % (j.text, j.sub))
            continue
        t, res, on = j.done[0]
        if res is None:
            if t > j.sub + limit(w, c, j.sub) + 0.1 + w.stalled(j.sub, t + 0.01):
                yield ('fails-late', 'command %s sent at %.3f failed only at %.3f' % (j.text, j.sub, t))
            if t < j.sub + c.limit / 4 and w.shut is None:
                yield ('fails-early', 'command %s sent at %.3f failed at %.3f already' % (j.text, j.sub, t))
            if on and w.shut is None:
                yield ('failed-still-online', 'command %s failed at %.3f but the relay is still in service' % (j.text, t))
        else:
            if c.answer is None or res != c.answer.decode().split(None, 1)[1].strip():
                yield ('wrong-answer', 'command %s completed with %r, relay answered %r' % (j.text, res, c.answer))
            elif not c.ans_in or c.ans_in[0] > t:
                yield ('answer-from-nowhere', 'command %s completed at %.3f before any answer came' % (j.text, t))
    # commands (heartbeats and checks included) answered in time do not fail
    dead = []                  # commands that can have failed: (earliest, latest)
    for c in w.order:
        t0 = c.sends[0]
        if len(c.sends) == 1 and not c.ans_in and quick(w, t0) and c.limit > 1.0 \
                and t0 + c.limit + 0.5 + w.stalled(t0, end) < min(end, INF if w.shut is None else w.shut):
            yield ('not-retransmitted', 'command %r sent at %.3f, unanswered, was never repeated' % (c.text, t0))
        if c.ans_in:
            late = [t for t in c.sends if t > c.ans_in[0] + 0.1 + w.stalled(c.ans_in[0] - 1, t)]
            if late:
                yield ('repeated-after-answer', 'command %r answered at %.3f, sent again at %.3f' % (c.text, c.ans_in[0], late[0]))
        if c.text in ('V',) or c.text.startswith('VF'):
            continue
        a = c.ans_in[0] if c.ans_in else INF
        if a > t0 + c.limit / 4:
            dead.append((t0 + c.limit / 4, a + w.stalled(t0 - 1, a + 1) + 0.1 if a < INF else INF, c))
    down = None
    tr = w.transitions
    for i, (t, on) in enumerate(tr):
        if not on and i:
            if w.shut is None and not any(a - 0.01 <= t <= b for a, b, c in dead):
                yield ('offline-for-nothing', 'relay taken out of service at %.3f, no command had failed' % t)
        if on:
            for v, name in VERS.items():
                cs = [c for c in w.order if c.text == 'VF ' + v and c.sends[0] <= t]
                if not cs:
                    yield ('caps-not-asked', 'in service at %.3f, capability %s never asked for' % (t, v))
            if not any(c.text == 'V' and c.ans_in and c.ans_in[0] <= t and b'20040107' in c.answer for c in w.order):
                yield ('online-unchecked', 'in service at %.3f without a proper answer to the version check' % t)
    if w.shut is None:
        for v, name in VERS.items():
            cs = [c for c in w.order if c.text == 'VF ' + v and c.ans_in and c.ans_in[0] < c.sends[0] + c.limit / 4]
            if cs and tr[-1][1] and getattr(w.cl, name) != w.caps[v]:
                yield ('caps-wrong', 'capability %s is %s, taken for %s' % (name, w.caps[v], getattr(w.cl, name)))
    # a relay nobody can reach is noticed; one that is back is used again
    stop = end if w.shut is None else w.shut
    for a, b in w.outages:
        b = min(b, stop)
        lim = a + 1.3 + max(10.0, 4 * min(slow_max(w, a), 16.0)) + 0.2 + w.stalled(a - 10, b)
        if b > lim and state(tr, lim) is True and not any(a < t <= lim and not on for t, on in tr):
            yield ('outage-unnoticed', 'relay unreachable since %.3f, still in service at %.3f' % (a, lim))
    quiet = max([0.0] + [b for a, b in w.outages] + [b + x for a, b, x in w.slow] + [b for a, b in w.badver] +
                [w.net.cfg.fault_until or 0.0] + [b for a, b in w.stall_log])
    if w.shut is None:
        # (a check under way may still fail, another must be made within 66 s)
        lim = quiet + 66 + 2 * max(10.0, 4 * min(slow_max(w, end), 16.0)) + 2.0
        if lim < end and state(tr, lim) is False:
            yield ('not-back', 'relay reachable since %.3f, not in service at %.3f' % (quiet, lim))
        hb = [c.sends[0] for c in w.order if c.text == 'Ib' and c.sends[0] > end - 5]
        if tr[-1][1] and end - tr[-1][0] > 30 and end - quiet > 30 and not hb:
            yield ('no-heartbeat', 'in service, but not asked for a sign of life in the last 5 s')
        n = len([c for c in w.order if c.text == 'Ib' and c.sends[0] > end - 20])
        if n > 20 / 0.9 + 2 and not w.stalled(end - 25, end):
            yield ('heartbeats-pile-up', '%d heartbeats in the last 20 s' % n)
    elif w.late_sent and any(t > w.shut_done + 0.01 for t, x in w.late_sent):
        yield ('sent-after-shutdown', str(w.late_sent[-1]))


INF = float('inf')


def state(tr, t):
    s = False
    for a, on in tr:
        if a <= t:
            s = on
    return s
