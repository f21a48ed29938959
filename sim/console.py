"""Operator consoles: client models for the control socket, and the C25 oracle."""
import errno, re
from .core import NS
from . import seams
from .seams import S, SimSocket, AF_INET, AF_UNIX
from .oracles import V, delta, a_end, b_bye, stalled, tx_late


class Console(object):
    """A client of the control socket. plan: [(delay, action, arg)]"""

    def __init__(self, w, n, t, plan, path, chunky):
        self.w, self.n, self.plan, self.path, self.chunky = w, n, list(plan), path, chunky
        self.sock = None
        self.cmds = []            # dict(text, t, n)
        self.rx = []              # (t, n, bytes)
        self.slow = False
        self.t_open = self.t_acc = None
        self.gone = None          # (t, how): the client went away entirely
        self.half = None          # t of the half-close
        self.bad = None           # t non-ASCII input was sent
        self.srv_close = None
        self.pend = b''
        self.stalls = []          # intervals in which the client did not read
        w.cli_conns.append(self)
        w.sim.at(t, self.open)

    # -- client actions
    def listener(self):
        sim = self.w.sim
        if isinstance(self.path, tuple):
            return self.w.net.listeners.get(self.path)
        return sim.unix.get(self.path)

    def open(self):
        l = self.listener()
        if l is None or l.closed:
            return
        s = self.sock = SimSocket(l.family)
        s.peer = self
        s.raddr = ('10.9.0.%d' % self.n, 5000) if l.family == AF_INET else ''
        s.laddr = l.laddr
        self.t_open = self.w.sim.t()
        self.w.sim.log('CONSOLE', self.n, 'open')
        self.w.sim.mark('k')
        l.rx.append((s, s.raddr))
        seams._notify(l)
        self.next()

    def next(self):
        if not self.plan or self.gone is not None:
            return
        d, act, arg = self.plan.pop(0)
        self.w.sim.at(d, self.act, act, arg)

    def act(self, act, arg):
        sim = self.w.sim
        t = sim.t()
        if self.gone is not None:
            return
        sim.log('CONSOLE', self.n, act, arg if not isinstance(arg, bytes) else arg[:60])
        if act == 'cmd':
            parts = [arg + b'\n']
            if self.chunky:
                k = sim.ch.pick('con.cut', 4)
                for i in range(k):
                    p = parts.pop()
                    c = 1 + sim.ch.pick('con.at', max(1, len(p) - 1))
                    parts += [p[:c], p[c:]]
            self.send(parts)
            return
        if act == 'raw':
            self.feed(arg)
        elif act == 'half':
            sim.fault('console_half_close')
            self.half = t
            self.sock.feed_eof()
        elif act == 'close':
            sim.fault('console_close')
            self.gone = (t, 'close')
            self.sock.feed_eof()
            self.unslow()
        elif act == 'reset':
            sim.fault('console_reset')
            self.gone = (t, 'reset')
            self.sock.rbuf = b''
            self.sock.feed_eof(ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
            self.unslow()
        elif act == 'slow':
            sim.fault('console_not_reading')
            self.slow = True
            self.stalls.append([t, t + arg])
            sim.at(arg, self.unslow)
        self.next()

    def unslow(self):
        self.slow = False
        seams._notify(self.sock)

    def send(self, parts):
        if self.gone is not None:
            return
        p = parts.pop(0)
        if p:
            self.feed(p)
        if parts:
            self.w.sim.at(self.w.sim.ch.choice('con.gap', (0.0, 0.001, 0.2)), self.send, parts)
        else:
            self.next()

    def feed(self, data):
        if self.half is not None or self.srv_close is not None:
            return
        t = self.w.sim.t()
        self.pend += data
        while b'\n' in self.pend:
            l, self.pend = self.pend.split(b'\n', 1)
            if self.bad is None and l.strip():
                self.cmds.append(dict(text=l.strip(), t=t, n=len(self.w.ev)))
        try:
            data.decode('ascii')
        except UnicodeDecodeError:
            if self.bad is None:
                self.bad = t
        self.sock.feed(data)

    # -- what the server does with the connection
    def on_send(self, sock, data):
        sim = self.w.sim
        while True:
            if self.gone is not None:
                raise (ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer') if self.gone[1] == 'reset' and not sock.opts.get('rst')
                       else BrokenPipeError(errno.EPIPE, 'Broken pipe'))
            if not self.slow:
                break
            sock.watch.append(sim.wake_token())
            sim.wait('console-send')
            if sock.closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if sock.shut:
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if data and self.chunky and sim.ch.flip('con.part', 0.4):
            sim.fault('console_short_write')
            data = data[:1 + sim.ch.pick('con.partn', len(data))]
        if data:
            self.rx.append((sim.t(), len(self.w.ev), data))
        return len(data)

    def on_close(self, sock):
        if self.srv_close is None:
            self.srv_close = self.w.sim.t()
            self.w.sim.log('CONSOLE', self.n, 'closed by the server')

    # -- reading back
    def text(self):
        return b''.join(x[2] for x in self.rx).decode('ascii', 'replace')

    def when(self, pos):
        """(t, n) at which byte pos of the output was sent"""
        k = 0
        for t, n, d in self.rx:
            k += len(d)
            if pos < k:
                return t, n
        return self.rx[-1][:2] if self.rx else (0, 0)


CMD = re.compile(r'ERROR: [^\n]*\n|OK\n')
LIST = re.compile(r'In-memory calls:\n(?:(?!Total: )[^\n]*\n)*Total: (\d+)\n')
LT = re.compile(r'In-memory server transactions:\n((?:\([^\n]*\n)*)In-memory client transactions:\n((?:\([^\n]*\n)*)')


def expected(text):
    a = text.decode('ascii', 'replace').split()
    c = a[0].lower()
    if c in ('l', 'lt', 'llt', 'q'):
        return c, a
    if c == 'd':
        return ('d' if len(a) == 2 else 'err'), a
    if c == 'r':
        if len(a) not in (2, 3):
            return 'err', a
        try:
            [int(x) for x in a[1:]]
        except ValueError:
            return 'err', a
        return 'r', a
    return 'err', a


def parse_call(l):
    m = re.match(r'(\S+): (\w+) \((.*) -> (.*)\)$', l)
    return m.groups() if m else None


def c25(w):
    """every command is answered, rightly, in time; nothing else happens"""
    ops = []
    for c in w.cli_conns:
        if c.sock is None:
            continue
        yield from console(w, c, ops)
    yield from unprovoked(w, ops)


def alive_at(A, t0n, t1n):
    """the call was there all the time between the two wire positions"""
    ea, why = a_end(A)
    a = A.attempts[-1]
    return a.inv.n < t0n and (ea is None or ea.n >= t1n)


def console(w, c, ops):
    txt = c.text()
    pos = 0
    prev_t = c.t_open
    end = w.exit_t
    stop_t = min([t for t in [c.gone[0] if c.gone else None, c.bad] if t is not None] or [1e9])
    quit_t = None
    quit_lo = 0
    for k in c.cmds:
        kind, a = expected(k['text'])
        t0, n0 = k['t'], k['n']           # executed no sooner than this
        # time by which the answer is due
        due = max(t0, prev_t) + delta(w, max(t0, prev_t))
        for x, y in c.stalls:
            if x < due:
                due = max(due, y + delta(w, y))
        if kind == 'q':
            quit_t = due
            quit_lo = k['t']
            for x in c.cmds[c.cmds.index(k) + 1:]:        # carried out or not, as it happens
                if expected(x['text'])[0] == 'd':
                    ops.append((x['text'].decode().split()[1], x['t'], None, c.n))
            break
        rest = txt[pos:]
        m = (LIST if kind == 'l' else LT if kind in ('lt', 'llt') else CMD).match(rest)
        if m is None:
            if due >= stop_t or due >= end or w.stopping(due):
                # the answer may have been lost with the connection
                if rest and not c.gone and c.bad is None and not any(rest.startswith(x[:len(rest)]) for x in ('ERROR', 'OK\n', 'In-memory')):
                    yield ('garbled', 'console %d: %r answered %r' % (c.n, k['text'], rest[:80]))
                pos = len(txt)
                if kind == 'd':
                    ops.append((a[1], k['t'], None, c.n))
                quit_t = quit_t or 1e9
                continue
            if rest:
                yield ('garbled', 'console %d: %r answered %r' % (c.n, k['text'], rest[:80]))
            else:
                yield ('unanswered', 'console %d: %r (sent at %.3f) has got no answer' % (c.n, k['text'], k['t']))
            return
        t1, n1 = c.when(pos)
        tl = c.when(pos + m.end() - 1)[0]
        if tl > due:
            yield ('late', 'console %d: %r sent at %.3f answered at %.3f' % (c.n, k['text'], k['t'], tl))
        if stop_t < t1:
            pass
        body = m.group(0)
        pos += m.end()
        if kind == 'l':
            yield from judge_list(w, c, body, t0, n0, t1, n1)
        elif kind in ('lt', 'llt'):
            yield from judge_lt(w, c, kind, m, t0, n0, t1, n1)
        elif kind == 'err':
            if not body.startswith('ERROR'):
                yield ('wrong-answer', 'console %d: %r answered %r' % (c.n, k['text'], body))
        elif kind == 'r':
            if w.cli_r is not None:
                yield from w.cli_r(w, c, a, body, t0, n0, t1, n1)
            elif int(a[1]) > 1000 and not body.startswith('ERROR'):
                yield ('wrong-answer', 'console %d: %r answered %r' % (c.n, k['text'], body))
        else:
            if a[1] == '*':
                if body != 'OK\n':
                    yield ('wrong-answer', 'console %d: %r answered %r' % (c.n, k['text'], body))
                ops.append((a[1], t0, t1, c.n))
                yield from torn_all(w, None, n0, t0, t1, 'disconnected by the operator')
            else:
                A = None
                for x in V(w).A():
                    if x.callid == a[1]:
                        A = x
                if body == 'OK\n':
                    ops.append((a[1], t0, t1, c.n))
                    if A is None or A.attempts[-1].inv.n > n1:
                        yield ('wrong-answer', 'console %d: %r answered OK, there is no such call' % (c.n, k['text']))
                    else:
                        yield from torn_all(w, A, n0, t0, t1, 'disconnected by the operator')
                elif A is not None and alive_at(A, n0, n1):
                    yield ('wrong-answer', 'console %d: %r answered %r while the call is in progress' % (c.n, k['text'], body))
        prev_t = t1
    if quit_t is None and pos < len(txt) and c.gone is None and c.bad is None:
        yield ('extra-output', 'console %d got %r for no command' % (c.n, txt[pos:][:80]))
    over = [t for t in (c.gone[0] if c.gone else None, c.half, c.bad, quit_t) if t is not None]
    if not over:
        if c.srv_close is not None and not w.stopping(c.srv_close + 1) and c.srv_close < end:
            yield ('dropped', 'console %d was disconnected by the server at %.3f' % (c.n, c.srv_close))
    elif quit_t is None or quit_t < 1e9:
        t = min(over)
        lim = t + delta(w, t)
        for x, y in c.stalls:
            if x < lim:
                lim = max(lim, y + delta(w, y))
        if end > lim + 0.5 and not w.stopping(lim) and (c.srv_close is None or c.srv_close > lim) and c.accepted:
            yield ('not-closed', 'console %d is over since %.3f, the server keeps the connection' % (c.n, t))
        if c.srv_close is not None and c.srv_close < min(over + [1e9] if quit_t is None else [x for x in over if x is not quit_t] + [quit_lo]) - 0.001:
            yield ('dropped', 'console %d was disconnected by the server at %.3f' % (c.n, c.srv_close))


def torn_all(w, only, n0, t0, t1, what):
    """the calls (all that were there) are torn down at once on both legs"""
    lim = t1 + 0.05 + stalled(w, t0 - 60, t1 + 60)
    end = w.exit_t
    if end < lim or w.result == 'aborted':
        return
    for A, Bs in V(w).pairs():
        if only is not None and A is not only or A.call is None:
            continue
        a = A.attempts[-1]
        if a.inv.n >= n0:
            continue
        ea, why = a_end(A)
        byes = [x for x in [b_bye(B) for B in Bs] if x is not None]
        if byes and min(x.n for x in byes) < n0:
            continue
        if ea is None or ea.t > lim:
            if a.first_final is not None and a.first_final.m.code >= 300:
                continue
            yield ('call-survives', 'call %s was %s (%.3f) and is not torn down (%s)' % (A.callid, what, t1, ea))
        for B in Bs:
            b = B.attempts[-1]
            ff = b.first_final
            if b.t > lim:
                yield ('attempt-after', 'outbound attempt %s made at %.3f, call %s (%.3f)' % (b.callid, b.t, what, t1))
                continue
            if ff is not None and ff.n < n0 and ff.m.code < 300 and not tx_late(b, ff):
                by = b_bye(B)
                if by is None or by.t > lim:
                    yield ('b-survives', 'outbound leg %s of a call %s (%.3f) got no BYE' % (b.callid, what, t1))
            elif ff is None or ff.n > n0:
                pr = [p for p in b.provs if p.t < b.t + 31.9]
                cut = max(lim, pr[0].t + 0.05 + stalled(w, t0 - 60, pr[0].t + 60)) if pr else None
                cs = [x for x in b.cancels if x.d == 'o']
                if pr and end > cut and (ff is None or ff.t > cut) and not (cs and cs[0].t <= cut) and b.t + 290 > cut:
                    yield ('b-ringing', 'outbound attempt %s was ringing when its call was %s (%.3f) and got no CANCEL' % (b.callid, what, t1))


def judge_list(w, c, body, t0, n0, t1, n1):
    lines = body.split('\n')[1:-2]
    tot = int(LIST.match(body).group(1))
    got = {}
    for l in lines:
        p = parse_call(l)
        if p is None:
            yield ('garbled', 'console %d: line %r in the list of calls' % (c.n, l))
            continue
        got.setdefault(p[0], []).append(p)
    if tot != len(lines):
        yield ('wrong-list', 'console %d: total %d, %d lines' % (c.n, tot, len(lines)))
    seen = {}
    for A, Bs in V(w).pairs():
        seen[A.callid] = (A, Bs)
    for cid, ps in got.items():
        if cid == 'None':
            continue
        if cid not in seen or seen[cid][0].attempts[0].inv.n > n1:
            yield ('wrong-list', 'console %d: call %s listed at %.3f, there is none' % (c.n, cid, t1))
        elif len(ps) > len(seen[cid][0].attempts):
            yield ('wrong-list', 'console %d: call %s listed %d times' % (c.n, cid, len(ps)))
    for cid, (A, Bs) in seen.items():
        ea, why = a_end(A)
        a = A.attempts[-1]
        ps = got.get(cid)
        if alive_at(A, n0, n1):
            if not ps:
                yield ('wrong-list', 'console %d: call %s in progress at %.3f is not listed' % (c.n, cid, t1))
                continue
            st = ps[-1][1]
            ff = a.first_final
            if ff is not None and ff.n < n0 and ff.m.code < 300 and not [1 for B in Bs if b_bye(B) is not None and b_bye(B).n <= n1] \
                    and st != 'Connected':
                yield ('wrong-list', 'console %d: call %s is up at %.3f, listed as %s' % (c.n, cid, t1, st))
            if ff is None and st in ('Connected', 'Dead') and not [1 for B in Bs if B.answered]:
                yield ('wrong-list', 'console %d: call %s is being set up at %.3f, listed as %s' % (c.n, cid, t1, st))
            legA, legO = ps[-1][2:]
            x = legA.split()
            if len(x) != 4 or x[1].split(':')[1:2] != [A.peer[0]] or set(x[2:]) != set([A.call.caller['cli'], A.call.caller['cld']]):
                yield ('wrong-list', 'console %d: caller leg of %s listed as %r' % (c.n, cid, legA))
            up = [B for B in Bs if B.attempts[0].inv.n < n0]
            new = [B for B in Bs if n0 <= B.attempts[0].inv.n <= n1]
            if not new:
                if not up and legO != 'N/A' or up and len(legO.split()) != 4:
                    yield ('wrong-list', 'console %d: outbound leg of %s listed as %r' % (c.n, cid, legO))
                elif up and legO.split()[1].split(':')[1:2] != [up[-1].peer[0]]:
                    yield ('wrong-list', 'console %d: outbound leg of %s is to %s, listed as %r' % (c.n, cid, up[-1].peer[0], legO))
        elif ea is not None and ps and ea.n < n0 and ea.t < t0 - delta(w, ea.t):
            if ps[-1][1] in ('Connected', 'ARComplete', 'WaitRoute') and why != 'by-b':
                yield ('wrong-list', 'console %d: call %s was over at %.3f, listed as %s at %.3f' % (c.n, cid, ea.t, ps[-1][1], t1))


def judge_lt(w, c, kind, m, t0, n0, t1, n1):
    srv, cli = m.group(1), m.group(2)
    mind = 60.0 if kind == 'llt' else 0.0
    for l in (srv + cli).split('\n'):
        if not l:
            continue
        x = l.rsplit(')', 1)[1].split()
        if kind == 'llt':
            try:
                if float(x[-1]) < 60.0:
                    raise ValueError
            except (ValueError, IndexError):
                yield ('wrong-list', 'console %d: %r listed as older than a minute' % (c.n, l[:120]))
        elif len(x) < 2:
            yield ('garbled', 'console %d: line %r in the list of transactions' % (c.n, l[:120]))
    v = V(w)
    for A in v.A():
        a = A.attempts[-1]
        ff = a.first_final
        if a.inv.n < n0 and t0 - a.t > mind + 0.05 + stalled(w, a.t - 60, a.t + 5) and (ff is None or ff.n > n1):
            if "'%s'" % a.callid not in srv:
                yield ('wrong-list', 'console %d: INVITE of %s is pending, not among the server transactions' % (c.n, a.callid))
    for B in v.B():
        a = B.attempts[-1]
        ff = a.first_final
        if a.inv.n < n0 and t0 - a.t > mind + 0.05 and (ff is None or ff.n > n1) and (t1 - a.t < 31.9 or kind == 'lt' and a.provs and t1 - a.t < 31.9):
            if "'%s'" % a.callid not in cli:
                yield ('wrong-list', 'console %d: INVITE of %s is pending, not among the client transactions' % (c.n, a.callid))


def unprovoked(w, ops=()):
    """the server hangs up an answered call only for a reason"""
    v = V(w)
    for A, Bs in v.pairs():
        f = A.answered
        if f is None or A.call is None:
            continue
        by = A.find('o', 'BYE')
        cause = None
        if by is None:
            # then the callee's leg must not be hung up either
            for B in Bs:
                bb = B.find('o', 'BYE')
                if bb is not None and B.answered is not None and A.find('i', 'BYE') is None and bb.n > f.n and \
                        not [1 for x in ops if x[0] in ('*', A.callid)] and not w.signals_sent and w.max_credit is None and \
                        B is Bs[-1] and w.acked(A):
                    yield ('unprovoked', 'callee of %s hung up on at %.3f' % (A.callid, bb.t))
            continue
        if any(b_bye(B) is not None and B.find('i', 'BYE') is not None and B.find('i', 'BYE').n < by.n for B in Bs):
            continue
        if [1 for t, s in w.signals_sent if t <= by.t] or [1 for x in ops if x[0] in ('*', A.callid) and x[1] <= by.t]:
            continue
        if not w.acked(A) or w.max_credit is not None or not w.no_credit:
            continue
        yield ('unprovoked', 'caller of %s hung up on at %.3f' % (A.callid, by.t))
