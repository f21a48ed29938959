"""World: the real sippy.b2bua.main_func() running inside the simulator,
surrounded by simulated phones, gateways, RADIUS helper processes, media
relays and operator consoles, plus the recorded history the oracles read."""
import gc, os, re, signal, sys, traceback
from . import seams, sipmsg
from .core import NS, SimStop, SimDeadlock, StepBudget, Sim, Chooser
from .seams import S, ChildModel, SimExec
from .net import Net, NetCfg
from .endpoints import Endpoint, Caller, Callee
from .sipmsg import parse, user_of, uri_of

B2B = ('10.0.0.1', 5060)


class Ev(object):
    """One wire event of the B2BUA's SIP socket. d: 'i' (processed) / 'o' (sent)."""
    __slots__ = ('n', 't', 'd', 'm', 'peer', 'raw')

    def __init__(self, n, t, d, m, peer, raw):
        self.n, self.t, self.d, self.m, self.peer, self.raw = n, t, d, m, peer, raw

    def __repr__(self):
        return '%.3f %s %s:%d %s' % (self.t, {'i': '<-', 'o': '->'}[self.d], self.peer[0], self.peer[1], self.m.brief())


class RadiusChild(ChildModel):
    def __init__(self, popen, args, w):
        ChildModel.__init__(self, popen, args)
        self.w = w
        self.cur = []
        self.id = len(w.radius)
        self.jobs = 0
        w.radius.append(self)

    def on_line(self, line):
        l = line.decode('utf-8', 'replace')
        if l.strip() == '':
            job, self.cur = self.cur, []
            if job:
                self.jobs += 1
                self.w.radius_job(self, job)
            return
        self.cur.append(l)

    def reply(self, data):
        self.emit(data)


def parse_job(lines):
    kind = lines[0].strip()
    attrs = []
    for l in lines[1:]:
        n, s, v = l.partition('=')
        v = v.strip()
        if v[:1] == '"' and v[-1:] == '"':
            v = v[1:-1]
        attrs.append((n.strip(), v))
    return kind, attrs


def attr(attrs, name):
    for n, v in attrs:
        if n == name:
            return v
    return None


def avpair(attrs, key):
    for n, v in attrs:
        if n == 'Cisco-AVPair' and v.startswith(key + '='):
            return v[len(key) + 1:]
    return None


def h323(attrs, key):
    v = attr(attrs, key)
    if v is None:
        return None
    if v.startswith(key + '='):
        v = v[len(key) + 1:]
    return v


class CallPlan(object):
    """One planned call: caller plan, routes [(host, params, callee plan)], auth plan"""

    def __init__(self, n, t, caller, routes, auth=None):
        self.n, self.t, self.caller, self.routes = n, t, caller, routes
        self.auth = auth or {}
        self.callid = 'call%d@10.1.0.%d' % (n, 1 + n % 3)
        self.leg = None
        self.blegs = []           # Callee objects in order of creation
        self.auth_seen = []       # times at which AUTH jobs for it were seen


class World(object):
    def __init__(self, sim, ch, netcfg=None, opts=(), auth=True, acct=True, start_acct=False, static=None,
                 radius_workers=1, digest=True, nworkers=1, cli=True):
        self.sim, self.ch = sim, ch
        self.net = Net(sim, netcfg or NetCfg())
        S.net = self.net
        sim.on_exec = self._on_exec
        self.ev = []
        self.notes = []
        self.presend = []
        self.badwire = []
        self.radius = []
        self.auth_jobs = []       # dicts
        self.acct = []            # dicts t, kind(Start/Stop/Alive), origin, callid, attrs
        self.calls = []
        self.bycid = {}
        self.eps = {}
        self.result = None
        self.exc = None
        self.exit_t = None
        self.signals_sent = []
        self.global_config = None
        self.auth_enable, self.acct_enable, self.start_acct, self.static = auth, acct, start_acct, static
        self.opts = list(opts)
        self.radius_workers = radius_workers
        self.digest = digest
        self.nworkers = nworkers
        self.radius_hook = None
        self.rtpp = []
        self.acct_delay = 0.01
        self.net.on_sent.append(self._on_sent)
        self.net.on_proc.append(self._on_proc)
        self.net.on_dlv.append(self._on_dlv)
        self.other_sent = []
        self.max_credit = None
        self.nat = None               # phones behind NATs: 'rport' or 'full' (--nat_traversal)
        self.strict_reinv = False
        self.digest_calls = False
        for i, o in enumerate(self.opts):
            if o == '-m':
                self.max_credit = int(self.opts[i + 1])
        S.popen = self._popen
        self.on_ev = []
        self.disp = []
        self.cli_conns = []

    # -- process under test ------------------------------------------------
    def argv(self):
        a = ['b2bua', '-f', '-l', B2B[0], '-p', str(B2B[1]), '-c', '/simfs/b2bua.sock', '-P', '/simfs/b2bua.pid']
        if not self.auth_enable:
            a.append('-u')
        if self.static:
            a += ['-s', self.static]
        a += ['-A', '0' if not self.acct_enable else ('2' if self.start_acct else '1')]
        a += ['-M', str(self.radius_workers)]
        if not self.digest:
            a.append('-D')
        a += self.opts
        return a

    def start(self, until):
        """Run main_func() until simulated time `until` (or exit)."""
        import sippy.b2bua as B
        from sippy.Udp_server import Udp_server_opts
        from sippy.Core.EventDispatcher import ED2
        w = self
        sim = self.sim
        Udp_server_opts.nworkers = self.nworkers
        self._wrap_send()
        sim.stop_at = sim.t0 + int(until * NS)
        sys.argv = self.argv()
        # B.MyConfigParser is looked up by main_func at call time
        Base = B.MyConfigParser
        class Conf2(Base):
            def __init__(s, *a, **kw):
                Base.__init__(s, *a, **kw)
                w.global_config = s
        B.MyConfigParser = Conf2
        try:
            B.main_func()
            self.result = 'return'
        except SimStop:
            self.result = 'stop' if sim.aborted is None else 'aborted'
        except SimExec:
            self.result = 'exec'
        except SystemExit as e:
            self.result = 'sysexit'
            self.exc = e
        except (SimDeadlock, StepBudget) as e:
            self.result = 'deadlock'
            self.exc = e
        except BaseException as e:
            self.result = 'exception'
            self.exc = e
            self.exc_tb = traceback.format_exc()
        finally:
            B.MyConfigParser = Base
        self.exit_t = sim.t()
        if sim.harness_error:
            raise RuntimeError('harness error: %s' % sim.aborted)
        return self.result

    def stopping(self, t):
        """the process had ended (or was told to end) by t"""
        return self.result not in ('stop', 'aborted') and t > self.exit_t - 0.3 or \
            any(sg in (signal.SIGTERM, signal.SIGINT) and t >= ts - 0.001 for ts, sg in self.signals_sent)

    def crashed(self):
        """Text when the server died or wedged on its own, else None."""
        sim = self.sim
        if self.result == 'exception':
            return 'server loop ended by exception: ' + self.exc_tb[-1500:]
        if self.result == 'deadlock':
            return 'event loop blocked: %s' % self.exc
        if self.result == 'aborted':
            return 'run aborted: %s' % sim.aborted
        if self.result == 'sysexit':
            return 'server exited: %r' % self.exc
        return None

    # -- wire ----------------------------------------------------------------
    def _on_exec(self, fn, args):
        self.net.note_exec(fn, args)

    def _wrap_send(self):
        # Datagrams leave through sender threads; what counts for ordering
        # against processed input is the moment the stack hands them over.
        import sippy.Udp_server as U
        w = self
        orig = U.Udp_server.send_to

        def send_to(srv, data, address, *a, **kw):
            if not a and not kw and isinstance(address, tuple) and (getattr(srv.uopts, 'laddress', None) or (0, 0))[1] == B2B[1]:
                d = data if isinstance(data, bytes) else str(data).encode('utf-8')
                dst = (address[0], int(address[1]))
                w.presend.append((dst, d))
                w._rec_out(w.sim.t(), dst, d)
            return orig(srv, data, address, *a, **kw)
        U.Udp_server.send_to = send_to

    def _on_sent(self, rec):
        seq, t, src, dst, data = rec
        if src != B2B:
            self.other_sent.append(rec)
            return
        if (dst, data) in self.presend:
            self.presend.remove((dst, data))
            return
        self._rec_out(t, dst, data)

    def _rec_out(self, t, dst, data):
        try:
            m = parse(data)
        except Exception as e:
            self.badwire.append((t, dst, data, repr(e)))
            return
        if m.short > 0:
            self.badwire.append((t, dst, data, 'Content-Length promises %d bytes more than are there' % m.short))
        e = Ev(len(self.ev), t, 'o', m, dst, data)
        self.ev.append(e)
        self.sim.log('OUT', dst[0], m.brief(), m.callid)
        self.sim.mark('o%s' % (m.method or m.code))
        for f in self.on_ev:
            f(e)

    def _on_proc(self, src, dst, data):
        if dst != B2B:
            return
        try:
            m = parse(data)
            m.brief()
        except Exception:
            m = sipmsg.Msg('?', '?')
        e = Ev(len(self.ev), self.sim.t(), 'i', m, src, data)
        self.ev.append(e)
        self.sim.log('IN', src[0], m.brief(), m.callid)
        self.sim.mark('i%s' % (m.method or m.code))
        for f in self.on_ev:
            f(e)

    def _on_dlv(self, src, dst, data):
        pass

    def bad_wire(self, ep, data, e):
        self.badwire.append((self.sim.t(), ep.addr, data, repr(e)))

    def note(self, kind, leg, m):
        self.notes.append((self.sim.t(), kind, leg.callid, m.brief()))

    # -- endpoints -------------------------------------------------------------
    def ep(self, ip, port=5060):
        e = self.eps.get((ip, port))
        if e is None:
            e = self.eps[(ip, port)] = Endpoint(self, ip, port)
            if ip.startswith(('10.2.', '198.51.100.')):
                e.on_invite = self._callee
            if self.nat and ip.startswith(('198.51.100.', '203.0.113.')):
                n = int(ip.split('.')[-1])
                e.priv = ('172.31.0.%d' % n, 5080 if n % 2 else 5060)
                e.nat = self.nat
                e.rport = n % 3 != 0 or self.nat == 'rport'
        return e

    def _callee(self, ep, m, src):
        u = user_of(m.uri) or ''
        mm = re.match(r'd(\d+)(?:r(\d+))?$', u)
        if mm is None:
            self.notes.append((self.sim.t(), 'unknown-callee', m.callid, m.brief()))
            return None
        n = int(mm.group(1))
        if n >= len(self.calls):
            self.notes.append((self.sim.t(), 'unknown-callee', m.callid, m.brief()))
            return None
        c = self.calls[n]
        if mm.group(2) is not None:
            k = int(mm.group(2))
        else:
            k = 0
            for i, r in enumerate(c.routes):
                if r[0] == ep.ip:
                    k = i
        plan = dict(c.routes[k][2]) if k < len(c.routes) else {}
        plan = {x: (list(y) if isinstance(y, list) else y) for x, y in plan.items()}
        if plan.get('silent'):
            self.sim.fault('callee_silent')
            return None
        leg = Callee(ep, m, plan, n * 10 + k)
        leg.call, leg.route = c, k
        leg.rrn = 50 + n * 10 + k
        c.blegs.append(leg)
        return leg

    def add_call(self, t, caller, routes, auth=None):
        """routes: [(ip, params-string, callee-plan)]"""
        n = len(self.calls)
        c = CallPlan(n, t, caller, routes, auth)
        caller.setdefault('cli', 'c%d' % n)
        caller.setdefault('cld', 'd%d' % n)
        caller.setdefault('dst', B2B)
        self.calls.append(c)
        if caller.get('callid'):
            c.callid = caller['callid']
        self.bycid[c.callid] = c
        ep = self.ep(caller.get('ip', '10.1.0.%d' % (1 + n % 3)))
        for r in routes:
            if r[0] == 'sip-ua':
                ep.on_invite = self._callee
            else:
                self.ep(r[0])
        c.leg = Caller(ep, c.callid, caller)
        c.leg.call = c
        c.leg.media_port = 20000 + n * 2
        c.leg.rrn = n
        c.leg.sdp_sid = 100 + n
        self.sim.at(t, self._start_call, c)
        return c

    def _start_call(self, c):
        self.sim.mark('C%d' % c.n)
        c.leg.start()

    # -- RADIUS ------------------------------------------------------------------
    def _popen(self, p, args):
        return RadiusChild(p, args, self)

    def find_call(self, cid):
        if cid is None:
            return None
        return self.bycid.get(cid)

    def radius_job(self, child, lines):
        sim = self.sim
        kind, attrs = parse_job(lines)
        cid = avpair(attrs, 'call-id')
        if cid is None:
            cid = h323(attrs, 'call-id')
        c = self.find_call(cid)
        rec = dict(t=sim.t(), kind=kind, attrs=attrs, callid=cid, call=c, child=child, n=len(self.ev))
        sim.log('RADIUS', kind, cid, attr(attrs, 'Acct-Status-Type') or '', h323(attrs, 'h323-call-origin') or '')
        sim.mark('R%s' % kind)
        if kind == 'AUTH':
            self.auth_jobs.append(rec)
            if c is not None:
                c.auth_seen.append(sim.t())
        else:
            rec['status'] = attr(attrs, 'Acct-Status-Type')
            rec['origin'] = h323(attrs, 'h323-call-origin')
            self.acct.append(rec)
        if self.radius_hook is not None and self.radius_hook(child, rec):
            return
        if kind == 'AUTH':
            a = c.auth if c is not None else {}
            sim.at(a.get('delay', 0.01), self.auth_reply, child, rec, a)
        else:
            sim.at(self.acct_delay, child.reply, b'0\n\n')

    def route_str(self, c, k):
        ip, params = c.routes[k][0], c.routes[k][1]
        s = 'd%dr%d@%s' % (c.n, k, ip)
        if params:
            s += ';' + params
        return s

    def auth_reply(self, child, rec, a):
        c = rec['call']
        if a.get('mode', 'accept') == 'reject':
            rec['reply'] = 'reject'
            rec['rt'] = self.sim.t()
            child.reply(b'1\n\n')
            return
        out = []
        if c is not None:
            for k in range(len(c.routes)):
                out.append("h323-ivr-in = 'Routing:%s'" % self.route_str(c, k))
        for n, v in a.get('attrs', ()):
            out.append("%s = '%s'" % (n, v))
        rec['reply'] = 'accept'
        rec['rt'] = self.sim.t()
        child.reply(('\n'.join(out + ['0', '', ''])).encode())

    # -- signals -------------------------------------------------------------------
    def signal(self, signum):
        self.signals_sent.append((self.sim.t(), signum))
        self.sim.log('SIGNAL', signum)
        self.sim.mark('S%d' % signum)
        seams.raise_signal(signum)
        # a signal interrupts the loop's sleep
        if self.sim.main.blocked == 'loop' and not self.sim.main.ready:
            self.sim._mkready(self.sim.main)

    # -- auth helpers (overridden by the checks that need them)
    def mkauth(self, leg, resp, req):
        from . import digest
        v = resp.get('www-authenticate')
        user, pw = leg.plan['auth'][:2]
        return digest.answer(v, 'INVITE', req.uri, user, pw)

    def check_auth(self, leg, m, ch):
        leg.auth_checked = m.get('authorization') or m.get('proxy-authorization')
