"""TMWorld: the real SipTransactionManager (with the real UDP server, threads,
timers and parsers under it) as the system under test. The harness plays its
user (the call-backs) on one side and scripted peers on the other."""
import traceback
from .core import NS, SimStop, SimDeadlock, StepBudget
from .seams import S, SimExec
from .b2b import World, B2B
from .sipmsg import Msg, parse, response


class CReq(object):
    """A client transaction asked for by the harness."""

    def __init__(self, n, t, method, peer, plan):
        self.n, self.t, self.method, self.peer, self.plan = n, t, method, peer, plan
        self.cbs = []            # (t, len(ev), code, reason, to_tag)
        self.tr = None
        self.branch = None
        self.t0 = None
        self.ev0 = None
        self.cancel_t = None
        self.ack_sent = None
        self.err = None


class SReq(object):
    """A request a peer sends to the stack."""

    def __init__(self, n, t, method, plan):
        self.n, self.t, self.method, self.plan = n, t, method, plan
        self.cbs = []            # times req_cb was called
        self.cancel_cb = []
        self.noack_cb = []
        self.ack_cb = []
        self.tr = None
        self.answered = []       # (t, code) final and provisional answers handed over
        self.dead = False
        self.err = None
        self.first_in = None


class TMWorld(World):
    def __init__(self, sim, ch, netcfg=None, **kw):
        World.__init__(self, sim, ch, netcfg, **kw)
        self.creqs = []
        self.sreqs = []
        self.byid = {}
        self.bybranch = {}
        self.stray = []
        self.stall_log = []
        orig = sim.stall

        def stall(d):
            self.stall_log.append((sim.t(), sim.t() + d))
            orig(d)
        sim.stall = stall

    def start(self, until):
        from sippy.SipTransactionManager import SipTransactionManager
        from sippy.SipLogger import SipLogger
        from sippy.Udp_server import Udp_server_opts
        from sippy.SipConf import SipConf
        from sippy.Core.EventDispatcher import ED2
        sim = self.sim
        Udp_server_opts.nworkers = self.nworkers
        self._wrap_send()
        sim.stop_at = sim.t0 + int(until * NS)
        gc = self.global_config = {'_sip_address': B2B[0], '_sip_port': B2B[1], '_sip_logger': SipLogger('tm')}
        SipConf.my_address, SipConf.my_port, SipConf.my_uaname = B2B[0], B2B[1], 'tm'
        try:
            self.tm = gc['_sip_tm'] = SipTransactionManager(gc, self.req_cb)
            if hasattr(self, 'on_start'):
                self.on_start(gc)
            ED2.loop()
            self.result = 'return'
        except SimStop:
            self.result = 'stop' if sim.aborted is None else 'aborted'
        except SimExec:
            self.result = 'exec'
        except SystemExit as e:
            self.result, self.exc = 'sysexit', e
        except (SimDeadlock, StepBudget) as e:
            self.result, self.exc = 'deadlock', e
        except BaseException as e:
            self.result, self.exc = 'exception', e
            self.exc_tb = traceback.format_exc()
        self.exit_t = sim.t()
        if sim.harness_error:
            raise RuntimeError('harness error: %s' % sim.aborted)
        return self.result

    def stalled(self, t0, t1):
        return sum(max(0.0, min(b, t1) - max(a, t0)) for a, b in self.stall_log)

    def due(self, t, d=0.0):
        """latest instant at which something due at t must have been done"""
        return t + d + 0.05 + self.stalled(t - 5, t + d + 60)

    def onloop(self, t, fn, *a):
        """Run fn inside the event loop at simulated time t (as the user of the
        stack would: from a timer of its own)."""
        from sippy.Core.EventDispatcher import ED2
        self.sim.at(t, lambda: ED2.callFromThread(fn, *a))

    # -- client side -------------------------------------------------------
    def add_client(self, t, method, plan):
        """plan: answers [(delay after first copy, code)], expires, body (bool),
        cancel (delay), uack (delay of the ACK of a 2xx to an offer-less INVITE),
        rr (list of Record-Route uris), nocb"""
        n = len(self.creqs)
        r = CReq(n, t, method, ('10.4.%d.1' % (n + 1), 5060), plan)
        self.creqs.append(r)
        self.net.ends[r.peer] = lambda data, src, dst: self.peer_in(r, data, src, dst)
        for ip in plan.get('aliases', ()):
            self.net.ends[ip] = lambda data, src, dst: self.peer_in(r, data, src, dst)
        r.branches = {}
        self.onloop(t, self.client_go, r)
        return r

    def client_go(self, r):
        from sippy.SipRequest import SipRequest
        from sippy.SipURL import SipURL
        from sippy.SipFrom import SipFrom
        from sippy.SipTo import SipTo
        from sippy.SipAddress import SipAddress
        from sippy.SipCallId import SipCallId
        from sippy.SipContact import SipContact
        from sippy.SipExpires import SipExpires
        from sippy.MsgBody import MsgBody
        sim = self.sim
        ruri = SipURL(username='u%d' % r.n, host=r.peer[0], port=r.peer[1])
        fr = SipFrom(address=SipAddress(url=SipURL(username='me', host=B2B[0], port=B2B[1])))
        fr.genTag()
        to = SipTo(address=SipAddress(url=ruri.getCopy()))
        ct = SipContact(address=SipAddress(url=SipURL(username='me', host=B2B[0], port=B2B[1])))
        body = None
        if r.plan.get('body', True) and r.method in ('INVITE', 'INFO'):
            from .sipmsg import sdp
            body = MsgBody(sdp(B2B[0], 10000, 1, 1))
        kw = {}
        if r.plan.get('expires') is not None:
            kw['expires'] = SipExpires(number=r.plan['expires'])
        req = SipRequest(method=r.method, ruri=ruri, to=to, fr0m=fr, cseq=100 + r.n, callid=SipCallId('out%d' % r.n),
                         contact=ct, body=body, **kw)
        r.branch = req.getHFBody('via').getBranch()
        self.bybranch[r.branch] = r
        r.t0 = sim.t()
        r.ev0 = len(self.ev)
        cb = None
        if not r.plan.get('nocb'):
            if r.plan.get('ifver') == 2:
                cb = lambda resp, t: self.client_cb(r, resp, t)
            else:
                cb = lambda resp: self.client_cb(r, resp, None)
        sim.mark('c' + r.method)
        t = r.tr = self.tm.newTransaction(req, cb, cb_ifver=r.plan.get('ifver', 1))
        if r.plan.get('uack') is not None:
            t.uack = True
        if r.plan.get('cancel') is not None:
            from sippy.Time.Timeout import Timeout
            Timeout(self.client_cancel, r.plan['cancel'], 1, r)

    def client_cancel(self, r):
        if r.cancel_t is not None or any(c[2] >= 200 for c in r.cbs):
            return
        r.cancel_t = self.sim.t()
        r.cancel_ev = len(self.ev)
        self.sim.mark('cX')
        self.tm.cancelTransaction(r.tr)

    def client_cb(self, r, resp, t):
        code, reason = resp.getSCode()
        tag = resp.getHFBody('to').getTag()
        r.cbs.append((self.sim.t(), len(self.ev), code, reason, tag))
        self.sim.log('CB', r.n, code, reason)
        self.sim.mark('b%d' % (code // 100))
        if r.plan.get('uack') is not None and 200 <= code < 300 and reason.startswith('R'):
            d = r.plan['uack']
            if d == 0.0:
                self.client_ack(r)
            else:
                from sippy.Time.Timeout import Timeout
                Timeout(self.client_ack, d, 1, r)

    def client_ack(self, r):
        from sippy.MsgBody import MsgBody
        if r.ack_sent is not None:
            return
        if not r.tr.no_offer:
            return
        r.ack_sent = self.sim.t()
        from .sipmsg import sdp
        r.tr.ack.setBody(MsgBody(sdp(B2B[0], 10000, 1, 1)))
        self.tm.sendACK(r.tr)

    # scripted peer of a client transaction
    def peer_in(self, r, data, src, dst):
        sim = self.sim
        try:
            m = parse(data)
        except Exception as e:
            self.badwire.append((sim.t(), dst, data, repr(e)))
            return
        if not m.is_req:
            return
        key = (m.method, m.branch)
        st = r.branches.get(key)
        if m.method == 'ACK':
            for s in r.branches.values():
                if s['method'] == 'INVITE' and s['m'].cseq == m.cseq:
                    s['acked'] = True
            return
        if st is None:
            st = r.branches[key] = {'method': m.method, 'm': m, 'acked': False, 'last': None, 'n': 0, 'fin': False}
            if m.method == 'CANCEL':
                self.peer_answer(r, st, 200, 0.0)
                inv = [s for s in r.branches.values() if s['method'] == 'INVITE']
                if inv and not inv[0]['fin'] and r.plan.get('on_cancel', '487') == '487':
                    sim.at(r.plan.get('cancel_lag', 0.02), self.peer_answer, r, inv[0], 487, None)
                return
            for d, code in r.plan.get('answers', ()):
                sim.at(d, self.peer_answer, r, st, code, None)
            return
        st['n'] += 1
        if st['last'] is not None and not r.plan.get('deaf'):
            self.net.inject(r.peer, B2B, st['last'])

    def peer_answer(self, r, st, code, _):
        if st['fin']:
            return
        m = st['m']
        ex = []
        for u in r.plan.get('rr', ()):
            ex.append(('record-route', '<%s>' % u))
        resp = response(m, code, 'R%d' % code, to_tag=None if code == 100 else 'p%d' % r.n,
                        contact=r.plan.get('contact', 'sip:ct%d@%s:%d' % (r.n, r.peer[0], r.peer[1])) if m.method != 'CANCEL' else None,
                        extra=ex if m.method == 'INVITE' and code > 100 else ())
        if code >= 200:
            st['fin'] = True
        st['last'] = resp.encode()
        self.net.inject(r.peer, B2B, st['last'])
        if code >= 200 and m.method == 'INVITE':
            self.sim.at(0.5, self.peer_rep, r, st, 0.5, self.sim.t())

    def peer_rep(self, r, st, d, t0):
        if st['acked'] and not r.plan.get('repeat_anyway'):
            return
        if self.sim.t() - t0 > 31.0:
            return
        self.net.inject(r.peer, B2B, st['last'])
        d = min(4.0, d * 2)
        self.sim.at(d, self.peer_rep, r, st, d, t0)

    # -- server side -------------------------------------------------------
    def add_server(self, t, method, plan):
        """plan: answers [(delay, code)] (delay 0.0: returned from the call-back),
        dups [delays of repeats after the first copy], ack (None never | delay),
        acklose (number of finals ignored before ACKing), cancel (delay), expires,
        stray (send a CANCEL only)"""
        n = len(self.sreqs)
        r = SReq(n, t, method, plan)
        r.addr = ('10.5.%d.1' % (n + 1), 5060)
        r.callid = 'in%d' % n
        self.sreqs.append(r)
        self.byid[r.callid] = r
        self.net.ends[r.addr] = lambda data, src, dst: self.uac_in(r, data)
        r.finals = 0
        r.acked = False
        self.sim.at(t, self.uac_go, r)
        return r

    def uac_go(self, r):
        m = Msg(method=r.method, uri='sip:x%d@10.0.0.1:5060' % r.n)
        r.branch = 'z9hG4bKs%d' % r.n
        m.add('via', 'SIP/2.0/UDP %s:%d;branch=%s' % (r.addr[0], r.addr[1], r.branch))
        if r.plan.get('via2'):
            m.add('via', 'SIP/2.0/UDP 10.9.9.9:5060;branch=z9hG4bKv%d' % r.n)
        m.add('max-forwards', '70')
        m.add('from', '<sip:a@10.5.0.1>;tag=f%d' % r.n)
        m.add('to', '<sip:x%d@10.0.0.1>' % r.n + (';tag=x%d' % r.n if r.plan.get('indlg') else ''))
        m.add('call-id', r.callid)
        m.add('cseq', '%d %s' % (7 + r.n, r.method))
        m.add('contact', '<sip:a@%s:%d>' % r.addr)
        if r.plan.get('expires') is not None:
            m.add('expires', str(r.plan['expires']))
        r.m = m
        r.data = m.encode()
        if r.plan.get('stray'):
            r.stray = True
            self.uac_cancel(r)
            return
        self.net.inject(r.addr, B2B, r.data)
        for d in r.plan.get('dups', ()):
            self.sim.at(d, self.uac_dup, r)
        if r.plan.get('cancel') is not None:
            self.sim.at(r.plan['cancel'], self.uac_cancel, r)

    def uac_dup(self, r):
        self.sim.fault('retransmit')
        self.net.inject(r.addr, B2B, r.data)

    def uac_cancel(self, r):
        if r.finals:
            return
        c = Msg(method='CANCEL', uri=r.m.uri)
        c.add('via', r.m.get('via'))
        c.add('max-forwards', '70')
        for h in ('from', 'to', 'call-id'):
            c.add(h, r.m.get(h))
        c.add('cseq', '%d CANCEL' % r.m.cseq)
        d = c.encode()
        self.net.inject(r.addr, B2B, d)
        for x in r.plan.get('canceldups', ()):
            self.sim.at(x, self.net.inject, r.addr, B2B, d)

    def uac_in(self, r, data):
        try:
            m = parse(data)
        except Exception as e:
            self.badwire.append((self.sim.t(), r.addr, data, repr(e)))
            return
        if m.is_req or m.cmethod != 'INVITE' or m.code < 200:
            return
        r.finals += 1
        if r.plan.get('ack') is None or r.finals <= r.plan.get('acklose', 0):
            return
        a = Msg(method='ACK', uri=r.m.uri)
        br = r.branch if m.code >= 300 else 'z9hG4bKa%d' % r.n
        a.add('via', 'SIP/2.0/UDP %s:%d;branch=%s' % (r.addr[0], r.addr[1], br))
        a.add('max-forwards', '70')
        a.add('from', r.m.get('from'))
        a.add('to', m.get('to'))
        a.add('call-id', r.callid)
        a.add('cseq', '%d ACK' % r.m.cseq)
        self.sim.at(r.plan['ack'], self.net.inject, r.addr, B2B, a.encode())

    # -- the stack's user
    def isYours(self, req, *a):
        r = self.byid.get(str(req.getHFBody('call-id')))
        return self if r is not None else None

    def recvRequest(self, req, t):
        return self.req_cb(req, t)

    def req_cb(self, req, t):
        cid = str(req.getHFBody('call-id'))
        r = self.byid.get(cid)
        self.sim.log('REQCB', req.getMethod(), cid)
        self.sim.mark('q' + req.getMethod())
        if r is None:
            self.stray.append((self.sim.t(), req.getMethod(), cid))
            return (None, None, None)
        r.cbs.append((self.sim.t(), len(self.ev), req.getMethod()))
        if len(r.cbs) > 1:
            # a second delivery is a violation already: do not touch the first
            return None
        r.tr = t
        r.req = req
        first = None
        for d, code in r.plan.get('answers', ()):
            if d == 0.0 and first is None:
                first = req.genResponse(code, 'A%d' % code)
                r.answered.append((self.sim.t(), code))
                if code >= 200:
                    r.dead = True
            else:
                from sippy.Time.Timeout import Timeout
                Timeout(self.user_answer, d, 1, r, code)
        if r.plan.get('retnone'):
            return None
        if first is not None and r.plan.get('own_send'):
            self.tm.sendResponse(first, t, ack_cb=lambda m: self.on_ack(r, m))
            first = None
        return (first, lambda rtime, rq: self.on_cancel(r, rq), lambda: self.on_noack(r))

    def user_answer(self, r, code):
        if r.dead:
            return
        if code >= 200:
            r.dead = True
        r.answered.append((self.sim.t(), code))
        resp = r.req.genResponse(code, 'A%d' % code)
        self.tm.sendResponse(resp, r.tr, ack_cb=lambda m: self.on_ack(r, m))

    def on_cancel(self, r, rq):
        r.cancel_cb.append((self.sim.t(), len(self.ev), rq is not None))
        r.dead = True
        self.sim.mark('xC')

    def on_noack(self, r):
        r.noack_cb.append((self.sim.t(), len(self.ev)))
        self.sim.mark('xN')

    def on_ack(self, r, m):
        r.ack_cb.append((self.sim.t(), len(self.ev)))
        self.sim.mark('xA')
