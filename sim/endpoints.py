"""Simulated SIP phones and gateways (RFC 3261 behaviour, scripted plans).
They live in the harness; everything they do is decided by their plan and by
what the process under test sends them."""
from . import sipmsg
from .sipmsg import Msg, parse, response, tag, uri_of, hostport_of

T1, T2, TB = 0.5, 4.0, 32.0


class CliTx(object):
    """Client transaction: retransmits until a response (provisional for
    INVITE, final otherwise) or 32 s."""

    def __init__(self, ep, msg, dst, cb, timeout_cb=None):
        self.ep, self.msg, self.dst, self.cb, self.timeout_cb = ep, msg, dst, cb, timeout_cb
        self.key = (msg.branch, msg.method)
        self.t = T1
        self.invite = msg.method == 'INVITE'
        self.done = False
        self.prov = False
        self.final = None
        self.data = msg.encode()
        ep.ctx[self.key] = self
        ep.send(self.data, dst)
        self.ta = ep.sim.at(self.t, self.retr)
        self.tb = ep.sim.at(TB, self.expire)

    def retr(self):
        if self.done or (self.prov and self.invite):
            return
        self.ep.send(self.data, self.dst)
        self.t = self.t * 2 if self.invite else min(self.t * 2, T2)
        self.ta = self.ep.sim.at(self.t, self.retr)

    def expire(self):
        if self.done:
            return
        self.done = True
        if self.timeout_cb:
            self.timeout_cb(self)

    def on_resp(self, m):
        if m.code < 200:
            self.prov = True
            if self.invite:
                self.ep.sim.cancel(self.tb)
            if not self.done:
                self.cb(self, m)
            return
        first = not self.done
        self.done = True
        self.final = m.code
        self.ep.sim.cancel(self.ta)
        self.ep.sim.cancel(self.tb)
        if self.invite and m.code >= 300:
            self.ep.send(self.mkack(m).encode(), self.dst)
        if first or (self.invite and m.code < 300):
            self.cb(self, m)

    def mkack(self, m):
        a = Msg('ACK', self.msg.uri)
        a.add('via', self.msg.get('via'))
        for r in self.msg.getall('route'):
            a.add('route', r)
        a.add('max-forwards', '70')
        a.add('from', self.msg.get('from'))
        a.add('to', m.get('to'))
        a.add('call-id', self.msg.callid)
        a.add('cseq', '%d ACK' % self.msg.cseq)
        return a

    def stop(self):
        self.done = True
        self.ep.sim.cancel(self.ta)
        self.ep.sim.cancel(self.tb)


class Endpoint(object):
    """One UDP address with any number of calls."""

    def __init__(self, world, ip, port=5060, name=None):
        self.w = world
        self.sim = world.sim
        self.net = world.net
        self.ip, self.port = ip, port
        self.addr = (ip, port)
        self.name = name or ip
        self.ctx = {}
        self.stx = {}             # (branch, method-of-INVITE/req, cseq) -> last response bytes
        self.calls = {}           # call-id -> Leg
        self.nbr = 0
        self.on_invite = None     # factory(ep, msg, src) -> Leg
        self.net.ends[self.addr] = self.recv
        self.silent = False
        self.rx = []
        self.on_other = None

    def newbranch(self):
        self.nbr += 1
        return 'z9hG4bK%s-%d' % (self.name.replace('.', 'x'), self.nbr)

    def send(self, data, dst):
        if self.silent:
            return
        self.net.inject(self.addr, dst, data)

    def recv(self, data, src, dst):
        if self.silent:
            return
        try:
            m = parse(data)
        except Exception as e:
            self.w.bad_wire(self, data, e)
            return
        m.src = src
        self.rx.append((self.sim.t(), m))
        if not m.is_req:
            if m.callid in self.calls:
                self.calls[m.callid].note_resp(m)
            tx = self.ctx.get((m.branch, m.cmethod))
            if tx is not None and tx.msg.callid == m.callid:
                tx.on_resp(m)
            return
        leg = self.calls.get(m.callid)
        if leg is None:
            if m.method == 'INVITE' and m.to_tag is None and self.on_invite is not None:
                leg = self.on_invite(self, m, src)
                if leg is not None:
                    self.calls[m.callid] = leg
        if leg is not None:
            leg.on_req(m, src)
            return
        if self.on_other is not None and self.on_other(m, src):
            return
        if m.method not in ('ACK',):
            self.reply(m, src, 481 if m.to_tag else 501, 'Unknown')

    def reply(self, m, src, code, reason, **kw):
        r = response(m, code, reason, **kw)
        self.send(r.encode(), src)
        return r

    def via(self, br=None):
        ip, port = self.priv or self.addr
        return 'SIP/2.0/UDP %s:%d;branch=%s%s' % (ip, port, br or self.newbranch(), ';rport' if self.rport else '')
    priv, nat, rport = None, None, True


class Leg(object):
    """A dialog-ish object at an endpoint; shared by callers and callees."""
    uas = False

    def __init__(self, ep, callid):
        self.ep, self.sim = ep, ep.sim
        self.callid = callid
        self.ltag = None
        self.rtag = None
        self.local = None          # From/To value without tag
        self.remote = None
        self.rtarget = None
        self.routes = []
        self.lcseq = 100
        self.rcseq = None
        self.established = None    # time
        self.ended = None          # time
        self.end_why = None
        self.hist = []
        self.sdp_sid = 1
        self.sdp_ver = 1
        self.last_req_resp = {}    # (branch, method) -> response bytes
        self.bye_tx = None
        self.reinv_tx = None       # our outstanding re-INVITE
        self.uas_reinv = None      # (branch, resp, timer...) outstanding incoming re-INVITE 200
        self.plan = {}
        self.got_bye = None
        self.sent_bye = None
        self.infos_rx = []
        self.bodies_rx = []
        self.media_ip = ep.ip
        self.media_port = 20000
        self.reinv_results = []
        self.info_results = []
        self.on_end = []

    def h(self, *a):
        self.hist.append((round(self.sim.t(), 6),) + a)

    def note_resp(self, m):
        pass

    def mysdp(self):
        return sipmsg.sdp(self.media_ip, self.media_port, self.sdp_sid, self.sdp_ver,
                          'a=mark:%d-%d%s\r\n' % (self.sdp_sid, self.sdp_ver, self.plan.get('sdpx', '')) + self.plan.get('sdpm', ''),
                          self.plan['ptsv'][self.sdp_ver % len(self.plan['ptsv'])] if self.plan.get('ptsv') else self.plan.get('pts', '0 8'))

    cport = None

    def contact(self):
        if self.ep.nat == 'full' and not self.cport:
            return 'sip:%s@%s:%d' % ((self.plan.get('user', 'ep'),) + self.ep.priv)
        return 'sip:%s@%s:%d' % (self.plan.get('user', 'ep'), self.ep.ip, self.cport or self.ep.port)

    def move(self):
        """be reachable at another address from now on (target refresh)"""
        self.ep.naliases = getattr(self.ep, 'naliases', 0) + 1
        self.cport = 7000 + self.ep.naliases
        self.ep.net.ends[(self.ep.ip, self.cport)] = self.ep.recv

    def rr(self):
        """Record-Route headers of the proxies in front of this endpoint: plan['rr']
        is a list of 'lr' / 'strict', the one nearest to the B2BUA first"""
        out = []
        for i, k in enumerate(self.plan.get('rr', ())):
            port = 8000 + self.rrn * 10 + i
            self.ep.net.ends[(self.ep.ip, port)] = self.ep.recv
            out.append(('record-route', '<sip:%s:%d%s>' % (self.ep.ip, port, ';lr' if k == 'lr' else '')))
        return out
    rrn = 0

    # -- in-dialog requests we send
    def mkreq(self, method, cseq=None):
        m = Msg(method, self.rtarget)
        m.add('via', self.ep.via() + (';' + self.plan['via_extra'] if self.plan.get('via_extra') else ''))
        for r in self.routes if not self.plan.get('rr') else ():
            m.add('route', r)
        m.add('max-forwards', '70')
        m.add('from', '%s;tag=%s' % (self.local, self.ltag))
        m.add('to', '%s;tag=%s' % (self.remote, self.rtag) if self.rtag else self.remote)
        m.add('call-id', self.callid)
        if cseq is None:
            self.lcseq += 1
            cseq = self.lcseq
        m.add('cseq', '%d %s' % (cseq, method))
        m.add('contact', '<%s>' % self.contact())
        return m

    def dst(self):
        if self.routes and not self.plan.get('rr'):
            return hostport_of(uri_of(self.routes[0]))
        return hostport_of(self.rtarget)

    def end(self, why):
        if self.ended is None:
            self.ended = self.sim.t()
            self.end_why = why
            self.h('end', why)
            for f in self.on_end:
                f(self)

    def bye(self, extra=()):
        if self.ended is not None or self.established is None or self.sent_bye is not None:
            return
        self.sent_bye = self.sim.t()
        self.h('bye')
        m = self.mkreq('BYE')
        for n, v in extra:
            m.add(n, v)
        self.bye_tx = CliTx(self.ep, m, self.dst(), self._bye_resp, self._bye_timeout)
        self.end('bye-sent')

    def _bye_resp(self, tx, m):
        if m.code >= 200:
            self.h('bye-resp', m.code)

    def _bye_timeout(self, tx):
        self.h('bye-timeout')

    def info(self, body, ctype='application/dtmf-relay'):
        if self.ended is not None or self.established is None:
            return
        m = self.mkreq('INFO')
        m.add('content-type', ctype)
        m.body = body
        self.h('info', body)
        CliTx(self.ep, m, self.dst(), self._info_resp, lambda tx: self.info_results.append((body, 'timeout')))

    def _info_resp(self, tx, m):
        if m.code >= 200:
            self.info_results.append((tx.msg.body, m.code))
            self.h('info-resp', m.code)

    def reinvite(self, body='new'):
        if self.ended is not None or self.established is None or self.reinv_tx is not None or self.uas_reinv:
            return False
        if self.plan.get('move'):
            self.move()
        m = self.mkreq('INVITE')
        if body == 'new':
            self.sdp_ver += 1
            m.add('content-type', 'application/sdp')
            m.body = self.mysdp()
        elif body == 'same':
            m.add('content-type', 'application/sdp')
            m.body = self.mysdp()
        self.h('reinvite', m.cseq)
        res = {'t': self.sim.t(), 'cseq': m.cseq, 'body': m.body, 'result': None, 'rbody': None}
        self.reinv_results.append(res)
        tx = CliTx(self.ep, m, self.dst(), self._reinv_resp, self._reinv_timeout)
        tx.res = res
        tx.acks = None
        self.reinv_tx = tx
        return True

    def _reinv_resp(self, tx, m):
        if m.code < 200:
            return
        if tx.res['result'] is None:
            tx.res['result'] = m.code
            tx.res['rbody'] = m.body
            tx.res['tr'] = self.sim.t()
            self.h('reinv-resp', m.code)
        elif tx.res['result'] != m.code:
            tx.res.setdefault('others', []).append(m.code)
        if self.reinv_tx is tx:
            self.reinv_tx = None
        if m.code < 300:
            if tx.acks is None:
                c = m.contact_uri()
                if c:
                    self.rtarget = c
                a = self.mkreq('ACK', tx.msg.cseq)
                tx.acks = (a.encode(), self.dst())
            self.ep.send(*tx.acks)
        elif m.code in (481, 408):
            pass

    def reinvite_again(self):
        """a second re-INVITE while the first one is still pending"""
        if self.ended is not None or self.established is None or self.reinv_tx is None or self.uas_reinv:
            return
        m = self.mkreq('INVITE')
        self.sdp_ver += 1
        m.add('content-type', 'application/sdp')
        m.body = self.mysdp()
        self.h('reinvite-again', m.cseq)
        res = {'t': self.sim.t(), 'cseq': m.cseq, 'body': m.body, 'result': None, 'rbody': None}
        self.reinv_results.append(res)
        tx = CliTx(self.ep, m, self.dst(), self._reinv_resp, self._reinv_timeout)
        tx.res = res
        tx.acks = None

    def cancel_reinv(self):
        tx = self.reinv_tx
        if tx is None or tx.done or not getattr(tx, 'prov', True):
            return
        inv = tx.msg
        m = Msg('CANCEL', inv.uri)
        for n in ('via', 'from', 'to', 'call-id'):
            m.add(n, inv.get(n))
        m.add('max-forwards', '70')
        m.add('cseq', '%d CANCEL' % inv.cseq)
        self.h('cancel-reinv')
        CliTx(self.ep, m, self.dst(), lambda tx, r: self.h('cancel-resp', r.code))

    def simple(self, method, *hdrs):
        """any other request inside the dialog (REFER, OPTIONS...)"""
        if self.ended is not None or self.established is None:
            return
        m = self.mkreq(method)
        for n, v in hdrs:
            m.add(n, v)
        self.h('req', method)
        CliTx(self.ep, m, self.dst(), lambda tx, r: None)

    def _reinv_timeout(self, tx):
        tx.res['result'] = 'timeout'
        self.h('reinv-timeout')
        if self.reinv_tx is tx:
            self.reinv_tx = None

    # -- in-dialog requests we get
    def on_req(self, m, src):
        key = (m.branch, m.method)
        if m.method == 'ACK':
            self.on_ack(m)
            return
        if m.method == 'CANCEL':
            self.on_cancel(m, src)
            return
        if key in self.last_req_resp:
            r = self.last_req_resp[key]
            if r is not None:
                self.ep.send(r, src)
            return
        self.last_req_resp[key] = None
        if m.to_tag is None and m.method == 'INVITE' and self.uas:
            self.on_new_invite(m, src)
            return
        if self.rcseq is not None and m.cseq <= self.rcseq:
            self.answer(m, src, 500, 'Lower CSeq')
            self.ep.w.note('lower-cseq', self, m)
            return
        self.rcseq = m.cseq
        if m.method == 'BYE':
            self.got_bye = self.sim.t() if self.got_bye is None else self.got_bye
            self.h('got-bye')
            code = 200
            if self.established is None and not self.uas:
                code = 200
            self.answer(m, src, code, 'OK')
            self.end('bye-received')
            return
        if self.ended is not None:
            self.answer(m, src, 481, 'Gone')
            return
        if m.method == 'INFO':
            self.infos_rx.append((self.sim.t(), m.body))
            self.answer(m, src, 200, 'OK')
            return
        if m.method == 'INVITE':
            self.on_reinvite(m, src)
            return
        self.answer(m, src, self.plan.get('other_code', 200), 'OK')

    def answer(self, m, src, code, reason, **kw):
        r = response(m, code, reason, **kw)
        d = r.encode()
        self.last_req_resp[(m.branch, m.method)] = d
        self.ep.send(d, src)
        return d

    def on_reinvite(self, m, src):
        p = self.plan
        self.bodies_rx.append((self.sim.t(), m.body))
        self.h('got-reinvite', m.cseq)
        ka = p.get('ka')
        if self.reinv_tx is not None and not p.get('no_glare491'):
            self.answer(m, src, 491, 'Request Pending')
            self.h('glare')
            return
        act = p.get('on_reinvite')
        act = act.pop(0) if act else ('ok', 0.05)
        self.h('reinv-act', act)
        if act[0] == 'ok':
            self.uas_reinv = True
            if act[1] > 0.1:
                self.answer(m, src, 100, 'Trying')
            self.sim.at(act[1], self._reinv_ok, m, src)
        elif act[0] == 'rej':
            self.uas_reinv = True
            self.sim.at(act[1], self._reinv_rej, m, src, *act[2:])
        elif act[0] == 'chal':
            # challenge it once; take it when it comes back with credentials
            if m.get('authorization') or m.get('proxy-authorization'):
                self.ep.w.check_auth(self, m, act[2:])
                self.sim.at(act[1], self._reinv_ok, m, src)
                return
            p['on_reinvite'].insert(0, act)
            hn = 'www-authenticate' if act[2] == 401 else 'proxy-authenticate'
            self.sim.at(act[1], self._reinv_chal, m, src, act[2], (hn, 'Digest realm="gw%d",nonce="r%d"' % (self.sdp_sid, m.cseq)))
        elif act[0] == 'none':
            pass
        elif act[0] == 'prov':
            self.uas_reinv = True
            self.answer(m, src, 180, 'Ringing')
            self.sim.at(act[1], self._reinv_ok, m, src)

    def _reinv_rej(self, m, src, code, contact=None):
        self.uas_reinv = None
        if self.ended is not None:
            self.answer(m, src, 487, 'Request Terminated')
            return
        st = {'acked': False, 'd': self.answer(m, src, code, 'Rejected', **({'contact': contact} if contact else {}))}
        self._retr_final(m, src, st, T1)

    def _reinv_chal(self, m, src, code, hf):
        st = {'acked': False, 'd': self.answer(m, src, code, 'Auth', extra=[hf])}
        self._retr_final(m, src, st, T1)

    def _reinv_ok(self, m, src):
        if self.ended is not None:
            self.uas_reinv = None
            st = {'acked': False, 'd': self.answer(m, src, 487, 'Request Terminated')}
            self._retr_final(m, src, st, T1)
            return
        if m.body:
            c = m.contact_uri()
            if c:
                self.rtarget = c
        self.sdp_ver += 1
        body = self.mysdp()
        if self.plan.get('move'):
            self.move()
        d = self.answer(m, src, 200, 'OK', contact=self.contact(), body=body,
                        extra=list(reversed(self.rr())) if self.uas and self.plan.get('rr2') else ())
        st = {'acked': False, 'd': d}
        self.uas_reinv = st
        self.reinv_sent_body = body
        st['m'] = m
        self._retr_final(m, src, st, T1)

    def _retr_final(self, m, src, st, t):
        if not hasattr(self, 'pend'):
            self.pend = {}
        self.pend[m.cseq] = st
        st['ev'] = self.sim.at(t, self._retr_fire, m, src, st, t)

    def _retr_fire(self, m, src, st, t):
        if st['acked'] or self.ep.silent:
            return
        if t >= 16:
            if self.uas_reinv is st:
                self.uas_reinv = None
            self.never_acked(st)
            return
        self.ep.send(st['d'], src)
        st['ev'] = self.sim.at(min(2 * t, 4), self._retr_fire, m, src, st, 2 * t)

    def never_acked(self, st):
        pass

    def on_ack(self, m):
        st = getattr(self, 'pend', {}).get(m.cseq)
        if st is not None:
            st['acked'] = True
            self.sim.cancel(st.get('ev'))
            if self.uas_reinv is st:
                self.uas_reinv = None
            if m.body:
                self.bodies_rx.append((self.sim.t(), m.body))

    def on_cancel(self, m, src):
        self.answer(m, src, 200 if (m.branch, 'INVITE') in self.last_req_resp else 481, 'OK')


class Caller(Leg):
    """plan: cli, cld, dst, sdp(bool), cancel(None | ('t', secs) | ('prov', secs)),
    talk(None|secs), reinv [(t, body)], info [(t, body)], noack, expires, headers, auth(user, pw)"""

    def __init__(self, ep, callid, plan):
        Leg.__init__(self, ep, callid)
        self.plan = plan
        self.ltag = 'a' + callid.replace('@', '-')
        self.finals = []           # distinct (code, to-tag) received
        self.provs = []
        self.answers = []          # all final code arrivals
        self.cancelled = None
        self.cancel_sent = None
        self.invite_sent = None
        self.invites = []
        self.prov_seen = False
        self.ack = None
        self.state = 'idle'
        ep.calls[callid] = self

    def start(self):
        p = self.plan
        self.invite_sent = self.sim.t()
        self.h('invite')
        self.local = '<sip:%s@%s>' % (p['cli'], self.ep.ip)
        self.remote = '<sip:%s@%s>' % (p['cld'], p['dst'][0])
        self.rtarget = 'sip:%s@%s:%d' % (p['cld'], p['dst'][0], p['dst'][1])
        self._send_invite()
        c = p.get('cancel')
        if c and c[0] == 't':
            self.sim.at(c[1], self.cancel)

    def _send_invite(self, extra=()):
        p = self.plan
        m = self.mkreq('INVITE')
        if p.get('expires') is not None:
            m.add('expires', str(p['expires']))
        for n, v in p.get('headers', ()):
            m.set(n, v) if n in ('max-forwards',) else m.add(n, v)
        for n, v in extra:
            m.add(n, v)
        for n, v in self.rr():
            m.add(n, v)
        if p.get('sdp', True):
            m.add('content-type', 'application/sdp')
            m.body = self.mysdp()
        self.state = 'calling'
        self.invites.append(m)
        self.itx = CliTx(self.ep, m, p['dst'], self._inv_resp, self._inv_timeout)

    def _inv_timeout(self, tx):
        self.h('invite-timeout')
        self.state = 'dead'
        self.end('invite-timeout')

    def note_resp(self, m):
        if m.cmethod == 'INVITE' and self.invites and m.cseq <= self.invites[-1].cseq:
            if m.code >= 200:
                self.answers.append((self.sim.t(), m.cseq, m.code, m.to_tag))
                k = (m.cseq, m.code, m.to_tag)
                if k not in self.finals:
                    self.finals.append(k)
            else:
                self.provs.append((self.sim.t(), m.cseq, m.code, m.to_tag, m.body))

    def _inv_resp(self, tx, m):
        p = self.plan
        if m.code < 200:
            if p.get('ebye') and m.code > 100 and m.to_tag and self.state == 'calling' and self.early is None:
                # gives up with a BYE on the early dialog instead of a CANCEL
                self.early = self.rtag = m.to_tag
                c = m.contact_uri()
                if c:
                    self.rtarget = c
                self.routes = list(reversed(m.getall('record-route')))
                self.sim.at(p['ebye'][0], self._early_bye)
            if not self.prov_seen:
                self.prov_seen = True
                c = p.get('cancel')
                if c and c[0] == 'prov':
                    self.sim.at(c[1], self.cancel)
                elif self.cancelled is not None:
                    self._send_cancel()
            return
        self.h('final', m.code)
        if m.code < 300:
            if self.ack is None:
                self.rtag = m.to_tag
                c = m.contact_uri()
                if c:
                    self.rtarget = c
                self.routes = list(reversed(m.getall('record-route')))
                self.answer_body = m.body
                if m.body:
                    self.bodies_rx.append((self.sim.t(), m.body))
                a = self.mkreq('ACK', tx.msg.cseq)
                if m.body and not tx.msg.body:
                    a.add('content-type', 'application/sdp')
                    a.body = self.mysdp()
                self.ack = (a.encode(), self.dst())
                self.state = 'established'
                self.established = self.sim.t()
                self.h('established')
                self._established()
            if not p.get('noack'):
                self.ep.send(*self.ack)
            return
        if m.code in (401, 407) and p.get('auth') and self.cancelled is None and \
                not getattr(self, 'authed', False) and m.get('www-authenticate'):
            self.authed = True
            hf = self.ep.w.mkauth(self, m, tx.msg)
            d = p.get('auth_delay', 0.0)
            self.prov_seen = False
            self.sim.at(d, self._send_invite, ((('authorization', hf),)))
            return
        self.state = 'dead'
        self.end('rejected-%d' % m.code)

    def _established(self):
        p = self.plan
        if self.cancelled is not None or p.get('talk') == 0:
            self.sim.at(0.01, self.bye)
        elif p.get('talk') is not None:
            self.sim.at(p['talk'], self.bye)
        for t, b in p.get('reinv', ()):
            self.sim.at(t, self.reinvite, b)
        for t, b in p.get('info', ()):
            self.sim.at(t, self.info, b)
        for a in p.get('acts', ()):
            self.sim.at(a[0], getattr(self, a[1]), *a[2:])
        if p.get('silent_after') is not None:
            self.sim.at(p['silent_after'], self.go_silent)

    def go_silent(self):
        self.sim.fault('peer_silent')
        self.ep.silent = True
        self.ep.silent_t = self.sim.t()
        self.h('silent')

    early = None

    def _early_bye(self):
        if self.state != 'calling' or self.cancelled is not None:
            return
        self.cancelled = self.cancel_sent = self.sim.t()
        self.h('early-bye')
        self.sim.mark('ebye')
        self.bye_tx = CliTx(self.ep, self.mkreq('BYE'), self.dst(), self._bye_resp, self._bye_timeout)

    def cancel(self):
        if self.state not in ('calling',) or self.cancelled is not None:
            return
        self.cancelled = self.sim.t()
        self.h('cancel')
        if self.prov_seen or self.plan.get('eager_cancel'):
            self._send_cancel()

    def _send_cancel(self):
        if self.cancel_sent is not None or self.itx.done:
            return
        self.cancel_sent = self.sim.t()
        inv = self.itx.msg
        m = Msg('CANCEL', inv.uri)
        m.add('via', inv.get('via'))
        m.add('max-forwards', '70')
        m.add('from', inv.get('from'))
        m.add('to', inv.get('to'))
        m.add('call-id', inv.callid)
        m.add('cseq', '%d CANCEL' % inv.cseq)
        CliTx(self.ep, m, self.plan['dst'], lambda tx, r: self.h('cancel-resp', r.code))


class Callee(Leg):
    """plan: steps [(delay, code, with_sdp)], on_cancel('487'|'ignore'|'200late'|'none'),
    talk(None|secs), silent, on_reinvite [...], reinv, info, challenge(None|401|407, user, pw)"""
    uas = True

    def __init__(self, ep, m, plan, att):
        Leg.__init__(self, ep, m.callid)
        self.plan = plan
        self.att = att
        self.ltag = 'b%s-%d' % (m.callid.split('@')[0][:24], att)
        self.sdp_sid = 1000 + att
        self.invites = []
        self.cancelled = None
        self.sent_codes = []
        self.final = None
        self.acked = False
        self.inv = None
        self.inv_src = None
        self.first_invite = ep.sim.t()
        self.acks = 0
        self.first_ack = None
        self.media_port = 30000 + (att % 1000) * 2
        self.challenged = False
        self.invites_rx = 0
        self.deferred = []
        self.force_bye = False
        self.fin_pend = None

    def on_new_invite(self, m, src):
        self.h('invite', m.cseq)
        self.invites.append(m)
        self.inv, self.inv_src = m, src
        self.rcseq = m.cseq
        self.remote = m.get('from').split(';tag=')[0]
        self.rtag = m.from_tag
        self.local = m.get('to')
        self.rtarget = m.contact_uri()
        self.routes = m.getall('record-route')
        if m.body:
            self.bodies_rx.append((self.sim.t(), m.body))
        p = self.plan
        ch = p.get('challenge')
        if ch and not self.challenged:
            self.challenged = True
            hn = 'www-authenticate' if ch[0] == 401 else 'proxy-authenticate'
            v = 'Digest realm="gw%d",nonce="n%d"' % (self.att, self.att)
            d = ch[3] if len(ch) > 3 else 0.02
            self.sim.at(d, self._challenge, m, src, ch[0], hn, v)
            return
        if ch:
            self.ep.w.check_auth(self, m, ch)
        self.final = None
        self.acked = False
        self.run_steps(list(p.get('steps', ())))

    def _challenge(self, m, src, code, hn, v):
        if self.cancelled is not None:
            self.send_final(487, False)
            return
        d = response(m, code, 'Auth', to_tag=self.ltag, extra=[(hn, v)]).encode()
        self.last_req_resp[(m.branch, 'INVITE')] = d
        self.ep.send(d, src)
        self.chal_pend = {'acked': False, 'd': d}
        self.h('challenge', code)
        self._retr_final(m, src, self.chal_pend, T1)

    def run_steps(self, steps):
        if not steps:
            return
        st = steps.pop(0)
        self.sim.at(st[0], self._step, st, steps, self.inv)

    def _step(self, st, steps, inv):
        if self.final is not None or self.inv is not inv or self.ep.silent:
            return
        code, with_sdp = st[1], st[2]
        if self.cancelled is not None and self.plan.get('on_cancel', '487') != 'ignore':
            return
        if code < 200:
            self.sent_codes.append((self.sim.t(), code))
            body = self.mysdp() if with_sdp else None
            d = response(self.inv, code, 'Prov', to_tag=self.ltag if code > 100 else None,
                         contact=self.contact() if code > 100 else None, body=body,
                         extra=list(self.plan.get('resp_hdrs', ())) + list(reversed(self.rr())) if code > 100 else ()).encode()
            self.last_req_resp[(self.inv.branch, 'INVITE')] = d
            self.ep.send(d, self.inv_src)
            self.h('prov', code)
            self.run_steps(steps)
            return
        self.send_final(code, with_sdp)

    def send_final(self, code, with_sdp):
        if self.final is not None:
            return
        self.final = code
        self.t_final = self.sim.t()
        self.sent_codes.append((self.sim.t(), code))
        body = None
        kw = {}
        extra = list(self.plan.get('resp_hdrs', ()))
        if code < 300:
            extra += list(reversed(self.rr()))
            kw['contact'] = self.contact()
            if with_sdp:
                body = self.mysdp()
        elif code in (301, 302, 305):
            kw['contact'] = self.plan.get('redirect', 'sip:other@10.2.9.9')
        r = response(self.inv, code, self.plan.get('reason', 'Final'), to_tag=self.ltag, body=body, extra=extra, **kw)
        self.sent_final_body = body
        d = r.encode()
        self.last_req_resp[(self.inv.branch, 'INVITE')] = d
        self.ep.send(d, self.inv_src)
        self.h('final', code)
        st = {'acked': False, 'd': d}
        self.fin_pend = st
        self._retr_final(self.inv, self.inv_src, st, T1)
        if code < 300:
            self.established = self.sim.t()
            self._established()
        else:
            self.end('rejected-%d' % code)

    def _established(self):
        p = self.plan
        if p.get('talk') is not None:
            self.sim.at(p['talk'], self.bye)
        for t, b in p.get('reinv', ()):
            self.sim.at(t, self.reinvite, b)
        for t, b in p.get('info', ()):
            self.sim.at(t, self.info, b)
        for a in p.get('acts', ()):
            self.sim.at(a[0], getattr(self, a[1]), *a[2:])
        if p.get('silent_after') is not None:
            self.sim.at(p['silent_after'], self.go_silent)

    def go_silent(self):
        self.sim.fault('peer_silent')
        self.ep.silent = True
        self.ep.silent_t = self.sim.t()
        self.h('silent')

    def on_ack(self, m):
        self.acks += 1
        first = False
        if self.first_ack is None and self.inv is not None and m.cseq == self.inv.cseq and \
                self.final is not None:
            self.first_ack = self.sim.t()
            first = True
        Leg.on_ack(self, m)
        if first and self.final < 300:
            if m.body:
                self.rtarget = m.contact_uri() or self.rtarget
            for fn, args in self.deferred:
                fn(*args)
            self.deferred = []

    def never_acked(self, st):
        if self.final is not None and self.final < 300 and st is self.fin_pend:
            # RFC 3261 13.3.1.4: the session should be terminated
            self.h('never-acked')
            self.force_bye = True
            self.bye()

    # a UAS sends nothing in the dialog before the ACK arrived
    def bye(self, extra=()):
        if self.first_ack is None and not self.force_bye:
            self.deferred.append((Leg.bye, (self, extra)))
            return
        Leg.bye(self, extra)

    def info(self, body, ctype='application/dtmf-relay'):
        if self.first_ack is None:
            self.deferred.append((Leg.info, (self, body, ctype)))
            return
        Leg.info(self, body, ctype)

    def reinvite(self, body='new'):
        if self.first_ack is None:
            self.deferred.append((Leg.reinvite, (self, body)))
            return False
        return Leg.reinvite(self, body)

    def simple(self, *a):
        if self.first_ack is None:
            self.deferred.append((Leg.simple, (self,) + a))
            return
        Leg.simple(self, *a)

    def on_cancel(self, m, src):
        p = self.plan
        known = (m.branch, 'INVITE') in self.last_req_resp
        mode = p.get('on_cancel', '487')
        if mode == 'none':
            return
        self.ep.reply(m, src, 200 if known else 481, 'OK')
        if not known:
            self.ep.w.note('stray-cancel', self, m)
            return
        if self.cancelled is None:
            self.cancelled = self.sim.t()
            self.h('got-cancel')
        if self.final is None and self.inv is not None and m.branch == self.inv.branch and \
                not (p.get('challenge') and not self.challenged):
            if mode == '487':
                self.sim.at(p.get('cancel_lag', 0.0), self.send_final, 487, False)
            elif mode == '200late':
                self.sim.at(p.get('cancel_lag', 0.0), self.send_final, 200, True)
