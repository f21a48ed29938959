"""C17: digest challenges and their verification. The real transaction manager
serves as a small SIP server whose user part (the harness) challenges requests
with the real challenge header and judges answers with the real verifier; every
verdict is compared with an independent computation over the table of the
challenges really issued and the simulated clock."""
import base64
import sys
from .core import NS
from .tmworld import TMWorld
from .endpoints import Endpoint, CliTx
from .b2b import B2B
from .sipmsg import Msg, tag
from .unit import judge
from . import gen, digest

VT = 32.0
ALGS = (None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess')
QOPS = (None, ('auth',), ('auth-int',), ('auth', 'auth-int'), ('auth-int', 'auth'))
DELAYS = (0.0, 0.0, 0.3, 1.0, 5.0, 16.0, 29.0, 31.0, 31.5, 31.9, 31.99, 32.01, 32.1, 32.6, 33.0, 36.0, 40.0, 64.0, 100.0, 1000.0)
USERS = (('alice', 'wonder'), ('bob', 'b:u,i"l'.replace('"', '')), ('o,conn=or', 'pw'), ('carol@dom.example', ''), ('dave', 'p w'))
MUTS = (('none', 14), ('wrongpw', 3), ('otherpw', 1), ('alg', 4), ('noalg', 2), ('alien', 2), ('flip', 5), ('char', 4), ('trunc', 2), ('junk', 4), ('pad', 2),
        ('splice', 2), ('invent', 2), ('foreign', 3), ('resp', 3), ('method', 2), ('body', 2), ('missing', 3), ('badalg', 1), ('badqop', 1),
        ('mutlate', 2), ('crossqop', 1), ('uri', 1))


def norm(a):
    return a or 'MD5'


class Chal(object):
    def __init__(self, n, t, text, alg, nonce):
        self.n, self.t, self.text, self.alg, self.nonce = n, t, text, alg, nonce


class Ans(object):
    def __init__(self, n, text, params, method, body, kind, user):
        self.n, self.text, self.p, self.method, self.body, self.kind, self.user = n, text, params, method, body, kind, user


class AuthWorld(TMWorld):
    def __init__(self, sim, ch):
        cfg = gen.netcfg(sim, ch, loss=0.15, dup=0.15, slow=0.2)
        TMWorld.__init__(self, sim, ch, cfg)
        self.chals = []
        self.issued = {}
        self.answers = {}
        self.dups = []
        self.verdicts = []
        self.badchal = []
        self.badqop = []
        self.foreign = []
        self.clients = []
        self.done = 0
        self.cseq = 0

    # -- the server's user part
    def on_start(self, gc):
        if self.ch.flip('f.have', 0.3):
            self.mk_foreign()

    def mk_foreign(self):
        """challenges of another server: the same code, loaded afresh, as another process would"""
        names = ('sippy.Security.SipNonce', 'sippy.SipAuthorization', 'sippy.SipWWWAuthenticate')
        pkgs = [(sys.modules[n.rpartition('.')[0]], n.rpartition('.')[2]) for n in names]
        old = [(n, sys.modules.pop(n, None)) for n in names]
        attrs = [(m, a, getattr(m, a, None)) for m, a in pkgs]
        try:
            from sippy.SipWWWAuthenticate import SipWWWAuthenticate as Other
            for alg in ALGS:
                self.foreign.append((alg, digest.params(str(Other(realm='other', algorithm=alg)))['nonce']))
        finally:
            for n, m in old:
                sys.modules.pop(n, None)
                if m is not None:
                    sys.modules[n] = m
            for m, a, v in attrs:
                if v is not None:
                    setattr(m, a, v)

    def req_cb(self, req, t):
        from sippy.SipHeader import SipHeader
        if req.getMethod() in ('ACK', 'CANCEL'):
            return (None, None, None)
        n = int(str(req.getHFBody('subject')))
        proxy, aix, qix, opq, ha1 = self.offers[int(str(req.getHFBody('call-id')).split('-')[1])]
        hname = 'proxy-authorization' if proxy else 'authorization'
        if req.countHFs(hname) == 0:
            return (self.challenge(req, proxy, ALGS[aix], QOPS[qix], opq), None, None)
        a = self.answers[n]
        hf = req.getHFBody(hname)
        now = self.sim.now
        exp, why = self.expect(a, now)
        pw = dict(USERS).get(a.p.get('username'), 'nobody')
        body = req.getBody()
        body = str(body) if body is not None else None
        exc = None
        try:
            if ha1 and not (a.p.get('algorithm') or '').endswith('-sess') and a.p.get('algorithm') in ALGS and 'username' in a.p and 'realm' in a.p:
                h = digest.hashfn(a.p.get('algorithm'))(('%s:%s:%s' % (a.p['username'], a.p['realm'], pw)).encode()).hexdigest()
                got = hf.verifyHA1(h.encode(), req.getMethod(), body)
            else:
                got = hf.verify(pw, req.getMethod(), body)
        except Exception as e:
            got, exc = None, e
        same = self.sim.now == now
        self.sim.log('VERDICT', n, a.kind, got, exp, why, repr(exc) if exc else '')
        self.sim.mark('v%s%s' % (a.kind, got))
        self.sim.probe('mut:%s:%s' % (a.kind, exp))
        self.verdicts.append((self.sim.t(), n, a, got, exp, why, exc, same))
        return (req.genResponse(200 if got is True else 403, 'OK' if got is True else 'Forbidden'), None, None)

    def challenge(self, req, proxy, alg, qop, opq):
        from sippy.SipHeader import SipHeader
        from sippy.SipWWWAuthenticate import SipWWWAuthenticate
        from sippy.SipProxyAuthenticate import SipProxyAuthenticate
        cls = SipProxyAuthenticate if proxy else SipWWWAuthenticate
        t0 = self.sim.now
        b = cls(realm='sip.example', algorithm=alg)
        if qop is not None and alg is not None:
            b.qop = qop
        if opq:
            b.opaque = 'op%d' % len(self.chals)
        resp = req.genResponse(407 if proxy else 401, 'Who')
        resp.appendHeader(SipHeader(body=b))
        self.note(str(b), alg, t0)
        self.sim.mark('ch')
        return resp

    def note(self, text, alg, t0):
        p = digest.params(text)
        c = Chal(len(self.chals), t0, text, alg, p.get('nonce'))
        self.chals.append(c)
        if c.nonce in self.issued:
            self.dups.append((self.sim.t(), c, self.issued[c.nonce]))
        else:
            self.issued[c.nonce] = c
        if norm(p.get('algorithm')) != norm(alg) or p.get('realm') != 'sip.example':
            self.badchal.append((self.sim.t(), text, alg))

    def burst(self, n):
        from sippy.SipWWWAuthenticate import SipWWWAuthenticate
        alg = ALGS[self.ch.pick('b.alg', len(ALGS))]
        for i in range(n):
            t0 = self.sim.now
            self.note(str(SipWWWAuthenticate(realm='sip.example', algorithm=alg)), alg, t0)
        self.sim.probe('burst')

    def expect(self, a, now):
        """True/False = the verdict due, None = either is right"""
        p = a.p
        for k in ('username', 'realm', 'nonce', 'uri', 'response'):
            if k not in p:
                return False, 'no ' + k
        alg = p.get('algorithm')
        if alg not in ALGS:
            return False, 'unknown algorithm'
        qop = p.get('qop')
        if qop not in (None, 'auth', 'auth-int'):
            return False, 'unknown qop'
        c = self.issued.get(p['nonce'])
        if c is None:
            return False, 'not a challenge of this server'
        if norm(c.alg) != norm(alg):
            return False, 'challenge was for ' + norm(c.alg)
        age = (now - c.t) / NS
        if age > VT:
            return False, 'challenge %.3f s old' % age
        if norm(alg).endswith('-sess') and not p.get('cnonce'):
            return (False, 'no cnonce') if 'cnonce' not in p else (None, 'empty cnonce')
        if qop is not None and not (p.get('nc') and p.get('cnonce')):
            return None, 'qop without nc, cnonce'
        pw = dict(USERS).get(p['username'], 'nobody')
        r = digest.response(alg, p['username'], p['realm'], pw, a.method, p['uri'], p['nonce'], qop, p.get('nc'), p.get('cnonce'), a.body)
        if r != p['response']:
            return False, 'wrong digest'
        if age == VT:
            return None, 'at the very edge'
        return True, 'right answer over a challenge %.3f s old' % age

    # -- clients
    def add_client(self, t):
        n = len(self.clients)
        ch = self.ch
        ep = Endpoint(self, '10.1.0.%d' % (1 + n))
        self.clients.append(ep)
        aix = ch.pick('c.alg', len(ALGS))
        self.offers[n] = (ch.flip('c.px', 0.3), aix, ch.pick('c.qop', len(QOPS)), ch.flip('c.opq', 0.2), ch.flip('c.ha1', 0.25))
        self.sim.at(t, self.go, ep, n, ch.choice('c.m', ('REGISTER', 'MESSAGE', 'OPTIONS', 'SUBSCRIBE')), 1 + ch.pick('c.rounds', 3))

    def msg(self, ep, n, method, auth=None, body=''):
        self.cseq += 1
        k = len(self.answers)
        uri = 'sip:srv@%s:%d' % B2B
        m = Msg(method, uri)
        m.add('via', ep.via())
        m.add('max-forwards', '70')
        m.add('from', '<sip:u%d@%s>;tag=f%d' % (n, ep.ip, n))
        m.add('to', '<%s>' % uri)
        m.add('call-id', 'auth-%d' % n)
        m.add('cseq', '%d %s' % (self.cseq, method))
        m.add('subject', str(auth.n if auth else -1))
        if auth:
            m.add('proxy-authorization' if self.offers[n][0] else 'authorization', auth.text)
        if body:
            m.add('content-type', 'text/plain')
            m.body = body
        return m

    def go(self, ep, n, method, rounds):
        if rounds == 0:
            return
        ch = self.ch

        def challenged(tx, m):
            if m.code not in (401, 407):
                return
            v = m.get('proxy-authenticate' if m.code == 407 else 'www-authenticate')
            self.sim.log('CHAL', n, v)
            for i in range(1 + ch.pick('a.n', 4)):
                d = ch.choice('a.d', DELAYS)
                d += ch.real('a.j', 0.0, 0.02)
                self.sim.at(d, self.answer, ep, n, method, v)
            if rounds > 1:
                self.sim.at(ch.choice('a.next', (0.0, 1.0, 20.0, 31.0, 50.0)), self.go, ep, n, method, rounds - 1)
        CliTx(ep, self.msg(ep, n, method), B2B, challenged)

    def answer(self, ep, n, method, chal):
        ch = self.ch
        user, pw = USERS[ch.pick('a.u', len(USERS))]
        body = ch.choice('a.body', ('', '', 'hello', 'x' * 40))
        uri = ch.choice('a.uri', ('sip:srv@10.0.0.1', 'sip:10.0.0.1', 'sip:a,b@10.0.0.1;p=1'))
        kind = MUTS[ch.weighted('a.k', [x[1] for x in MUTS])][0]
        k = len(self.answers)
        if kind == 'none' and ch.flip('a.real', 0.4):
            text = self.real_client(chal, user, pw, method, uri, body)
            if text is None:
                return
            p = digest.params(text)
            a = Ans(k, text, p, method, body, 'real', user)
            offered = digest.params(chal).get('qop')
            if p.get('qop') not in ((None,) if offered is None else (None,) + tuple(offered.split(','))):
                self.badqop.append((self.sim.t(), chal, text))
            self.sim.probe('realclient')
        else:
            p, wire, wbody, wmethod = self.forge(chal, user, pw, method, uri, body, kind)
            if p is None:
                return
            # wire values are what the server sees
            text = 'Digest ' + ch.choice('a.sep', (',', ', ')).join(
                '%s=%s' % (kk, v if kk in ('algorithm', 'nc', 'qop') and not ch.flip('a.q', 0.0) else '"%s"' % v) for kk, v in wire)
            a = Ans(k, text, dict(wire), wmethod, wbody, kind, user)
            body, method = wbody, wmethod
        self.answers[k] = a
        self.sim.log('ANS', k, n, a.kind, text)
        CliTx(ep, self.msg(ep, n, method, a, body), B2B, lambda tx, m: None)

    def real_client(self, chal, user, pw, method, uri, body):
        from sippy.SipWWWAuthenticate import SipWWWAuthenticate
        w = SipWWWAuthenticate(chal)
        w.parse()
        ok, qop = w.supportedAlgorithm()
        if not ok:
            return None
        return str(w.genAuthHF(user, pw, method, uri, body, qop))

    def forge(self, chal, user, pw, method, uri, body, kind):
        ch = self.ch
        c = digest.params(chal)
        alg, nonce, realm = c.get('algorithm'), c['nonce'], c.get('realm', '')
        qop = None
        if 'qop' in c and ch.flip('a.useqop', 0.8):
            q = c['qop'].split(',')
            qop = q[ch.pick('a.whichq', len(q))]
        nc, cnonce = '%08x' % (1 + ch.pick('a.nc', 3)), 'cn%d' % len(self.answers)
        calc_pw, wmethod, wbody = pw, method, body
        if kind == 'wrongpw':
            calc_pw = ch.choice('a.wpw', (pw + 'x', '', pw.upper(), pw[:-1], 'nobody'))
        elif kind == 'otherpw':
            calc_pw = USERS[ch.pick('a.u2', len(USERS))][1]
        elif kind == 'alg':
            alg = ALGS[ch.pick('a.alg2', len(ALGS))]
        elif kind == 'noalg':
            alg = None
        elif kind == 'alien':
            nonce = self.chals[ch.pick('a.al', len(self.chals))].nonce
        elif kind == 'flip':
            raw = bytearray(base64.b64decode(nonce + '=' * (-len(nonce) % 4)))
            for i in range(1 + ch.pick('a.nfl', 2)):
                b = ch.pick('a.fl', len(raw) * 8)
                raw[b >> 3] ^= 1 << (b & 7)
            nonce = base64.b64encode(bytes(raw)).decode().rstrip('=')
        elif kind == 'char':
            i = ch.pick('a.ci', len(nonce))
            nonce = nonce[:i] + ch.choice('a.cc', 'ABab01+/-_. ') + nonce[i + 1:]
        elif kind == 'trunc':
            i = 1 + ch.pick('a.tr', len(nonce) - 1)
            nonce = nonce[:-i] if ch.flip('a.trs', 0.5) else nonce[i:]
        elif kind == 'junk':
            i = ch.pick('a.ji', len(nonce) + 1)
            nonce = nonce[:i] + ch.choice('a.jc', ('-', '_', ' ', '!', '--', '$%', 'A', '=', '\u00e9')) + nonce[i:]
        elif kind == 'pad':
            nonce += ch.choice('a.pd', ('=', '==', '====', '=A', 'A', 'AAAA', ' '))
        elif kind == 'splice':
            o = self.chals[ch.pick('a.al', len(self.chals))].nonce
            i = ch.choice('a.sp', (16, 21, 22, 32, 42, 43, 48))
            nonce = nonce[:i] + o[i:]
        elif kind == 'invent':
            nonce = ch.choice('a.inv', ('', 'A' * 64, 'abc', base64.b64encode(bytes(range(48))).decode(), 'nonce', base64.b64encode(b'\0' * 32).decode(), '0' * 22))
        elif kind == 'foreign':
            f = [x for x in self.foreign if norm(x[0]) == norm(alg)]
            if not f:
                return None, None, None, None
            nonce = f[-1][1]
        elif kind == 'body':
            wbody = body + ch.choice('a.wb', ('!', ' ', '\r\n')) if not ch.flip('a.wb0', 0.3) else 'swapped'
        elif kind == 'method':
            wmethod = ch.choice('a.wm', ('REGISTER', 'MESSAGE', 'OPTIONS'))
        elif kind == 'uri':
            uri = 'sip:elsewhere@example.com'
        elif kind == 'crossqop':
            qop = ch.choice('a.xq', (None, 'auth', 'auth-int'))
        sess = norm(alg).endswith('-sess')
        r = digest.response(alg, user, realm, calc_pw, method, uri, nonce, qop, nc, cnonce, body)
        if kind == 'resp':
            i = ch.pick('a.ri', len(r))
            r = ch.choice('a.rm', (r[:i] + ('0' if r[i] != '0' else '1') + r[i + 1:], r[:i], '', 'None', r + '0', r[1:] + r[0]))
        wire = [('username', user), ('realm', realm), ('nonce', nonce), ('uri', uri), ('response', r)]
        if kind == 'mutlate':
            # the digest was computed over the true challenge, another one is presented
            o = self.chals[ch.pick('a.al', len(self.chals))].nonce
            wire[2] = ('nonce', o)
        if alg is not None:
            wire.append(('algorithm', alg if kind != 'badalg' else ch.choice('a.ba', ('MD4', 'SHA-1', 'none', 'SHA-512'))))
        if qop is not None:
            wire += [('qop', qop if kind != 'badqop' else 'auth-conf'), ('nc', nc), ('cnonce', cnonce)]
        elif sess:
            wire.append(('cnonce', cnonce))
        if kind == 'missing':
            del wire[ch.pick('a.mi', len(wire))]
        if 'opaque' in c:
            wire.append(('opaque', c['opaque']))
        if ch.flip('a.shuf', 0.3):
            i = ch.pick('a.sh', len(wire))
            wire = wire[i:] + wire[:i]
        return c, wire, wbody, wmethod


def oracle(w):
    c = w.crashed()
    if c:
        yield 'crash', c
    for t, a, b in w.dups:
        yield 'challenge-repeated', 'challenge %d issued at %.3f is the same as challenge %d (%.3f s before): %s' % (a.n, t, b.n, (a.t - b.t) / NS, a.nonce)
    for t, text, alg in w.badchal:
        yield 'challenge-wrong', 'at %.3f a challenge for algorithm %s reads %s' % (t, alg, text)
    for t, chal, text in w.badqop:
        yield 'client-qop', 'at %.3f the digest client answered %s with a protection that was not offered: %s' % (t, chal, text)
    for t, n, a, got, exp, why, exc, same in w.verdicts:
        if exp is None or not same:
            continue
        if exp and got is not True:
            yield 'good-refused:' + a.kind, 'at %.3f answer %d (%s) was refused (%s): %s' % (t, n, why, exc and repr(exc), a.text)
        elif not exp and got:
            yield 'bad-accepted:' + a.kind, 'at %.3f answer %d (%s, %s) was accepted: %s' % (t, n, a.kind, why, a.text)
        elif not exp and exc is not None:
            yield 'refusal-crash:' + a.kind, 'at %.3f judging answer %d (%s, %s) failed with %r: %s' % (t, n, a.kind, why, exc, a.text)
        if a.kind == 'real' and exp is False and why == 'wrong digest':
            yield 'client-wrong', 'at %.3f the digest client answered a challenge wrongly: %s' % (t, a.text)


def run(sim, ch, tier):
    w = AuthWorld(sim, ch)
    w.offers = {}
    horizon = 60.0
    for i in range(1 + ch.pick('n.cli', 5)):
        w.add_client(ch.choice('c.t', (0.5, 0.5, 1.0, 20.0)) + ch.real('c.tj', 0.0, 0.3))
    if ch.flip('burst', 0.15):
        w.onloop(ch.choice('b.t', (0.6, 10.0)), w.burst, 300)
    gen.clock_steps(sim, ch, 150.0, 4)
    gen.stalls(sim, ch, 100.0, 2, 2.0)
    w.start(1200.0)
    n = len(w.verdicts)
    return judge(w, [oracle], {'nontrivial': n > 0, 'answers': n, 'challenges': len(w.chals)})
