"""C28: the real registration agent over the real transaction manager, with a
scripted registrar on the other side of a lossy network."""
from .tmworld import TMWorld
from .b2b import B2B
from .sipmsg import parse, response, uri_of, tag
from .unit import judge
from . import gen, digest

RETRY = 60.0
TB = 32.0
EXPS = (180, 180, 60, 300, 3600, 40, 100)
GRANTS = (None, None, None, 60, 90, 120, 180, 600, 3600, 35, 20)
CODES = (403, 404, 500, 503, 302, 486, 600, 423, 200)


class Tx(object):
    def __init__(self, n, t, m):
        self.n, self.t, self.m = n, t, m
        self.arr = []
        self.resp = None          # (code, text, grant, kind)
        self.fin_in = None        # first final delivered to the agent
        self.sent = [t]
        self.prov_in = None


class Agent(object):
    def __init__(self, n, plan):
        self.n, self.plan = n, plan
        self.addr = ('10.4.%d.1' % (n + 1), plan['port'])
        self.txs = []
        self.bybr = {}
        self.cbs = []
        self.start_t = None
        self.stop_t = None
        self.nonces = {}          # nonce -> [expiry time, uses left, proxy]
        self.nn = 0
        self.script = list(plan['script'])
        self.agent = None
        self.flood = None


class RegWorld(TMWorld):
    def __init__(self, sim, ch, netcfg):
        TMWorld.__init__(self, sim, ch, netcfg)
        self.agents = []
        self.byaddr = {}
        self.net.on_dlv.append(self.dlv)
        self.net.on_sent.append(self.sent)

    def req_cb(self, req, t):
        return (req.genResponse(501, 'No'), None, None)

    # -- agents
    def add_agent(self, plan):
        a = Agent(len(self.agents), plan)
        self.agents.append(a)
        self.byaddr[a.addr] = a
        self.net.ends[a.addr] = lambda data, src, dst: self.registrar(a, data, src)
        self.onloop(plan['start'], self.go, a)
        if plan.get('stop') is not None:
            self.onloop(plan['stop'], self.stop, a)

    def go(self, a):
        from sippy.SipRegistrationAgent import SipRegistrationAgent
        from sippy.SipURL import SipURL
        p = a.plan
        aor = SipURL(username='u%d' % a.n, host=a.addr[0], port=a.addr[1])
        ct = SipURL(username='u%d' % a.n, host=B2B[0], port=B2B[1])
        a.start_t = self.sim.t()
        a.agent = SipRegistrationAgent(self.global_config, aor, ct, user=p['user'], passw=p['passw'], exp=p['exp'],
                                       rok_cb=lambda t, c, arg: self.cb(a, 'ok', arg), rfail_cb=lambda sl, arg: self.cb(a, 'fail', arg, sl), cb_arg=('arg', a.n))
        a.agent.doregister()

    def stop(self, a):
        if a.stop_t is not None:
            return
        self.sim.mark('stop')
        self.sim.log('STOP', a.n)
        a.agent.stopregister()
        a.stop_t = self.sim.t()

    def cb(self, a, what, arg, extra=None):
        self.sim.log('CB', a.n, what, extra)
        self.sim.mark('cb' + what)
        a.cbs.append((self.sim.t(), what, extra, arg))
        if a.plan.get('stop_in_cb') == len(a.cbs):
            self.stop(a)

    # -- observation
    def sent(self, rec):
        seq, t, src, dst, data = rec
        a = self.byaddr.get(dst)
        if a is None or src != B2B:
            return
        m = parse(data)
        if m.method != 'REGISTER':
            return
        tx = a.bybr.get(m.branch)
        if tx is None:
            tx = a.bybr[m.branch] = Tx(len(a.txs), t, m)
            a.txs.append(tx)
            self.sim.log('REG', a.n, tx.n, m.get('cseq'), m.get('authorization') or m.get('proxy-authorization') or '')
            self.sim.mark('r')
        else:
            tx.sent.append(t)

    def dlv(self, src, dst, data):
        a = self.byaddr.get(src)
        if a is None:
            return
        m = parse(data)
        tx = a.bybr.get(m.branch)
        if m.code < 200 and tx is not None and tx.prov_in is None:
            tx.prov_in = self.sim.t()
        if m.code >= 200 and tx is not None and tx.fin_in is None:
            tx.fin_in = (self.sim.t(), m)
            self.sim.log('FIN', a.n, tx.n, m.code)

    # -- the registrar
    def registrar(self, a, data, src):
        t = self.sim.t()
        if any(x <= t < y for x, y in a.plan['outages']):
            self.sim.fault('registrar_down')
            return
        m = parse(data)
        if not m.is_req or m.method != 'REGISTER':
            return
        tx = a.bybr[m.branch]
        if a.flood or (tx.n >= 30 and t - a.txs[tx.n - 30].t < 5.0):
            a.flood = a.flood or t
            return
        tx.arr.append(t)
        if tx.resp is None:
            p = a.plan
            step = a.script.pop(0) if a.script else dict(act='ok')
            kind, r = self.decide(a, tx, m, step)
            tx.resp = (kind, r, t)
            tx.ready = t + step.get('delay', 0.0)
            if step.get('prov'):
                self.sim.at(step['prov'], self.net.inject, a.addr, src, response(m, step.get('pcode', 100), 'Wait').encode())
            self.sim.log('REGISTRAR', a.n, tx.n, kind, r.code)
        self.sim.at(max(0.0, tx.ready - t) + 0.0005, self.net.inject, a.addr, src, tx.resp[1].encode())

    def good(self, a, m, hname, proxy):
        for v in m.getall(hname):
            try:
                okd, p = digest.verify(v, 'REGISTER', a.plan['passw'] or '')
            except KeyError:
                continue
            n = a.nonces.get(p.get('nonce'))
            if okd and not a.plan['never'] and n and n[2] == proxy and p.get('username') == a.plan['user'] and self.sim.t() <= n[0]:
                return True
        return False

    def decide(self, a, tx, m, step):
        ch = self.ch
        act = step['act']
        p = a.plan
        if act == 'rej':
            r = response(m, step['code'], 'R%d' % step['code'])
            if step.get('rchal'):
                self.put_chal(a, r, False, 'MD5', None)
            return ('rej', r)
        if p['proxyauth'] and not self.good(a, m, 'proxy-authorization', True) or act == 'chal407':
            r = response(m, 407, 'Proxy auth')
            k = self.put_chal(a, r, True, p['alg'], p['qop'])
            return (k, r)
        if p['auth'] and not self.good(a, m, 'authorization', False) or act == 'chal401':
            r = response(m, 401, 'Unauthorized')
            k = self.put_chal(a, r, False, p['alg'], p['qop'])
            # (the proxy on the way has been satisfied)
            r.keep = p['proxyauth'] and self.good(a, m, 'proxy-authorization', True)
            return (k, r)
        if step.get('weird'):
            r = response(m, 200, 'OK')
            if step['weird'][0] == 'c':
                r.add('contact', '<%s>;expires=%s' % (uri_of(m.get('contact')), step['weird'][1:]))
            else:
                r.add('expires', step['weird'][1:])
            return ('weird', r)
        g = step.get('grant') or p['exp']
        r = response(m, 200, 'OK')
        # every binding of the address of record is listed
        me = uri_of(m.get('contact'))
        others = ['<sip:u%d@10.9.9.%d:5060>;expires=%d' % (a.n, i + 1, x) for i, x in enumerate(step.get('others', ()))]
        how = step.get('how', 'contact')
        mine = '<%s>' % me
        if step.get('fancy'):
            mine = '"U" <%s>;q=0.7' % me
        if how != 'expires' and how != 'none':
            mine += ';expires=%d' % g
        if how == 'nocontact':
            r.add('expires', str(g))
        else:
            cl = others[:step.get('pos', 0)] + [mine] + others[step.get('pos', 0):]
            if step.get('comma'):
                r.add('contact', ', '.join(cl))
            else:
                for c in cl:
                    r.add('contact', c)
            if how == 'expires':
                r.add('expires', str(g))
            elif how == 'none':
                g = p['exp']
            elif how == 'both':
                r.add('expires', str(g + step.get('diff', 500)))
        r.grant = g
        return ('ok', r)

    def put_chal(self, a, r, proxy, alg, qop):
        a.nn += 1
        nonce = 'n%dx%d' % (a.n, a.nn)
        a.nonces[nonce] = [self.sim.t() + a.plan['nlife'], 99, proxy]
        v = 'Digest realm="%s",nonce="%s"' % ('reg.example', nonce)
        if alg:
            v += ',algorithm=%s' % alg
        if qop:
            v += ',qop="%s"' % qop
        if a.plan['opaque']:
            v += ',opaque="o%d"' % a.nn
        r.add('proxy-authenticate' if proxy else 'www-authenticate', v)
        r.chal = (proxy, nonce, alg, qop)
        ok = alg in (None, 'MD5', 'SHA-256', 'SHA-512-256') or (alg in ('MD5-sess', 'SHA-256-sess', 'SHA-512-256-sess') and qop)
        if alg not in (None, 'MD5') and not qop:
            ok = False
        if qop and not set(x.strip() for x in qop.split(',')) & set(('auth', 'auth-int')):
            ok = False
        return 'chal' if ok else 'badchal'


def plan_agent(ch, n, horizon):
    p = {'port': ch.choice('r.port', (5060, 5070)), 'start': ch.real('r.st', 0.2, 3.0),
         'user': None, 'passw': None, 'exp': ch.choice('r.exp', EXPS), 'auth': False, 'proxyauth': False,
         'alg': None, 'qop': None, 'opaque': False, 'never': False, 'nlife': 1e9}
    if ch.flip('r.auth', 0.6):
        p['user'], p['passw'] = 'u%d' % n, ch.choice('r.pw', ('secret', 's:e', ''))
        p['auth'] = ch.flip('r.a401', 0.7)
        p['proxyauth'] = not p['auth'] or ch.flip('r.a407', 0.25)
        p['alg'] = ch.choice('r.alg', (None, None, 'MD5', 'MD5', 'MD5-sess', 'SHA-256', 'SHA-512-256-sess'))
        p['qop'] = ch.choice('r.qop', (None, 'auth', 'auth-int', 'auth,auth-int'))
        if p['alg'] not in (None, 'MD5') and ch.flip('r.fq', 0.95):
            p['qop'] = p['qop'] or 'auth'
        if ch.flip('r.badchal', 0.05):
            p['alg'] = 'MD4'
        p['never'] = ch.flip('r.never', 0.08)
        p['opaque'] = ch.flip('r.opq', 0.2)
        p['nlife'] = ch.choice('r.nl', (1e9, 1e9, 32.0, 100.0, 1000.0))
        if ch.flip('r.nouser', 0.06):
            p['user'] = p['passw'] = None
    script = []
    for i in range(ch.pick('r.ns', 16)):
        s = {'act': 'ok'}
        x = ch.weighted('r.act', (12, 4, 2))
        if x == 1:
            s['act'] = 'rej'
            s['code'] = ch.choice('r.code', CODES[:-1])
        elif x == 2 and p['user'] is not None:
            s['act'] = ch.choice('r.chal', ('chal401', 'chal407'))
        if ch.flip('r.dl', 0.25):
            s['delay'] = ch.choice('r.dlv', (0.1, 0.6, 3.0, 10.0, 28.0, 31.0, 33.0))
            if ch.flip('r.pv', 0.3):
                s['prov'] = 0.05
                s['pcode'] = ch.choice('r.pcd', (100, 182))
        s['grant'] = ch.choice('r.gr', GRANTS)
        s['how'] = ch.choice('r.how', ('contact', 'contact', 'contact', 'expires', 'both', 'nocontact', 'none'))
        if ch.flip('r.weird', 0.04):
            s['weird'] = ch.choice('r.wv', ('c0', 'cabc', 'c-5', 'c', 'e0', 'eabc', 'e-5', 'c1', 'c0x10', 'c7200s'))
        s['fancy'] = ch.flip('r.fn', 0.2)
        s['comma'] = ch.flip('r.cm', 0.3)
        if s['how'] in ('contact', 'both') and ch.flip('r.oth', 0.25):
            s['others'] = [ch.choice('r.ox', (5, 30, 1000, 3600, 100000)) for _ in range(1 + ch.pick('r.on', 2))]
            s['pos'] = ch.pick('r.pos', len(s['others']) + 1)
        script.append(s)
    p['script'] = script
    outs = []
    for i in range(ch.pick('r.no', 3)):
        a = ch.real('r.oa', 0.0, horizon * 0.7)
        outs.append((a, a + ch.choice('r.od', (1.0, 5.0, 20.0, 40.0, 100.0, 500.0))))
    p['outages'] = outs
    if ch.flip('r.stop', 0.3):
        p['stop'] = p['start'] + ch.choice('r.sp', (0.0, 0.001, 0.01, 0.5, 5.0, 31.9, 32.0, 33.0, 60.0, 150.0, 170.0, 500.0)) + ch.real('r.spj', 0.0, 0.05)
    elif ch.flip('r.stopcb', 0.1):
        p['stop_in_cb'] = 1 + ch.pick('r.scb', 4)
    return p


def oracle(w):
    c = w.crashed()
    if c:
        yield 'crash', c
    end = w.exit_t
    for a in w.agents:
        for x in judge_agent(w, a, end):
            yield x


def judge_agent(w, a, end):
    who = 'agent %d' % a.n
    if a.flood:
        yield 'flood', '%s floods its registrar with REGISTERs at %.3f' % (who, a.flood)
        return
    if a.start_t is None:
        return
    if not a.txs:
        if a.stop_t is None or a.stop_t > a.start_t + 1:
            yield 'no-register', '%s started at %.3f and sent nothing' % (who, a.start_t)
        return
    # after the stop
    if a.stop_t is not None:
        for tx in a.txs:
            if tx.t > w.due(a.stop_t, 0.0):
                yield 'register-after-stop', '%s stopped at %.3f sent a new REGISTER at %.3f' % (who, a.stop_t, tx.t)
        for t, what, extra, arg in a.cbs:
            if t > a.stop_t:
                yield 'report-after-stop', '%s stopped at %.3f reported %s at %.3f' % (who, a.stop_t, what, t)
    for i in range(1, len(a.txs)):
        p, q = a.txs[i - 1].m, a.txs[i].m
        if q.cseq <= p.cseq or q.callid != p.callid or q.from_tag != p.from_tag:
            yield 'bad-sequence', '%s REGISTER %d (CSeq %s, %s) follows CSeq %s, %s' % (who, i, q.get('cseq'), q.callid, p.get('cseq'), p.callid)
    end2 = min(end, a.stop_t if a.stop_t is not None else end)
    exp_cb = []
    tries = 0
    judged = True
    for i, tx in enumerate(a.txs):
        nxt = a.txs[i + 1] if i + 1 < len(a.txs) else None
        fin = tx.fin_in
        edge = tx.t + TB
        if tx.prov_in is not None and (fin is None or tx.prov_in < fin[0]):
            if abs(tx.prov_in - edge) < w.due(edge, 0.2) - edge:
                judged = False
                break
            if tx.prov_in < edge:
                edge = tx.prov_in + TB
        if fin is not None and fin[0] > edge - 0.1:
            if fin[0] < w.due(edge, 0.2):
                judged = False
                break
            fin = None
        if fin is None:
            r, kind, m = edge, 'timeout', None
        else:
            r, m = fin
            kind = tx.resp[0]
        late = w.due(r, 0.15)
        tol = late - r
        if late >= end2:
            judged = False
            break
        w.sim.probe('reg:' + kind)
        if kind == 'ok':
            L, g = tx.resp[1].grant, tx.resp[2]
            exp_cb.append((r, late, 'ok', tx))
            tries = 0
            if nxt is not None and nxt.t < r + L * 0.25 - 0.1:
                yield 'hurry', '%s was granted %d s at %.3f but re-registers at %.3f' % (who, L, g, nxt.t)
            if r - g > 0.05 * L:
                w.sim.probe('slow-grant')
                if nxt is None and end2 > r + L + 1.0 + w.stalled(r, r + L + 10):
                    yield 'lapsed', '%s granted %d s at %.3f (known to it at %.3f) never re-registers' % (who, L, g, r)
                    break
                continue
            lim = g + L + w.stalled(g, g + L)
            if (nxt is None and end2 > lim) or (nxt is not None and nxt.t >= lim):
                yield 'lapsed', '%s was granted %d s at %.3f (known to it at %.3f), next REGISTER %s' % (
                    who, L, g, r, 'at %.3f' % nxt.t if nxt else 'never')
                break
            continue
        if kind == 'weird':
            # nonsense from the registrar: whatever is made of it, the agent goes on, unhurriedly
            tries = 0
            exp_cb.append((r, late, None, tx))
            if nxt is None:
                if end2 > w.due(r + max(RETRY, a.plan['exp']), 1.0) + tol:
                    yield 'gave-up', '%s got %r at %.3f and never tried again' % (who, tx.resp[1].headers[-1], r)
                    break
            elif nxt.t < r + 0.4 or nxt.t > w.due(r + max(RETRY, a.plan['exp']), 1.0) + tol:
                yield 'weird-pace', '%s got %r at %.3f, next REGISTER at %.3f' % (who, tx.resp[1].headers[-1], r, nxt.t)
            continue
        if kind == 'chal' and a.plan['user'] is not None and tries < 3:
            tries += 1
            proxy, nonce, alg, qop = tx.resp[1].chal
            if nxt is None:
                if end2 > late:
                    yield 'challenge-ignored', '%s was challenged (%d) at %.3f (answer no. %d) and sends nothing' % (who, m.code, r, tries)
                    break
                continue
            if nxt.t > late:
                yield 'challenge-ignored', '%s was challenged (%d) at %.3f (answer no. %d), next REGISTER only at %.3f' % (who, m.code, r, tries, nxt.t)
                continue
            hn = 'proxy-authorization' if proxy else 'authorization'
            good = 0
            for v in nxt.m.getall(hn):
                try:
                    okd, p = digest.verify(v, 'REGISTER', a.plan['passw'])
                except KeyError:
                    okd, p = False, {}
                if okd and p.get('nonce') == nonce and p.get('username') == a.plan['user'] and (p.get('algorithm') or 'MD5') == (alg or 'MD5'):
                    good += 1
            if getattr(tx.resp[1], 'keep', False) and len(nxt.m.getall('proxy-authorization')) != 1:
                yield 'lost-credentials', '%s satisfied the proxy, was then challenged by the registrar at %.3f and answers with %d proxy credentials' % (
                    who, r, len(nxt.m.getall('proxy-authorization')))
            if good != 1 or len(nxt.m.getall(hn)) != 1:
                yield 'bad-credentials', '%s was challenged at %.3f with %s, answers %s: %r other: %r' % (
                    who, r, m.get('proxy-authenticate' if proxy else 'www-authenticate'), hn, nxt.m.getall(hn),
                    nxt.m.getall('authorization' if proxy else 'proxy-authorization'))
            continue
        if kind == 'chal' and a.plan['user'] is not None and nxt is not None and nxt.t <= late and tries < 5:
            tries += 1
            continue
        # failure
        tries = 0
        exp_cb.append((r, late, 'fail', tx))
        if nxt is None:
            if end2 > w.due(r + RETRY, 0.15) + tol:
                yield 'gave-up', '%s failed (%s) at %.3f and never tried again' % (who, kind, r)
                break
        elif nxt.t < r + RETRY - 0.1 or nxt.t > w.due(r + RETRY, 0.15) + tol:
            yield 'retry-time', '%s failed (%s) at %.3f, tried again at %.3f' % (who, kind, r, nxt.t)
    # reports
    cbs = [x for x in a.cbs]
    for j, (r, late, what, tx) in enumerate(exp_cb):
        if j >= len(cbs):
            yield 'not-reported', '%s: %s of REGISTER %d at %.3f was not reported' % (who, what, tx.n, r)
            return
        t, got, extra, arg = cbs[j]
        if (what and got != what) or t < r - 0.001 or t > late or arg != ('arg', a.n):
            yield 'misreported', '%s: %s of REGISTER %d at %.3f was reported as %s at %.3f' % (who, what, tx.n, r, got, t)
            return
        if what == 'fail' and tx.fin_in is not None and tx.fin_in[0] <= r and str(tx.fin_in[1].code) not in str(extra):
            yield 'misreported', '%s: failure %d of REGISTER %d was reported as %s' % (who, tx.fin_in[1].code, tx.n, extra)
    if judged and len(cbs) > len(exp_cb) and cbs[len(exp_cb)][0] < end2 - 1:
        yield 'reported-twice', '%s: report %r without cause' % (who, cbs[len(exp_cb)][:3])


def run(sim, ch, tier):
    cfg = gen.netcfg(sim, ch, loss=0.2, dup=0.15, slow=0.2)
    horizon = ch.choice('hz', (400.0, 1200.0, 4000.0))
    w = RegWorld(sim, ch, cfg)
    for n in range(1 + ch.pick('n.ag', 3)):
        w.add_agent(plan_agent(ch, n, horizon))
    gen.clock_steps(sim, ch, horizon, 3)
    gen.stalls(sim, ch, horizon, 3, 3.0)
    w.start(horizon)
    n = sum(len(a.txs) for a in w.agents)
    return judge(w, [oracle], {'nontrivial': n > 0, 'registers': n})
