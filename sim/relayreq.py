"""C29: the stateful relay (--sip_proxy) of the real B2BUA between scripted
requesters and a scripted next hop."""
import re
from . import gen
from .b2b import B2B
from .endpoints import Endpoint, CliTx
from .sipmsg import Msg, parse, response, tag

NH = ('10.8.0.1', 5060)
TB = 32.0
DEL = (0.0, 0.0, 0.02, 0.3, 0.49, 0.6, 1.4, 3.4, 8.0, 20.0, 31.0, 31.9, 32.1, 33.0, 40.0)
FIN = (200, 200, 200, 401, 404, 403, 423, 500, 503, 603, 302, 202, 408, 483)


class Req(object):
    def __init__(self, n, plan):
        self.n, self.plan = n, plan
        self.msg = None
        self.t = None
        self.finals = []


class Relay(object):
    def __init__(self, w, ch):
        self.w, self.ch, self.sim = w, ch, w.sim
        self.reqs = []
        self.by = {}
        self.eps = {}
        self.hop = {}
        self.outages = []
        w.net.ends[NH] = self.nexthop

    def ep(self, k):
        if k not in self.eps:
            e = self.eps[k] = Endpoint(self.w, '10.6.0.%d' % (1 + k), 5060 + k % 2 * 1000)
        return self.eps[k]

    def add(self, t, plan):
        r = Req(len(self.reqs), plan)
        self.reqs.append(r)
        self.sim.at(t, self.go, r)

    def go(self, r):
        p = r.plan
        ep = self.ep(p['ep'])
        uri = 'sip:%s%s:%d' % (p['user'], B2B[0], B2B[1])
        m = Msg(p['method'], uri)
        m.add('via', ep.via())
        for i in range(p['vias']):
            v = 'SIP/2.0/UDP 192.0.2.%d:5060;branch=z9hG4bKup%d-%d' % (1 + i, r.n, i)
            if p['commavia']:
                m.headers[-1][1] += ', ' + v
            else:
                m.add('via', v)
        if p['mf'] is not None:
            m.add('max-forwards', str(p['mf']))
        m.add('from', '%s<sip:u%d@example.com>;tag=f%d' % (p['disp'], p['ep'], p['cseq']))
        m.add('to', '<sip:u%d@example.com>' % p['ep'])
        m.add('call-id', p['cid'])
        m.add('cseq', '%d %s' % (p['cseq'], p['method']))
        m.add('contact', '<sip:u%d@%s:%d>' % (p['ep'], ep.ip, ep.port))
        if p['expires'] is not None:
            m.add('expires', str(p['expires']))
        if p['supported']:
            m.add('supported', p['supported'])
        for x in p['path']:
            m.add('path', x)
        if p['method'] == 'SUBSCRIBE':
            m.add('event', 'presence')
        m.add('x-mark', 'mark %d, with a comma' % r.n)
        if p['auth']:
            m.add('authorization', 'Digest username="u",realm="r",nonce="n",uri="%s",response="00000000000000000000000000000000"' % uri)
        if p['body']:
            m.add('content-type', 'application/x-b')
            m.body = p['body']
        r.msg, r.t = m, self.sim.t()
        self.by[m.branch] = r
        self.sim.log('REQ', r.n, m.brief())
        r.tx = CliTx(ep, m, B2B, lambda tx, resp: r.finals.append((self.sim.t(), resp.code)) if resp.code >= 200 else None)

    def key(self, m):
        for v in vias(m)[:2]:
            b = re.search(r'branch=([^;,\s]+)', v)
            if b and b.group(1) in self.by:
                return self.by[b.group(1)]
        return None

    # -- next hop
    def nexthop(self, data, src, dst):
        t = self.sim.t()
        if any(a <= t < b for a, b in self.outages):
            self.sim.fault('nexthop_down')
            return
        m = parse(data)
        if not m.is_req or m.method not in ('REGISTER', 'SUBSCRIBE'):
            return
        r = self.key(m)
        if r is None:
            return
        h = self.hop.get(m.branch)
        if h is not None:
            # a retransmission: the last answer again
            if h['last'] is not None:
                self.w.net.inject(NH, src, h['last'])
            return
        h = self.hop[m.branch] = {'last': None}
        for d, code, kind in r.plan['answers']:
            self.sim.at(d + 0.0005, self.answer, h, m, src, code, kind, r)

    def answer(self, h, m, src, code, kind, r):
        if any(a <= self.sim.t() < b for a, b in self.outages):
            return
        x = response(m, code, 'R%d n%d' % (code, r.n))
        if code > 100:
            x.set('to', x.get('to') + (';tag=nh%d' % r.n if not x.to_tag else ''))
        x.add('x-answer', 'a%d %d' % (r.n, code))
        if code == 401:
            x.add('www-authenticate', 'Digest realm="r",nonce="nn%d"' % r.n)
        if code == 200 and m.method == 'REGISTER':
            x.add('contact', m.get('contact') + ';expires=77')
            for p in m.getall('path'):
                x.add('path', p)
        if kind == 'comma':
            vs = x.getall('via')
            x.remove('via')
            x.headers.insert(0, ['via', ', '.join(vs)])
        if kind == 'body' and 100 < code < 400:
            x.add('content-type', 'text/plain')
            x.body = 'hello %d' % r.n
        h['last'] = x.encode()
        self.w.net.inject(NH, src, h['last'])


def plan(ch, n, horizon):
    p = {'disp': ch.choice('p.disp', ('', '"A" ', '"A b, c" ', 'Zed ', '"J\u00fcrgen K" ')), 'ep': ch.pick('p.ep', 3), 'method': ch.choice('p.m', ('REGISTER', 'REGISTER', 'SUBSCRIBE')), 'user': ch.choice('p.u', ('', 'u@', 'svc@')),
         'vias': ch.choice('p.v', (0, 0, 0, 1, 2)), 'commavia': ch.flip('p.cv', 0.3), 'mf': ch.choice('p.mf', (70, 70, 70, 70, 2, 1, 0, 0, None, None, 5)),
         'cid': 'rel%d' % (n if ch.flip('p.cid', 0.7) else ch.pick('p.cid2', 3)), 'cseq': 100 + n, 'expires': ch.choice('p.ex', (None, 3600, 0)),
         'supported': ch.choice('p.sup', ('', '', 'path', 'timer, path', '100rel')), 'path': [], 'auth': ch.flip('p.au', 0.3),
         'body': ch.choice('p.b', ('', '', 'some body\r\n', 'b\u00f6dy \u20ac\r\n'))}
    if p['supported'] and ch.flip('p.path', 0.3):
        p['path'] = ['<sip:edge%d.example;lr>' % i for i in range(1 + ch.pick('p.np', 2))]
    if n and ch.flip('p.merge', 0.12):
        # another copy of a request, come another way
        o = ch.pick('p.mo', n)
        p['cid'], p['cseq'], p['merged'] = 'rel%d' % o, 100 + o, True
    t = 0.0
    ans = []
    if not ch.flip('p.silent', 0.12):
        for i in range(ch.pick('p.nprov', 3) if ch.flip('p.prov', 0.5) else 0):
            t += ch.choice('p.pd', DEL)
            ans.append((t + ch.real('p.pj', 0, 0.02), ch.choice('p.pc', (100, 180, 182, 183)), ''))
        if not ch.flip('p.nofin', 0.07):
            t += ch.choice('p.fd', DEL)
            ans.append((t + ch.real('p.fj', 0, 0.02), ch.choice('p.fc', FIN), ch.choice('p.fk', ('', '', 'comma', 'body'))))
            if ch.flip('p.second', 0.1):
                ans.append((t + ch.choice('p.sd', (0.05, 1.0, 10.0)), ch.choice('p.sc', FIN), ''))
    p['answers'] = ans
    return p


def setup(w, ch, horizon=60.0):
    rl = w.relayreq = Relay(w, ch)
    for n in range(1 + ch.pick('p.n', 6)):
        rl.add(0.3 + ch.choice('p.t', (0.0, 0.0, 0.5, 3.0, 20.0, 50.0)) + ch.real('p.tj', 0, 0.3), plan(ch, n, horizon))
    for i in range(ch.pick('p.no', 2)):
        a = ch.real('p.oa', 0.0, horizon)
        rl.outages.append((a, a + ch.choice('p.od', (0.3, 2.0, 10.0, 40.0))))
    return rl


def vias(m):
    out = []
    for v in m.getall('via'):
        out += [x.strip() for x in v.split(',')]
    return out


def nv(v):
    """a via without what its receiver may add"""
    return tuple(sorted(x for x in re.split(r'\s*;\s*', v) if not x.startswith('received') and not x.startswith('rport')))


def bag(m, drop):
    """headers whose meaning must survive, list headers split"""
    return sorted((n, canon(v)) for n, v in m.headers if n not in drop)


def canon(v):
    v = re.sub(r'\s*,\s*', ',', re.sub(r'\s+', ' ', v or ''))
    return re.sub(r'^"([\w.-]+)" <', r'\1 <', v)


def c29(w):
    rl = w.relayreq
    end = w.exit_t
    if w.result not in ('stop',):
        return
    ins, fwd, rin, rout = {}, {}, {}, {}
    for e in w.ev:
        m = e.m
        r = rl.key(m)
        if r is None or r.msg is None or not m.cmethod == r.plan['method']:
            continue
        if m.is_req:
            if e.d == 'i' and e.peer != NH:
                ins.setdefault(r.n, []).append(e)
            elif e.d == 'o':
                fwd.setdefault(r.n, []).append(e)
        else:
            if e.d == 'i' and e.peer == NH:
                rin.setdefault(r.n, []).append(e)
            elif e.d == 'o':
                rout.setdefault(r.n, []).append(e)
    stalled = lambda a, b: sum(max(0.0, min(y, b) - max(x, a)) for x, y in w.stall_log)
    due = lambda t: t + 0.15 + stalled(t - 5, t + 60) + getattr(w, 'lag', 0.0)
    for r in rl.reqs:
        I, F, A, O = ins.get(r.n, []), fwd.get(r.n, []), rin.get(r.n, []), rout.get(r.n, [])
        who = 'request %d (%s)' % (r.n, r.plan['method'])
        for e in F:
            if e.peer != NH:
                yield 'wrong-hop', '%s was sent to %s:%d at %.3f' % (who, e.peer[0], e.peer[1], e.t)
        for e in O:
            if e.peer != (rl.ep(r.plan['ep']).ip, rl.ep(r.plan['ep']).port):
                yield 'wrong-requester', '%s: answer %d went to %s:%d at %.3f' % (who, e.m.code, e.peer[0], e.peer[1], e.t)
        if not I:
            if F or O:
                yield 'from-nothing', '%s never came in, yet %d forwarded, %d answers' % (who, len(F), len(O))
            continue
        t0 = I[0].t
        mf = r.plan['mf']
        brs = []
        for e in F:
            if e.m.branch not in brs:
                brs.append(e.m.branch)
        if len(brs) > 1:
            yield 'forwarded-twice', '%s was forwarded %d times (branches %s)' % (who, len(brs), brs)
        if mf is not None and mf < 1 and F:
            yield 'hop-limit', '%s with Max-Forwards %d was forwarded at %.3f' % (who, mf, F[0].t)
        fins = [e for e in O if e.m.code >= 200]
        refused = mf is not None and mf <= 1 and not F
        if not F and not refused:
            if end > due(t0):
                yield 'not-forwarded', '%s taken at %.3f was not forwarded, answers %s' % (who, t0, [(round(e.t, 3), e.m.code) for e in O])
            continue
        # the copy sent on
        if F:
            f0 = F[0]
            if f0.t > due(t0):
                yield 'forwarded-late', '%s taken at %.3f was forwarded at %.3f' % (who, t0, f0.t)
            for x in differences(r.msg, f0.m):
                yield x[0], '%s %s' % (who, x[1])
            for e in F[1:]:
                if e.raw != f0.raw:
                    yield 'copies-differ', '%s was retransmitted with a difference at %.3f' % (who, e.t)
            # retransmissions stop at the answer
        # answers
        codes = []
        for e in O:
            k = (e.m.code, e.m.reason, e.m.to_tag, e.m.body)
            if k not in codes:
                codes.append(k)
                if e.m.code < 200 and any(c[0] >= 200 for c in codes):
                    yield 'provisional-after-final', '%s: %d sent at %.3f after the final answer' % (who, e.m.code, e.t)
        fk = [c for c in codes if c[0] >= 200]
        if len(fk) > 1:
            yield 'two-finals', '%s was answered %s' % (who, fk)
        for e in O:
            if [nv(v) for v in vias(e.m)] != [nv(v) for v in vias(r.msg)]:
                yield 'via-list', '%s: answer %d carries vias %s for %s' % (who, e.m.code, vias(e.m), vias(r.msg))
            if (e.m.callid, canon(e.m.get('from')), e.m.get('cseq')) != (r.msg.callid, canon(r.msg.get('from')), r.msg.get('cseq')):
                yield 'answer-ids', '%s: answer %d carries %s %s %s' % (who, e.m.code, e.m.callid, e.m.get('from'), e.m.get('cseq'))
        # number of copies: one, and one more per copy of the request that came in later
        for k in codes:
            n = [e for e in O if (e.m.code, e.m.reason, e.m.to_tag, e.m.body) == k]
            later = [e for e in I[1:] if e.t >= n[0].t - 0.001]
            if len(n) > 1 + len(later):
                yield 'answer-repeated', '%s: answer %d sent %d times for %d later copies of the request' % (who, k[0], len(n), len(later))
        if refused:
            if not fins:
                if end > due(t0):
                    yield 'hop-limit-silent', '%s with Max-Forwards %d got no answer' % (who, mf)
            elif fins[0].m.code != 483 or fins[0].t > due(t0):
                yield 'hop-limit', '%s with Max-Forwards %d was answered %d at %.3f' % (who, mf, fins[0].m.code, fins[0].t)
            continue
        # what should come of it
        edge = F[0].t + TB
        seen = set()
        sure = True
        final = None
        want = []
        for e in A:
            if final is not None:
                break
            if abs(e.t - edge) < due(edge) - edge:
                sure = False
                break
            if e.t > edge:
                break
            if e.raw in seen:
                continue
            seen.add(e.raw)
            if e.m.code >= 200:
                final = e
            else:
                edge = e.t + TB
            want.append(e)
        if not sure:
            continue
        for e in want:
            got = [o for o in O if o.m.code == e.m.code and o.m.get('x-answer') == e.m.get('x-answer')]
            if not got:
                if end > due(e.t):
                    yield 'answer-lost', '%s: answer %d received at %.3f was not passed on; sent %s' % (who, e.m.code, e.t, [(round(o.t, 3), o.m.code) for o in O])
            else:
                if got[0].t > due(e.t) or got[0].t < e.t - 0.001:
                    yield 'answer-late', '%s: answer %d received at %.3f was passed on at %.3f' % (who, e.m.code, e.t, got[0].t)
                for x in differences(e.m, got[0].m, True):
                    yield x[0], '%s: answer %s' % (who, x[1])
        if final is None:
            if end > due(edge):
                if not fins:
                    yield 'no-timeout', '%s forwarded at %.3f, last answer due by %.3f, never finally answered' % (who, F[0].t, edge)
                elif fins[0].m.code != 408 or fins[0].t < edge - 0.1 or fins[0].t > due(edge):
                    yield 'timeout-answer', '%s forwarded at %.3f, last answer due by %.3f, was answered %d at %.3f' % (who, F[0].t, edge, fins[0].m.code, fins[0].t)
        else:
            last = final.t
            for e in F:
                if e.t > due(last):
                    yield 'retransmit-after-final', '%s retransmitted at %.3f, final answer came at %.3f' % (who, e.t, last)
        w.sim.probe('rel:%s' % (final.m.code if final is not None else 'timeout'))


def differences(a, b, resp=False):
    drop = ('via', 'max-forwards', 'content-length', 'path')
    if resp:
        if (a.code, a.reason) != (b.code, b.reason):
            yield 'status-changed', '%d %s became %d %s' % (a.code, a.reason, b.code, b.reason)
        if [nv(v) for v in vias(a)][1:] != [nv(v) for v in vias(b)]:
            yield 'via-list', 'vias %s became %s' % (vias(a), vias(b))
        drop = ('via', 'content-length')
        if a.code <= 100:
            drop += ('to',)
    else:
        if a.uri != b.uri:
            yield 'uri-changed', 'for %s was forwarded for %s' % (a.uri, b.uri)
        va, vb = [nv(v) for v in vias(a)], [nv(v) for v in vias(b)]
        if vb[1:] != va or B2B[0] not in vias(b)[0]:
            yield 'via-list', 'vias %s became %s' % (vias(a), vias(b))
        mf = a.get('max-forwards')
        got = b.getall('max-forwards')
        if len(got) != 1 or (mf is not None and int(got[0]) != int(mf) - 1) or (mf is None and not 1 <= int(got[0]) <= 70):
            yield 'hop-limit', 'Max-Forwards %s became %s' % (mf, got)
        pa, pb = a.getall('path'), b.getall('path')
        pb = [x.strip() for p in pb for x in p.split(',')]
        if a.method == 'REGISTER' and 'path' in [x.strip() for x in (a.get('supported') or '').split(',')]:
            if len(pb) != len(pa) + 1 or pb[1:] != pa or B2B[0] not in pb[0]:
                yield 'path', 'path %s became %s' % (pa, pb)
        elif pb != pa:
            yield 'path', 'path %s became %s' % (pa, pb)
    ha, hb = bag(a, drop), bag(b, drop)
    if ha != hb:
        yield 'headers-changed', 'headers %s became %s' % ([x for x in ha if x not in hb], [x for x in hb if x not in ha])
    if a.body != b.body:
        yield 'body-changed', 'body %r became %r' % (a.body, b.body)
