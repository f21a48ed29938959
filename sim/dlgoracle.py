"""C14: every dialog of the B2BUA speaks consistent SIP, from the wire."""
import re
from collections import OrderedDict
from .sipmsg import hostport_of, uri_of, user_of


def canon(uri):
    """what matters of a URI: user, host, port"""
    return (user_of(uri), hostport_of(uri))


def private(host):
    return host.startswith(('10.', '172.31.', '192.168.'))


def ct(w, e):
    """the contact a message gives, as a server minding NATs has to take it"""
    u = e.m.contact_uri()
    if u and w.nat == 'full' and len(e.m.getall('via')) == 1 or u and w.nat == 'full' and not e.m.is_req:
        if private(hostport_of(u)[0]) and (e.m.is_req or not private(e.peer[0])):
            return 'sip:%s@%s:%d' % (user_of(u), e.peer[0], e.peer[1])
    return u


def lr(route):
    return re.search(r';lr\b', uri_of(route)) is not None


class Dlg(object):
    def __init__(self, callid):
        self.callid = callid
        self.side = None
        self.ltag = self.rtag = None       # of the B2BUA / of the peer
        self.targets = []                  # acceptable R-URIs, current one last
        self.routes = []
        self.maxcseq = None
        self.branches = {}
        self.inv = {}                      # cseq -> INVITE (Ev) the B2BUA sent
        self.inreq = OrderedDict()
        self.reinv_in = {}                 # (cseq, branch) -> INVITE received
        self.other = False


def via_core(v):
    v = re.sub(r';\s*(received|rport)(=[^;]*)?', '', v)
    return re.sub(r'\s+', ' ', v.strip())


def c14(w):
    dl = OrderedDict()
    for e in w.ev:
        m = e.m
        if m.method == '?' or m.callid is None:
            continue
        d = dl.get(m.callid)
        if d is None:
            d = dl[m.callid] = Dlg(m.callid)
        if e.d == 'i':
            take_in(w, d, e)
            continue
        g = out_req(w, d, e) if m.is_req else out_resp(w, d, e)
        for x in g:
            yield x


def take_in(w, d, e):
    m = e.m
    if m.is_req:
        d.inreq.setdefault((m.method, m.cseq, m.branch), e)
        if m.method == 'INVITE':
            if m.to_tag is None and d.side is None:
                d.side = 'A'
                d.rtag = m.from_tag
                d.targets = [ct(w, e)] if ct(w, e) else []
                d.routes = m.getall('record-route')
            elif m.to_tag is None and d.side == 'A':
                # another attempt with the same Call-ID (credentials)
                if (m.method, m.cseq, m.branch) in d.inreq and d.inreq[(m.method, m.cseq, m.branch)] is e:
                    d.rtag = m.from_tag
                    d.ltag = None
                    d.targets = [ct(w, e)] if ct(w, e) else []
                    d.routes = m.getall('record-route')
                    d.maxcseq = None
            elif ct(w, e) and d.inreq[(m.method, m.cseq, m.branch)] is e:
                d.reinv_in[(m.cseq, m.branch)] = e
        return
    if m.cmethod != 'INVITE':
        return
    i = d.inv.get(m.cseq)
    if i is None or i.m.branch != m.branch:
        return
    if 200 <= m.code < 300:
        if getattr(i, 'taken', None):
            return
        setattr_(i, m.code)
        if i.m.to_tag is None:
            d.rtag = m.to_tag
            d.targets = [ct(w, e)] if ct(w, e) else [i.m.uri]
            d.routes = list(reversed(m.getall('record-route')))
            d.est = True
        elif ct(w, e):
            d.targets = [ct(w, e)]


def setattr_(e, v):
    try:
        e.taken = v
    except AttributeError:
        pass


def ways(d, extra=()):
    """acceptable (R-URI, routes, destination) for a request inside the dialog"""
    out = []
    for t in list(d.targets) + list(extra):
        if not d.routes:
            out.append((canon(t), [], hostport_of(t)))
        elif lr(d.routes[0]):
            out.append((canon(t), [canon(uri_of(r)) for r in d.routes], hostport_of(uri_of(d.routes[0]))))
        else:
            u = uri_of(d.routes[0])
            out.append((canon(u), [canon(uri_of(r)) for r in d.routes[1:]] + [canon(t)], hostport_of(u)))
    return out


def out_req(w, d, e):
    m = e.m
    who = '%s cseq %s of %s at %.3f' % (m.method, m.get('cseq'), m.callid, e.t)
    key = (m.method, m.branch)
    if key in d.branches:
        if e.raw != d.branches[key].raw and m.method != 'ACK':
            yield ('copy-differs', '%s: repeated with another content' % who)
        if m.method != 'ACK':
            return
    d.branches.setdefault(key, e)
    if m.get('cseq', '').split()[-1:] != [m.method]:
        yield ('cseq-method', '%s: CSeq method differs' % who)
    if d.side is None:
        d.side = 'B'
    if m.method in ('ACK', 'CANCEL'):
        i = d.inv.get(m.cseq)
        if i is None:
            yield ('wrong-number', '%s: no INVITE with that number was sent' % who)
            return
        if m.from_tag != i.m.from_tag:
            yield ('tag', '%s: From tag %s, INVITE had %s' % (who, m.from_tag, i.m.from_tag))
        if m.method == 'CANCEL':
            if m.branch != i.m.branch or canon(m.uri) != canon(i.m.uri) or e.peer != i.peer or m.to_tag != i.m.to_tag:
                yield ('cancel', '%s: does not match its INVITE (branch, target, destination or To)' % who)
            return
        rs = [x for x in w.ev if x.d == 'i' and not x.m.is_req and x.m.callid == m.callid and x.m.cmethod == 'INVITE' and
              x.m.cseq == m.cseq and x.m.branch == i.m.branch and x.m.code >= 200 and x.n < e.n]
        if not rs:
            yield ('ack', '%s: no final answer was received' % who)
            return
        f = rs[0]
        if m.to_tag != f.m.to_tag:
            yield ('tag', '%s: To tag %s, the answer had %s' % (who, m.to_tag, f.m.to_tag))
        if f.m.code >= 300:
            if m.branch != i.m.branch or canon(m.uri) != canon(i.m.uri) or e.peer != i.peer:
                yield ('ack', '%s: does not match its INVITE (branch, target or destination)' % who)
            return
        c = ct(w, f)
        rr = list(reversed(f.m.getall('record-route')))
        t = Dlg(None)
        t.targets, t.routes = [c] if c else d.targets, rr
        ok = ways(t)
        if i.m.to_tag is not None:
            ok += ways(d, [c] if c else [])
        got = (canon(m.uri), [canon(uri_of(r)) for r in m.getall('route')], e.peer)
        if got not in ok:
            yield ('target', '%s: sent to %s, R-URI %s, routes %s; expected %s' % (who, e.peer, m.uri, m.getall('route'), ok))
        return
    if d.maxcseq is not None and m.cseq <= d.maxcseq:
        yield ('cseq', '%s: number not above %d' % (who, d.maxcseq))
    d.maxcseq = m.cseq
    if d.side == 'B':
        if d.ltag is None:
            d.ltag = m.from_tag
    if m.from_tag is None or (d.ltag is not None and m.from_tag != d.ltag):
        yield ('tag', '%s: From tag %s, dialog has %s' % (who, m.from_tag, d.ltag))
    if m.method == 'INVITE':
        d.inv[m.cseq] = e2 = Holder(e)
        if m.to_tag is None:
            if d.side == 'A':
                yield ('tag', '%s: in-dialog request without To tag' % who)
            return
    if m.to_tag != d.rtag:
        yield ('tag', '%s: To tag %s, dialog has %s' % (who, m.to_tag, d.rtag))
        return
    got = (canon(m.uri), [canon(uri_of(r)) for r in m.getall('route')], e.peer)
    ok = ways(d)
    if got not in ok:
        yield ('target', '%s: sent to %s, R-URI %s, routes %s; expected %s' % (who, e.peer, m.uri, m.getall('route'), ok))


class Holder(object):
    def __init__(self, e):
        self.e, self.m, self.n, self.t, self.peer, self.raw = e, e.m, e.n, e.t, e.peer, e.raw
        self.taken = None


def out_resp(w, d, e):
    m = e.m
    who = '%d to %s of %s at %.3f' % (m.code, m.get('cseq'), m.callid, e.t)
    r = d.inreq.get((m.cmethod, m.cseq, m.branch))
    if r is None:
        yield ('stray-answer', '%s: no such request was received' % who)
        return
    q = r.m
    if [via_core(v) for v in m.getall('via')] != [via_core(v) for v in q.getall('via')]:
        yield ('via', '%s: via list %s, request had %s' % (who, m.getall('via'), q.getall('via')))
    if m.from_tag != q.from_tag or uri_of(m.get('from', '')) != uri_of(q.get('from', '')):
        yield ('echo', '%s: From %s, request had %s' % (who, m.get('from'), q.get('from')))
    if uri_of(m.get('to', '')) != uri_of(q.get('to', '')) or (q.to_tag is not None and m.to_tag != q.to_tag):
        yield ('echo', '%s: To %s, request had %s' % (who, m.get('to'), q.get('to')))
    if m.code > 100 and m.to_tag is None and m.cmethod == 'INVITE' and q.to_tag is None and m.code not in (400, 481, 482):
        yield ('tag', '%s: no To tag' % who)
    if e.peer != r.peer:
        yield ('answer-dest', '%s: sent to %s, request came from %s' % (who, e.peer, r.peer))
    if m.cmethod == 'INVITE' and q.to_tag is None and m.code > 100 and d.side == 'A' and q.from_tag == d.rtag:
        if m.code < 300:
            if d.ltag is None:
                d.ltag = m.to_tag
            elif d.ltag != m.to_tag:
                yield ('tag', '%s: To tag %s, dialog has %s' % (who, m.to_tag, d.ltag))
            if m.getall('record-route') != q.getall('record-route') and \
                    [canon(uri_of(x)) for x in m.getall('record-route')] != [canon(uri_of(x)) for x in q.getall('record-route')]:
                yield ('record-route', '%s: Record-Route %s, request had %s' % (who, m.getall('record-route'), q.getall('record-route')))
    if m.cmethod == 'INVITE' and 200 <= m.code < 300 and (m.cseq, m.branch) in d.reinv_in:
        x = d.reinv_in.pop((m.cseq, m.branch))
        d.targets = [ct(w, x)]
