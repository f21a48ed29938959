"""Garbage, corrupted, replayed and misdirected datagrams (C15)."""
import re
from .b2b import B2B

ATT = '10.3.0.1'
TEMPLATES = (
    b'%(m)s sip:x@10.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 10.3.0.1%(vp)s;branch=z9hG4bKn%(i)d\r\nFrom: <sip:n@10.3.0.1>;tag=n%(i)d\r\n'
    b'To: <sip:x@10.0.0.1>%(tt)s\r\nCall-ID: noise%(i)d\r\nCSeq: %(i)d %(m)s\r\nMax-Forwards: 70\r\nContact: <sip:n@10.3.0.1>\r\n%(x)sContent-Length: 0\r\n\r\n',
    b'%(m)s sip:x@10.0.0.1 SIP/2.0\r\nv: SIP/2.0/UDP 10.3.0.1;rport;branch=z9hG4bKn%(i)d\r\nf: n <sip:n@10.3.0.1>;tag=n%(i)d\r\n'
    b't: sip:x@10.0.0.1%(tt)s\r\ni: noise%(i)d\r\nCSeq: %(i)d %(m)s\r\nm: *\r\n%(x)sl: 4\r\n\r\nv=0\r\n',
    b'SIP/2.0 %(c)d Whatever\r\nVia: SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bKn%(i)d\r\nFrom: <sip:n@10.3.0.1>;tag=n%(i)d\r\n'
    b'To: <sip:x@10.0.0.1>;tag=1\r\nCall-ID: noise%(i)d\r\nCSeq: %(i)d %(m)s\r\n%(x)sContent-Length: 0\r\n\r\n',
)
METHODS = (b'INVITE', b'BYE', b'ACK', b'CANCEL', b'OPTIONS', b'REGISTER', b'SUBSCRIBE', b'NOTIFY', b'PING', b'INFO', b'UPDATE', b'PRACK', b'REFER',
           b'MESSAGE', b'invite', b'FOO', b'PUBLISH')
EXTRA = (b'', b'Max-Forwards: 0\r\n', b'Max-Forwards: x\r\n', b'Expires: -1\r\n', b'Require: 100rel\r\n', b'Replaces: call0@10.1.0.9\r\n',
         b'Authorization: Digest username="a", realm="b", nonce="c", uri="d", response="e"\r\n', b'Authorization: Basic x\r\n', b'Authorization: Digest\r\n',
         b'cisco-GUID: 1-2-3\r\n', b'h323-conf-id: x\r\n', b'Route: <sip:10.0.0.1;lr>\r\n', b'Record-Route: <x>\r\n', b'Reason: x;cause=y\r\n',
         b'Content-Type: multipart/mixed;boundary=x\r\n', b'Content-Type: \r\n', b'Refer-To: <sip:z@10.3.0.9>\r\n', b'Also: <sip:z@10.3.0.9>\r\n',
         b'Diversion: <sip:z>\r\n', b'P-Asserted-Identity: x\r\n', b'RAck: 1\r\n', b'Warning: 399\r\n', b'Path: z\r\n', b'Allow:\r\n', b'Supported: ,\r\n')
JUNK = (b'', b' ', b'\x00', b'a' * 5000, b'"', b'<', b'<sip:', b'sip:[::1', b'%zz', b'-1', b'0', b'9' * 40, b'\xc3\xa9', b'\xff\xfe', b';;;=,=', b'@', b'sip:@:',
        b'*', b'<sip:x@10.0.0.1:99999>', b'1 2 3', b'x INVITE', b'1e9', b'tel:+1', b'<>', b'"a" <sip:a@b>;tag', b'a,b,c', b'SIP/2.0/UDP', b'SIP/2.0/UDP :;branch',
        b'\x0b\x0c\x1c', b'\xe2\x80\xa8', b'%s%n%d', b'{}{0}', b'sip:x@[fe80::1%25eth0]:5060', b'Digest', b'INVITE', b'4294967296 BYE', b'\t', b'=?', b'sips:a',
        b'SIP/2.0/UDP 10.3.0.1:99999;branch=z9hG4bKq1', b'SIP/2.0/UDP 10.3.0.1:-5;branch=z9hG4bKq2', b'SIP/2.0/UDP 10.3.0.1:0;branch=z9hG4bKq3',
        b'<sip:x@10.3.0.1:70000>', b'SIP/2.0/UDP [10.3.0.1:5060;branch=z9hG4bKq4;rport=66000')


def junk(ch):
    return JUNK[ch.pick('nz.junk', len(JUNK))]


def mutate_once(ch, d, pool):
    k = ch.weighted('nz.mk', (3, 2, 2, 6, 3, 2, 2, 1, 2, 3, 2, 2))
    if k == 0:                                    # flip some bytes
        b = bytearray(d)
        for i in range(1 + ch.pick('nz.nf', 4)):
            if b:
                b[ch.pick('nz.fp', len(b))] = ch.pick('nz.fb', 256)
        return bytes(b)
    if k == 1:                                    # cut short
        return d[:ch.pick('nz.cut', len(d) + 1)]
    if k == 2:                                    # splice with another
        e = pool[ch.pick('nz.sp', len(pool))] if pool else d
        return d[:ch.pick('nz.cut', len(d) + 1)] + e[ch.pick('nz.cut2', len(e) + 1):]
    head, sep, body = d.partition(b'\r\n\r\n')
    ls = head.split(b'\r\n')
    if k == 9:                                    # body
        bl = body.split(b'\r\n')
        i = ch.pick('nz.bl', len(bl))
        x = ch.pick('nz.bk', 4)
        if x == 0:
            del bl[i]
        elif x == 1:
            bl.insert(i, bl[i])
        elif x == 2:
            bl[i] = bl[i][:2] + junk(ch)
        else:
            bl = [junk(ch)]
        return head + sep + b'\r\n'.join(bl)
    if k == 10:                                   # start line
        p = ls[0].split(b' ')
        p[ch.pick('nz.sl', len(p))] = junk(ch) if ch.flip('nz.slj', 0.5) else METHODS[ch.pick('nz.m', len(METHODS))]
        ls[0] = b' '.join(p)
        return b'\r\n'.join(ls) + sep + body
    if k == 11:                                   # extra header
        ls.insert(1 + ch.pick('nz.hi', len(ls)), EXTRA[ch.pick('nz.x', len(EXTRA))].rstrip(b'\r\n') or b'no colon here')
        return b'\r\n'.join(ls) + sep + body
    if len(ls) < 2:
        return d + junk(ch)
    i = 1 + ch.pick('nz.h', len(ls) - 1)
    n, c, v = ls[i].partition(b':')
    if k == 3:
        x = ch.pick('nz.hv', 4)
        if x == 0:
            ls[i] = n + b': ' + junk(ch)
        elif x == 1:
            ls[i] = n + b':' + v + junk(ch)
        elif x == 2:
            p = ch.pick('nz.vp', len(v) + 1)
            ls[i] = n + b':' + v[:p] + junk(ch) + v[p:]
        else:
            ps = v.split(b';')
            j = ch.pick('nz.pp', len(ps))
            ps[j] = ps[j].partition(b'=')[0] + b'=' + junk(ch)
            ls[i] = n + b':' + b';'.join(ps)
    elif k == 4:
        del ls[i]
    elif k == 5:
        ls.insert(1 + ch.pick('nz.di', len(ls) - 1), ls[i])
    elif k == 6:
        ls[i] = junk(ch) + c + v
    elif k == 7:
        ls[i] = n.swapcase() + c + v
    else:
        j = 1 + ch.pick('nz.sw', len(ls) - 1)
        ls[i], ls[j] = ls[j], ls[i]
    return b'\r\n'.join(ls) + sep + body


class Noise(object):
    def __init__(self, w, n, until, own=False):
        w.rubbish = True
        self.w, self.left, self.until = w, n, until
        self.neutral = set()
        self.pool = []            # datagrams seen on the wire (both ways)
        self.sent = []            # (t, src, data)
        self.i = 0
        self.recid = w.sim.ch.choice('nz.recid0', (0.5, 0.9, 1.0)) if not own else 1.0
        w.on_ev.append(self.seen)
        self.more()

    def seen(self, e):
        if len(self.pool) < 300:
            self.pool.append(e.raw)

    def more(self):
        ch = self.w.sim.ch
        if self.left <= 0 or self.w.sim.t() > self.until:
            return
        self.left -= 1
        self.w.sim.at(ch.choice('nz.t', (0.0, 0.001, 0.02, 0.5, 3.0, 10.0)) + ch.real('nz.tj', 0.0, 0.05), self.one)

    def make(self):
        ch = self.w.sim.ch
        self.i += 1
        k = ch.weighted('nz.k', (1, 4, 8, 3, 2))
        if k == 4:
            d = self.wrong_tag()
            if d is not None:
                return d
            k = 1
        if k == 0 or not self.pool and k != 1:
            n = ch.choice('nz.len', (0, 4, 31, 32, 200, 4000))
            return bytes(ch.pick('nz.b', 256) for i in range(min(n, 60))) * max(1, n // 60)
        if k == 1:
            d = TEMPLATES[ch.pick('nz.tpl', len(TEMPLATES))] % {
                b'm': METHODS[ch.pick('nz.m', len(METHODS))], b'i': self.i + 10 * self.w.sim.ch.pick('nz.i', 3), b'c': ch.choice('nz.c', (100, 180, 200, 302, 401, 487, 600, 999, 0, 99)),
                b'x': EXTRA[ch.pick('nz.x', len(EXTRA))], b'tt': (b'', b';tag=zz')[ch.pick('nz.tt', 2)],
                b'vp': (b':5060', b':99999', b':0', b'', b';maddr=224.0.0.1', b':66000;received=::1', b';rport=-1')[ch.weighted('nz.vp', (6, 1, 1, 1, 1, 1, 1))]}
        else:
            d = self.pool[ch.pick('nz.pool', len(self.pool))]
            if (k == 2 or self.recid == 1.0) and ch.flip('nz.recid', self.recid):
                # same message, as another call of the attacker's own
                d = re.sub(rb'call\d+@10\.1\.0\.\d+(-b2b_\d+)?', b'noise%d' % (self.i % 7), d)
            if k == 3:
                return d
        for i in range(ch.pick('nz.nm', 4) if k == 1 else 1 + ch.pick('nz.nm', 3)):
            d = mutate_once(ch, d, self.pool)
        return d[:60000]

    def wrong_tag(self):
        """a request inside somebody's dialog, but for the tags: belongs to no call"""
        ch = self.w.sim.ch
        ds = [d for d in self.pool if re.search(rb'(?im)^to:.*;tag=', d) and d[:4] in (b'BYE ', b'INFO', b'INVI') and b'Call-ID: call' in d]
        if not ds:
            return None
        d = ds[ch.pick('nz.wt', len(ds))]
        m = ch.choice('nz.wtm', (b'BYE', b'INFO', b'INVITE', b'UPDATE', b'REFER', b'OPTIONS'))
        d = re.sub(rb'^\w+ ', m + b' ', d)
        d = re.sub(rb'(?im)^(cseq: \d+) \w+', rb'\1 ' + m, d)
        which = ch.pick('nz.wtw', 3)
        if which != 1:
            d = re.sub(rb'(?im)^(from:.*;tag=)[^;\r]*', rb'\1nz%d' % self.i, d)
        if which != 0:
            d = re.sub(rb'(?im)^(to:.*;tag=)[^;\r]*', rb'\1nz%d' % self.i, d)
        d = re.sub(rb'branch=[^;\r,]*', b'branch=z9hG4bKnz%d' % self.i, d)
        self.neutral.add(d)
        self.w.sim.fault('noise_wrong_tag')
        return d

    def one(self):
        w, ch = self.w, self.w.sim.ch
        d = self.make()
        ip = ch.choice('nz.src', (ATT, ATT, '10.1.0.1', '10.2.0.1', '10.1.0.2', '192.168.1.1'))
        src = (ip, ch.choice('nz.port', (5060, 5060, 1024, 65535)))
        for k in range(1 + (ch.pick('nz.rep', 3) if ch.flip('nz.again', 0.15) else 0)):
            self.sent.append((w.sim.t(), src, d))
            w.net.inject(src, B2B, d)
        w.sim.fault('noise')
        w.sim.log('NOISE', src[0], d[:70])
        self.more()


def touched(noise):
    """numbers of the calls some injected datagram could have been about"""
    out = set()
    for t, src, d in noise.sent:
        if d in noise.neutral:
            continue
        for m in re.finditer(rb'(?i)call(\d+)', d):
            out.add(int(m.group(1)))
        # a damaged call-id of a replayed message still carries its branch or tags
    return out


CID = re.compile(r'call(\d+)@10\.1\.0\.\d+(?:-b2b_\d+)?$')


def restrict(w, noise):
    """forget everything about calls the noise was about; what is left must be
    as if there had been no noise"""
    bad = touched(noise)
    raws = set(d for t, s, d in noise.sent)

    def mine(callid):
        m = CID.match(callid or '')
        return m is not None and int(m.group(1)) not in bad and int(m.group(1)) < len(w.calls)
    w.noise_calls = bad
    w.sim.fault('calls_disturbed', len(bad))
    w.clean = [c for c in w.calls if c.n not in bad]
    w.ev_all = w.ev
    w.ev = [e for e in w.ev if e.m.method != '?' and mine(e.m.callid) and not (e.m.branch or '').startswith('z9hG4bKnz')]
    w.acct = [r for r in w.acct if mine(r['callid'])]
    w.auth_jobs = [r for r in w.auth_jobs if mine(r['callid'])]
    w.badwire = []
    w._view = None


def harmless(oracle):
    """judge only the calls the noise was not about"""
    def f(w):
        if getattr(w, 'clean', None) is None:
            restrict(w, w.noise)
        for x in oracle(w):
            yield x
    return f


def served(w):
    """every untouched call got through: an attempt was made for it"""
    from .oracles import V, delta
    v = V(w)
    have = {A.callid for A in v.A()}
    for c in w.clean:
        if c.callid not in have and c.t < w.exit_t - 40 and c.leg is not None and c.t > 1 and w.result == 'stop':
            yield ('not-served', 'call %d started at %.3f was never taken' % (c.n, c.t))
