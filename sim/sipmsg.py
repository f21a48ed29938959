"""A small SIP message parser/serialiser independent of the code under test."""
import re

COMPACT = {'v': 'via', 'f': 'from', 't': 'to', 'm': 'contact', 'i': 'call-id', 'l': 'content-length',
           'c': 'content-type', 'e': 'content-encoding', 's': 'subject', 'k': 'supported', 'r': 'refer-to',
           'b': 'referred-by', 'o': 'event', 'u': 'allow-events'}


class Msg(object):
    """headers: list of [lower-case name, value]"""

    def __init__(self, method=None, uri=None, code=None, reason=None):
        self.method, self.uri, self.code, self.reason = method, uri, code, reason
        self.headers = []
        self.body = ''
        self.short = 0

    # -- access
    def get(self, name, default=None):
        for n, v in self.headers:
            if n == name:
                return v
        return default

    def getall(self, name):
        return [v for n, v in self.headers if n == name]

    def add(self, name, value):
        self.headers.append([name, value])
        return self

    def set(self, name, value):
        for h in self.headers:
            if h[0] == name:
                h[1] = value
                return self
        return self.add(name, value)

    def remove(self, name):
        self.headers = [h for h in self.headers if h[0] != name]

    @property
    def is_req(self):
        return self.method is not None

    @property
    def callid(self):
        return self.get('call-id')

    @property
    def cseq(self):
        try:
            return int(self.get('cseq', '0 NONE').split()[0])
        except (ValueError, IndexError):
            return -1

    @property
    def cmethod(self):
        return (self.get('cseq', '0 NONE').split() + ['', ''])[1]

    @property
    def from_tag(self):
        return tag(self.get('from', ''))

    @property
    def to_tag(self):
        return tag(self.get('to', ''))

    @property
    def branch(self):
        m = re.search(r';\s*branch=([^;,\s]+)', self.get('via', ''))
        return m.group(1) if m else None

    def contact_uri(self):
        c = self.get('contact')
        return uri_of(c) if c else None

    def copy(self):
        m = Msg(self.method, self.uri, self.code, self.reason)
        m.headers = [list(h) for h in self.headers]
        m.body = self.body
        return m

    def __str__(self):
        if self.is_req:
            s = '%s %s SIP/2.0\r\n' % (self.method, self.uri)
        else:
            s = 'SIP/2.0 %d %s\r\n' % (self.code, self.reason)
        for n, v in self.headers:
            if n != 'content-length':
                s += '%s: %s\r\n' % (cap(n), v)
        s += 'Content-Length: %d\r\n\r\n' % len(self.body.encode())
        return s + self.body

    def encode(self):
        return str(self).encode()

    def brief(self):
        if self.is_req:
            return '%s %s cseq=%s' % (self.method, self.uri, self.get('cseq'))
        return '%d %s cseq=%s' % (self.code, self.reason, self.get('cseq'))


_caps = {'call-id': 'Call-ID', 'cseq': 'CSeq', 'www-authenticate': 'WWW-Authenticate'}


def cap(n):
    return _caps.get(n) or '-'.join(x.capitalize() for x in n.split('-'))


def tag(v):
    i = v.rfind('>')
    m = re.search(r';\s*tag=([^;\s]+)', v[i + 1:] if i >= 0 else v)
    return m.group(1) if m else None


def uri_of(v):
    m = re.search(r'<([^>]*)>', v)
    if m:
        return m.group(1)
    return v.split(';')[0].strip()


def user_of(uri):
    m = re.match(r'sips?:([^@;>]*)@', uri)
    return m.group(1) if m else None


def hostport_of(uri):
    u = re.sub(r'^sips?:', '', uri)
    u = u.split('@')[-1]
    u = re.split(r'[;?]', u)[0]
    if ':' in u:
        h, p = u.rsplit(':', 1)
        return (h, int(p))
    return (u, 5060)


def parse(data):
    if isinstance(data, str):
        data = data.encode()
    head, sep, body = data.partition(b'\r\n\r\n')
    head = head.decode('utf-8', 'replace')
    lines = head.split('\r\n')
    start = lines[0]
    if start.startswith('SIP/2.0 '):
        p = start.split(' ', 2)
        m = Msg(code=int(p[1]), reason=p[2] if len(p) > 2 else '')
    else:
        p = start.split(' ')
        if len(p) != 3:
            raise ValueError('bad start line %r' % start)
        m = Msg(method=p[0], uri=p[1])
    last = None
    for l in lines[1:]:
        if l[:1] in ' \t' and last is not None:
            last[1] += ' ' + l.strip()
            continue
        n, s, v = l.partition(':')
        if not s:
            raise ValueError('bad header %r' % l)
        n = n.strip().lower()
        n = COMPACT.get(n, n)
        if n in ('via', 'route', 'record-route') and ',' in v:
            for x in v.split(','):
                last = [n, x.strip()]
                m.headers.append(last)
            continue
        last = [n, v.strip()]
        m.headers.append(last)
    cl = m.get('content-length')
    if cl is not None and cl.isdigit() and int(cl) < len(body):
        body = body[:int(cl)]           # the rest of a datagram is not part of the message
    m.body = body.decode('utf-8', 'replace')
    m.short = int(cl) - len(body) if cl is not None and cl.isdigit() else 0
    return m


def response(req, code, reason, to_tag=None, contact=None, body=None, extra=()):
    r = Msg(code=code, reason=reason)
    for v in req.getall('via'):
        r.add('via', v)
    if code > 100 and code < 300:
        for v in req.getall('record-route'):
            r.add('record-route', v)
    r.add('from', req.get('from'))
    to = req.get('to')
    if to_tag and tag(to) is None:
        to += ';tag=' + to_tag
    r.add('to', to)
    r.add('call-id', req.callid)
    r.add('cseq', req.get('cseq'))
    if contact:
        r.add('contact', '<%s>' % contact)
    for n, v in extra:
        r.add(n, v)
    if body:
        r.add('content-type', 'application/sdp')
        r.body = body
    return r


RTPMAP = {'0': 'PCMU', '8': 'PCMA', '18': 'G729', '3': 'GSM', '101': 'telephone-event', '34': 'H263', '31': 'H261'}


def sdp(ip, port, sid, ver, extra='', pts='0 8'):
    return ('v=0\r\no=- %d %d IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\n'
            'm=audio %d RTP/AVP %s\r\n%s%s' %
            (sid, ver, ip, ip, port, pts, ''.join('a=rtpmap:%s %s/8000\r\n' % (x, RTPMAP[x]) for x in pts.split()), extra))


def sdp_formats(body):
    """[(transport, formats, types that have attributes)] of every medium"""
    out = []
    for l in body.replace('\r', '').split('\n'):
        if l.startswith('m='):
            f = l.split()
            out.append((f[2].lower(), f[3:], []))
        elif out and re.match('a=(rtpmap|fmtp):', l):
            out[-1][2].append(l.split(':', 1)[1])
    return out


def sdp_media(body):
    """(c= address, first m= port) of a session description"""
    c = re.search(r'^c=IN IP4 (\S+)', body, re.M)
    m = re.search(r'^m=audio (\d+)', body, re.M)
    return (c.group(1) if c else None, int(m.group(1)) if m else None)


def sdp_version(body):
    o = re.search(r'^o=\S+ (\d+) (\d+) ', body, re.M)
    return (int(o.group(1)), int(o.group(2))) if o else None


def sdp_mark(body):
    """what identifies the session description an endpoint issued"""
    if not body:
        return None
    m = re.search(r'^a=mark:(\S+)', body, re.M)
    return m.group(1) if m else None
