"""Digest authentication, computed independently of the code under test."""
import hashlib, re


def params(v):
    if v.lower().startswith('digest'):
        v = v[6:]
    out = {}
    for m in re.finditer(r'([a-zA-Z0-9_-]+)\s*=\s*("([^"]*)"|[^,\s]+)', v):
        out[m.group(1).lower()] = m.group(3) if m.group(3) is not None else m.group(2)
    return out


def hashfn(alg):
    a = (alg or 'MD5').upper().replace('-SESS', '')
    return {'MD5': hashlib.md5, 'SHA-256': hashlib.sha256, 'SHA-512-256': lambda x: hashlib.new('sha512_256', x)}[a]


def response(alg, user, realm, pw, method, uri, nonce, qop=None, nc=None, cnonce=None, body=''):
    H = lambda s: hashfn(alg)(s.encode()).hexdigest()
    a1 = H('%s:%s:%s' % (user, realm, pw))
    if alg and alg.upper().endswith('-SESS'):
        a1 = H('%s:%s:%s' % (a1, nonce, cnonce))
    if qop == 'auth-int':
        a2 = H('%s:%s:%s' % (method, uri, H(body)))
    else:
        a2 = H('%s:%s' % (method, uri))
    if qop:
        return H('%s:%s:%s:%s:%s:%s' % (a1, nonce, nc, cnonce, qop, a2))
    return H('%s:%s:%s' % (a1, nonce, a2))


def answer(chal, method, uri, user, pw):
    p = params(chal)
    alg = p.get('algorithm')
    r = response(alg, user, p.get('realm', ''), pw, method, uri, p['nonce'])
    s = 'Digest username="%s",realm="%s",nonce="%s",uri="%s",response="%s"' % (
        user, p.get('realm', ''), p['nonce'], uri, r)
    if alg:
        s += ',algorithm=%s' % alg
    if 'opaque' in p:
        s += ',opaque="%s"' % p['opaque']
    return s


def verify(auth, method, pw):
    p = params(auth)
    r = response(p.get('algorithm'), p['username'], p['realm'], pw, method, p['uri'], p['nonce'],
                 p.get('qop'), p.get('nc'), p.get('cnonce'))
    return r == p.get('response'), p
