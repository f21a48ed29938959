"""C16: the authorisation backend (model and oracle)."""
import re
from . import digest
from .b2b import attr, avpair, h323
from .oracles import V, delta, stalled
from .sipmsg import user_of, uri_of
from .gen import tm

# what one AUTH job of the simulated backend gets
MODES = (('accept', 8), ('reject', 2), ('die', 2), ('diemid', 1), ('dieafter', 1), ('badrc', 1), ('rc2', 1), ('empty', 1),
         ('noncode', 1), ('garbacc', 1), ('badutf', 1), ('closed', 1))
REFUSE = ('reject', 'die', 'diemid', 'badrc', 'rc2', 'empty', 'noncode', 'badutf', 'closed')


def plan(ch, p, c, evil=False):
    """authorisation side of one generated call"""
    n = c.n
    c.caller['cli'] = 'u%d' % n
    c.auth['cli'] = 'id%d' % n if ch.flip('au.cli', 0.4) else None
    c.auth['cnam'] = 'Name%d' % n if ch.flip('au.cn', 0.2) else None
    c.auth['pw'] = 'pw%d' % n
    c.auth['user'] = 'acct%d' % n
    if ch.flip('au.dig', 0.5):
        wrong = ch.flip('au.wrong', 0.3)
        c.caller['auth'] = (c.auth['user'], 'pw%d' % (n + 1 if wrong else n))
        c.caller['auth_delay'] = ch.choice('au.dly', (0.0, 0.3, 5.0))
        c.auth['ip'] = 'reject'
    c.auth['modes'] = [MODES[ch.weighted('au.mode', [x[1] for x in MODES])][0] for _ in range(2)]
    if c.caller.get('auth') and ch.flip('au.first', 0.8):
        c.auth['modes'][0] = 'accept'
    c.auth['delays'] = [tm(ch, 'au.d', (0.01, 0.0, 0.1, 1.0, 5.0, 20.0, 40.0)) for _ in range(2)]
    if ch.flip('au.spoof', 0.1):
        # the caller claims another origin
        c.caller['via_extra'] = 'received=10.9.9.9'
    if ch.flip('au.evil', 0.12):
        # line ends smuggled into the called number
        c.caller['cld'] = 'd%d' % n + ch.choice('au.ev', ('%0A', '%0A%0A', '%0D%0A%0D%0Ax', '%0A%0AAUTH%0AUser-Name=%22x%22%0A%0A', '%0A0%0A%0A'))
        c.evil = True


class Backend(object):
    def __init__(self, w, ch):
        self.w, self.ch = w, ch
        w.radius_hook = self.job

    def job(self, child, rec):
        w, sim = self.w, self.w.sim
        if rec['kind'] != 'AUTH':
            if rec['kind'] not in ('ACCT',):
                sim.at(0.01, child.reply, b'2\n\n')        # not understood
                return True
            return False
        c = rec['call']
        if c is None:
            sim.at(0.01, child.reply, b'2\n\n')
            return True
        i = len(c.auth_seen) - 1
        mode = c.auth['modes'][min(i, 1)]
        d = c.auth['delays'][min(i, 1)]
        at = rec['attrs']
        if mode == 'accept':
            r = attr(at, 'Digest-Response')
            if r is None:
                if c.auth.get('ip') == 'reject':
                    mode = 'reject'
            else:
                ok = digest.response('MD5', attr(at, 'Digest-User-Name'), attr(at, 'Digest-Realm'), c.auth['pw'], 'INVITE',
                                     attr(at, 'Digest-URI'), attr(at, 'Digest-Nonce'))
                if ok != r or attr(at, 'User-Name') != c.auth['user']:
                    mode = 'reject'
        elif mode != 'reject':
            sim.fault('backend_' + mode)
        rec['mode'] = mode
        sim.at(d, self.answer, child, rec, mode, c)
        return True

    def body(self, c):
        out = []
        for k in range(len(c.routes)):
            out.append("h323-ivr-in = 'Routing:%s'" % self.w.route_str(c, k))
        if c.auth['cli']:
            out.append("h323-ivr-in = 'CLI:%s'" % c.auth['cli'])
        if c.auth['cnam']:
            out.append("h323-ivr-in = 'CNAM:%s'" % c.auth['cnam'])
        return out

    def answer(self, child, rec, mode, c):
        if child.dead:
            return
        rec['rt'] = self.w.sim.t()
        rec['reply'] = mode
        b = self.body(c)
        j = lambda x: ('\n'.join(x + ['', ''])).encode()
        if mode == 'accept':
            child.reply(j(b + ['0']))
        elif mode == 'reject':
            child.reply(b'1\n\n')
        elif mode == 'die':
            child.die(1)
        elif mode == 'diemid':
            s = j(b)
            child.reply(s[:max(1, len(s) * (1 + self.ch.pick('au.cut', 8)) // 10)])
            child.die(-11)
        elif mode == 'dieafter':
            child.reply(j(b + ['0']))
            child.die(0)
        elif mode == 'badrc':
            child.reply(j(b + ['OK']))
        elif mode == 'rc2':
            child.reply(j(b + ['2']))
        elif mode == 'empty':
            child.reply(b'\n')
        elif mode == 'noncode':
            child.reply(j(b))
        elif mode == 'garbacc':
            child.reply(j(['warning: something odd'] + b + ['0']))
        elif mode == 'badutf':
            child.reply(b"Reply-Message = '\xff\xfe\xc3'\n2\n\n")
        elif mode == 'closed':
            child.popen.stdout.feed_eof()      # closes its output yet lives on


def digest_of(m):
    a = m.get('authorization')
    return digest.params(a) if a else None


def norm(s):
    return re.sub(r'\s+', '', s or '')


def c16(w):
    v = V(w)
    jobs = {}
    for r in w.auth_jobs:
        if r['callid'] is None or r['call'] is None:
            if r['callid'] is not None or not any(getattr(c, 'evil', False) for c in w.calls):
                yield ('stray-job', 'AUTH job at %.3f for unknown call %r: %r' % (r['t'], r['callid'], r['attrs'][:4]))
            continue
        jobs.setdefault(r['call'].n, []).append(r)
    nonces = set()
    for A in v.A():
        c = A.call
        if c is None:
            continue
        js = jobs.pop(c.n, [])
        used = []
        accepts = []
        for a in A.attempts:
            dg = digest_of(a.m)
            mine = [j for j in js if attr(j['attrs'], 'Digest-Response') == (dg.get('response') if dg else None)]
            if len(mine) > 1:
                yield ('job-twice', 'call %s attempt cseq %d asked %d times' % (a.callid, a.cseq, len(mine)))
            for j in mine:
                used.append(j)
                for x in identity(w, a, dg, j, c):
                    yield x
            ff = a.first_final
            end = w.exit_t
            if mine and dg is None and getattr(w, 'digest_only', False):
                yield ('ip-auth', 'call %s without credentials was taken to the backend although only digest is allowed' % a.callid)
            if mine:
                j = mine[0]
                if j.get('rt') is None:
                    continue
                gone = [e for e in a.cancels if e.t <= j['rt'] + delta(w, j['rt'])] or (ff is not None and ff.t < j['rt'])
                lim = j['rt'] + delta(w, j['rt'])
                if j['reply'] in REFUSE:
                    if gone:
                        continue
                    if ff is None:
                        if end > lim:
                            yield ('refusal-hangs', 'call %s: backend %s at %.3f, attempt not ended by %.3f' % (a.callid, j['reply'], j['rt'], lim))
                        continue
                    if ff.t > lim:
                        if ff.m.code == 487 and 'request expired' in (ff.m.reason or '').lower() or ff.t > lim + 20:
                            yield ('refusal-hangs', 'call %s: backend %s at %.3f, attempt only ended at %.3f with %d' % (a.callid, j['reply'], j['rt'], ff.t, ff.m.code))
                        else:
                            yield ('refusal-late', 'call %s: backend %s at %.3f, attempt ended at %.3f' % (a.callid, j['reply'], j['rt'], ff.t))
                        continue
                    if ff.m.code not in (401, 403):
                        yield ('refusal-code', 'call %s: backend %s, attempt ended with %d' % (a.callid, j['reply'], ff.m.code))
                    for x in chal(w, a, dg, ff, nonces):
                        yield x
                elif j['reply'] in ('accept', 'dieafter', 'garbacc'):
                    accepts.append((j, a))
                    if gone or ff is not None and ff.t <= lim and ff.m.code == 487:
                        continue
                    bs = [B for B in v.B(c) if B.attempts and j['rt'] - 0.001 <= B.attempts[0].t <= lim and B.route == 0]
                    if not bs and end > lim and not (j['reply'] == 'garbacc' and ff is not None and ff.m.code in (401, 403)):
                        yield ('accept-unused', 'call %s: backend accepted at %.3f but its first route was not called; final %s' % (
                            a.callid, j['rt'], ff and ff.m.code))
                    if j['reply'] == 'garbacc' and ff is not None and ff.m.code in (401, 403):
                        for x in chal(w, a, dg, ff, nonces):
                            yield x
            elif ff is not None and dg is None and getattr(w, 'digest_only', False) and ff.m.code == 401:
                for x in chal(w, a, dg, ff, nonces):
                    yield x
            elif ff is not None and ff.m.code in (401, 403):
                yield ('refused-unasked', 'call %s attempt cseq %d refused with %d without asking the backend' % (a.callid, a.cseq, ff.m.code))
        for j in js:
            if j not in used:
                yield ('job-identity', 'call %s: AUTH job at %.3f matches no attempt: %r' % (A.callid, j['t'], j['attrs']))
        # outbound only behind an acceptance of this very call
        first = {}
        for B in v.B(c):
            t = B.attempts[0].t
            ok = [x for x in accepts if x[0]['rt'] <= t + 0.0005 and x[0]['n'] <= B.attempts[0].inv.n]
            if not ok:
                yield ('unauthorised', 'outbound INVITE %s at %.3f without any acceptance of call %s (jobs %s)' % (
                    B.callid, t, A.callid, [(j['t'], j.get('reply')) for j in js]))
                continue
            if B.route == 0:
                first.setdefault(0, []).append(t)
            for x in who(w, B, c):
                yield x
        if len(first.get(0, [])) > len(accepts):
            yield ('placed-twice', 'call %s: first route called %d times on %d acceptances' % (A.callid, len(first[0]), len(accepts)))
    for n, js in jobs.items():
        yield ('stray-job', 'AUTH jobs %r for call %d that was never received' % (js[0]['attrs'], n))
    for B in v.B():
        if B.call is None:
            yield ('unauthorised', 'outbound INVITE %s to %s belongs to no call' % (B.callid, B.attempts[0].m.uri))
    for t, kind, cid, txt in w.notes:
        if kind == 'unknown-callee':
            yield ('unauthorised', 'INVITE %s to a target no backend answer named: %s' % (cid, txt))
    # billing identity
    for r in w.acct:
        c = r['call']
        if c is None or c.leg is None:
            continue
        u = attr(r['attrs'], 'User-Name')
        ok = (c.auth['user'],) if c.caller.get('auth') else (c.leg.ep.ip,)
        js = [j for j in w.auth_jobs if j['call'] is c and j.get('reply') in ('accept', 'dieafter', 'garbacc')]
        ok = tuple(attr(j['attrs'], 'User-Name') for j in js)
        if u not in ok:
            yield ('acct-identity', 'accounting record of call %s is for user %r, accepted was %r' % (c.callid, u, ok))


def chal(w, a, dg, ff, nonces):
    want = w.digest and dg is None
    h = ff.m.get('www-authenticate')
    if (ff.m.code == 401) != want:
        yield ('refusal-code', 'call %s refused with %d (%s credentials offered)' % (a.callid, ff.m.code, 'no' if dg is None else 'with'))
    elif want:
        if not h:
            yield ('no-challenge', 'call %s refused with 401 carrying no challenge' % a.callid)
            return
        p = digest.params(h)
        if p.get('nonce') in nonces:
            yield ('stale-challenge', 'call %s: nonce %s issued before' % (a.callid, p.get('nonce')))
        nonces.add(p.get('nonce'))


def identity(w, a, dg, j, c):
    at = j['attrs']
    u = attr(at, 'User-Name')
    ip = a.inv.peer[0]
    want = dg['username'] if dg else ip
    bad = []
    if u != want:
        bad.append('User-Name %r, expected %r' % (u, want))
    if dg:
        for n, k in (('Digest-Realm', 'realm'), ('Digest-Nonce', 'nonce'), ('Digest-URI', 'uri'), ('Digest-Response', 'response'),
                     ('Digest-User-Name', 'username')):
            if attr(at, n) != dg.get(k):
                bad.append('%s %r, offered %r' % (n, attr(at, n), dg.get(k)))
    if attr(at, 'Calling-Station-Id') != user_of(uri_of(a.m.get('from'))):
        bad.append('Calling-Station-Id %r' % attr(at, 'Calling-Station-Id'))
    if not getattr(c, 'evil', False) and attr(at, 'Called-Station-Id') != c.caller['cld']:
        bad.append('Called-Station-Id %r' % attr(at, 'Called-Station-Id'))
    if h323(at, 'h323-remote-address') != ip:
        bad.append('h323-remote-address %r' % h323(at, 'h323-remote-address'))
    if j['t'] < a.t - 0.0005:
        bad.append('sent before the call came')
    if bad:
        yield ('job-identity', 'call %s: AUTH job at %.3f: %s' % (a.callid, j['t'], '; '.join(bad)))


def who(w, B, c):
    m = B.attempts[0].m
    u = user_of(uri_of(m.get('from')))
    want = c.auth['cli'] or c.caller['cli']
    if u != want:
        yield ('caller-identity', 'outbound INVITE of call %s says it is from %r, its own identity is %r' % (c.callid, u, want))
    f = m.get('from')
    if c.auth['cnam'] and c.auth['cnam'] not in f:
        yield ('caller-identity', 'outbound INVITE of call %s lacks its display name %r: %s' % (c.callid, c.auth['cnam'], f))
    if re.search(r'Name(\d+)', f) and (not c.auth['cnam'] or c.auth['cnam'] not in f):
        yield ('caller-identity', 'outbound INVITE of call %s carries another display name: %s' % (c.callid, f))
