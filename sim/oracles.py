"""Oracles over the recorded history. Each judges observable behaviour only and
yields (key, detail)."""
import signal
from .view import View, INF
from .sipmsg import hostport_of, uri_of

T1 = 0.5


def V(w):
    v = getattr(w, '_view', None)
    if v is None:
        v = w._view = View(w)
    return v


def stalled(w, t0, t1):
    """Upper bound of the time the loop could not run between t0 and t1."""
    return sum(max(0.0, min(b, t1) - max(a, t0)) for a, b in w.stall_log)


def alive(w):
    c = w.crashed()
    if c is not None:
        yield ('server-died', c)
    for n, tb in w.sim.dead_threads:
        yield ('thread-died', 'thread %s died: %s' % (n, tb[-600:]))
    if getattr(w, 'nat', None):
        for e in w.ev:
            if e.d == 'o' and e.peer[0].startswith('172.31.'):
                yield ('sent-nowhere', '%r: that is an address behind a NAT' % e)
                break
    for t, dst, data, why in getattr(w, 'badwire', ()):
        if getattr(w, 'rubbish', False) and 'bad start line' in why:
            continue        # the protocol version of a request is echoed in its answer, whatever it says
        yield ('bad-wire', '%.3f: what was sent to %s cannot be read: %s: %r' % (t, dst, why, data[:300]))


def c01(w):
    """exactly one final answer per accepted attempt"""
    end = w.exit_t
    for d in V(w).A():
        for a in d.attempts:
            fs = a.finals
            kinds = []
            for f in fs:
                k = (f.m.code, f.m.to_tag)
                if k not in kinds:
                    kinds.append(k)
            if len(kinds) > 1:
                yield ('two-finals', 'call %s cseq %d got %s' % (a.callid, a.cseq, kinds))
            raws = set(f.raw for f in fs)
            if len(kinds) == 1 and len(raws) > 1:
                yield ('final-changed', 'call %s: the copies of the final answer %s differ' % (a.callid, kinds[0]))
            e = a.m.get('expires')
            lim = 300.0
            if e is not None:
                try:
                    lim = float(int(e))
                except ValueError:
                    pass
            lim += 2.0
            if fs:
                dt = fs[0].t - a.t
                if dt > lim + stalled(w, a.t, fs[0].t):
                    yield ('late-final', 'call %s answered after %.1f s, limit %.0f s' % (a.callid, dt, lim))
                p = [x for x in a.provs if x.n > fs[0].n]
                if p:
                    yield ('prov-after-final', 'call %s: %d sent after the final %d' % (a.callid, p[0].m.code, fs[0].m.code))
                c = [x for x in a.cancels if x.n < fs[0].n and x.m.branch == a.m.branch]
                if c and fs[0].m.code != 487:
                    yield ('cancel-not-487', 'call %s cancelled at %.3f, then answered %d' % (a.callid, c[0].t, fs[0].m.code))
                # (a caller may also give up with a BYE on the early dialog)
                c = [x for x in d.evs if x.d == 'i' and x.m.method == 'BYE' and x.m.to_tag is not None and a.inv.n < x.n < fs[0].n and
                     x.m.from_tag == a.m.from_tag]
                if c and fs[0].m.code != 487:
                    yield ('bye-not-487', 'call %s given up with a BYE at %.3f, then answered %d' % (a.callid, c[0].t, fs[0].m.code))
            c = [x for x in d.evs if x.d == 'i' and x.m.method == 'BYE' and x.m.to_tag is not None and x.n > a.inv.n and
                 x.m.from_tag == a.m.from_tag and (not fs or x.n < fs[0].n)]
            if c and (fs[0].t if fs else end) > c[0].t + 1.0 + stalled(w, c[0].t, c[0].t + 5):
                yield ('bye-unanswered', 'call %s given up with a BYE at %.3f, still not answered 1 s later' % (a.callid, c[0].t))
            if not fs and w.result == 'stop' and end - a.t > lim + stalled(w, a.t, end) + 1:
                yield ('no-final', 'call %s received at %.3f never got a final answer' % (a.callid, a.t))


# -- leg life ------------------------------------------------------------------
class Life(object):
    """When and how one dialog of the B2BUA ended, from the wire."""
    __slots__ = ('end', 'why')

    def __init__(self, end=None, why=None):
        self.end, self.why = end, why


def a_end(d):
    """First event after which the caller leg is over: (Ev, why)"""
    best = None
    att = d.attempts[-1]
    for e in d.evs:
        m = e.m
        if m.is_req and m.method == 'BYE':
            # a BYE by the caller only counts when it belongs to the dialog
            if e.d == 'i' and m.to_tag is None:
                continue
            return e, 'bye-' + e.d
        if m.is_req and m.method == 'CANCEL' and e.d == 'i' and e in att.cancels and m.branch == att.m.branch:
            ff = att.first_final
            if ff is None or ff.n > e.n:
                return e, 'cancel'
        if not m.is_req and e.d == 'o' and m.cmethod == 'INVITE' and m.code >= 300 and m.cseq == att.cseq and \
                e is att.first_final:
            return e, 'final-%d' % m.code
    return None, None


def b_bye(d):
    for e in d.evs:
        if e.m.is_req and e.m.method == 'BYE':
            return e
    return None


def abandoned(att, Bs):
    """First event by which the B2BUA gave this attempt up, before any final answer."""
    c = [x for x in att.cancels if x.d == 'o']
    c += [b.attempts[0].inv for b in Bs if b.attempts[0].inv.n > att.inv.n]
    c.sort(key=lambda e: e.n)
    ff = att.first_final
    if c and (ff is None or c[0].n < ff.n):
        return c[0]
    return None


def refused(w, B):
    """This leg's answer was refused (its media is not permitted by -F): the
    B2BUA hung up at once and counts the attempt as failed."""
    f, b = B.answered, b_bye(B)
    if f is None or b is None:
        return False
    if getattr(w, 'relays', None):
        from . import relay
        return relay.failed_at(w, B, b.t, True)
    return b.d == 'o' and '-F' in w.opts and b.t - f.t <= 0.01


def delta(w, t0, d=1.0):
    return d + stalled(w, t0, t0 + 60) + 0.05 + getattr(w, "lag", 0.0)


def tx_late(att, ff):
    """This answer came after the INVITE transaction's own life (32 s without
    any reply, 300 s or its Expires otherwise): nobody is left to take it."""
    if ff.t > att.t + 299.5:
        return True
    return ff.t > att.t + 31.9 and not any(p.t < att.t + 32 for p in att.provs)


def released(w, att, ea, tag):
    """Rules for one outbound attempt that was live when something ended it
    (event ea): it must be cancelled / hung up."""
    d = att.dlg
    ff = att.first_final
    end = w.exit_t if w.result in ('stop', 'aborted') else INF
    if ff is not None and ff.n < ea.n and ff.m.code >= 300:
        return
    if ff is not None and ff.m.code < 300:
        t2 = max(ff.t, ea.t)
        lim = t2 + delta(w, t2)
        b = b_bye(d)
        # (an INVITE transaction lives 300 s at most, 32 s without any reply)
        late = (ff.n > ea.n and ff.t - ea.t > 30) or tx_late(att, ff)
        if late or w.exit_t < lim:
            return
        r = [e for e in d.evs if e.d == 'o' and e.m.method == 'REFER']
        if r and r[0].t <= lim:
            # transferred first: the BYE comes once that request is over
            fa = resps(d, r[0])
            t3 = fa[0].t if fa else r[0].t + 32.5
            lim = max(lim, t3 + delta(w, t3))
            if w.exit_t < lim:
                return
        if b is None or b.t > lim:
            yield (tag + '-orphan-answered', 'call %s: outbound leg %s answered at %.3f, call ended at %.3f (%s), '
                   'no BYE until %s' % (d.call.n if d.call else '?', d.callid, ff.t, ea.t, ea, None if b is None else b.t))
        return
    pr = [p for p in att.provs if p.t < att.t + 31]
    if not pr:
        return
    p = pr[0]
    t2 = max(p.t, ea.t)
    lim = t2 + delta(w, t2)
    if w.exit_t < lim:
        return
    if ff is not None and ff.t <= lim:
        return
    c = [x for x in att.cancels if x.d == 'o']
    if not c or c[0].t > lim:
        yield (tag + '-not-cancelled', 'call %s: outbound attempt %s (first provisional %.3f) not cancelled after %s' %
               (d.call.n if d.call else '?', d.callid, p.t, ea))


def c02(w):
    v = V(w)
    for A, Bs in v.pairs():
        if A.call is None:
            continue
        ea, why = a_end(A)
        ans = A.answered
        if ea is not None:
            for B in Bs:
                for att in B.attempts:
                    if att.inv.n > ea.n:
                        continue
                    for x in released(w, att, ea, 'a-end'):
                        yield x
        # callee (or the B2BUA) hung up an answered outbound leg
        for B in Bs:
            if abandoned(B.attempts[-1], Bs) is not None:
                continue
            b = b_bye(B)
            if refused(w, B) and (ans is None or ans.n > b.n or any(x is not B and x.answered is not None and
                                                                  x.answered.n <= ans.n for x in Bs)):
                # only the failure of the last one is the caller's business
                lim = b.t + delta(w, b.t)
                if B is Bs[-1] and w.exit_t >= lim and (ea is None or ea.t > lim):
                    yield ('fail-not-relayed', 'answer of the last outbound attempt of call %s refused at %.3f, '
                           'caller still waiting' % (A.call.n, b.t))
                continue
            if b is not None and ans is not None and B.answered is not None and B.answered.n < b.n:
                lim = b.t + delta(w, b.t)
                r = [e for e in A.evs if e.d == 'o' and e.m.method == 'REFER']
                if r and r[0].t <= lim:
                    # transferred first: the BYE comes once that request is over
                    fa = resps(A, r[0])
                    t3 = fa[0].t if fa else r[0].t + 32.5
                    lim = max(lim, t3 + delta(w, t3))
                if w.exit_t >= lim and (ea is None or ea.t > lim):
                    yield ('b-end-a-up', 'outbound leg %s ended by BYE at %.3f, caller leg not released (%s)' % (B.callid, b.t, ea))
            f = B.answered
            if f is not None and (ea is None or ea.n > f.n):
                lim = f.t + delta(w, f.t)
                if w.exit_t >= lim and ans is None and (ea is None or ea.t > lim):
                    yield ('answer-not-relayed', 'outbound leg %s answered at %.3f but the caller got no answer by %.3f' %
                           (B.callid, f.t, lim))
        # last outbound attempt failed: the caller gets its final
        if Bs:
            att = Bs[-1].attempts[-1]
            ff = att.first_final
            if ff is not None and ff.m.code >= 300 and (ea is None or ea.n > ff.n) and ans is None:
                lim = ff.t + delta(w, ff.t)
                # an authentication challenge may be answered by a new request
                if w.exit_t >= lim and (ea is None or ea.t > lim):
                    yield ('fail-not-relayed', 'last outbound attempt of call %s failed (%d) at %.3f, caller still waiting' %
                           (A.call.n, ff.m.code, ff.t))
        # quiescence: no answered dialog left open once the call is over
        over = ea is not None or any(b_bye(B) and not refused(w, B) and abandoned(B.attempts[-1], Bs) is None for B in Bs)
        if over and w.result == 'stop':
            for D in [A] + Bs:
                f = D.answered
                if f is not None and D.side == 'B' and tx_late(D.attempts[-1], f):
                    continue
                if f is not None and b_bye(D) is None and w.exit_t - f.t > 70:
                    yield ('open-dialog', 'dialog %s answered at %.3f was never closed by a BYE' % (D.callid, f.t))
    # phones that still believe they are in a call the server has forgotten
    gone = set()
    for A, Bs in v.pairs():
        gone |= set(B.callid for B in Bs if refused(w, B) or abandoned(B.attempts[-1], Bs) is not None)
    for c in getattr(w, 'clean', w.calls):
        if any(x.ep.silent for x in [c.leg] + c.blegs):
            continue
        for leg in [c.leg] + c.blegs:
            if leg.established is not None and leg.ended is None and not leg.ep.silent and w.result == 'stop':
                D = v.dlg.get(leg.callid)
                others = [x for x in [c.leg] + c.blegs if x is not leg and x.callid not in gone]
                if any(x.ended is not None for x in others) and w.exit_t - leg.established > 70 and \
                        max(x.ended for x in others if x.ended is not None) < w.exit_t - 70:
                    if leg is c.leg and not any(x.established and x.ended for x in others):
                        continue
                    if leg is not c.leg and c.leg.ended is None:
                        continue
                    yield ('phone-stranded', '%s still in a call at the end (established %.3f)' % (leg.callid, leg.established))


def c03(w):
    v = V(w)
    for A, Bs in v.pairs():
        if A.call is None:
            continue
        # several attempts of the caller within one call-id (authentication): use the last
        ea, why = a_end(A)
        for i, B in enumerate(Bs):
            for j, att in enumerate(B.attempts):
                if ea is not None and att.inv.n > ea.n:
                    yield ('attempt-after-end', 'call %d over since %s, new outbound attempt %s to %s at %.3f' %
                           (A.call.n, ea, att.callid, att.inv.peer[0], att.t))
                if A.answered is not None and att.inv.n > A.answered.n:
                    yield ('attempt-after-answer', 'call %d answered, new outbound attempt %s' % (A.call.n, att.callid))
                prev = [x for b in Bs[:i] for x in b.attempts] + B.attempts[:j]
                for p in prev:
                    ff = p.first_final
                    if ff is not None and ff.n < att.inv.n:
                        if ff.m.code < 300 and abandoned(p, Bs) is None and not refused(w, p.dlg):
                            yield ('attempt-while-answered', 'call %d: attempt %s made although %s was answered at %.3f' %
                                   (A.call.n, att.callid, p.callid, ff.t))
                        continue
                    c = [x for x in p.cancels if x.d == 'o' and x.n < att.inv.n]
                    pr = [x for x in p.provs if x.n < att.inv.n and x.t < p.t + 31]
                    if pr and not c:
                        # the cancel may follow within the same instant
                        c = [x for x in p.cancels if x.d == 'o' and x.t <= att.t + 0.05]
                        if not c:
                            yield ('two-live', 'call %d: attempt %s started at %.3f while %s was still ringing and not cancelled' %
                                   (A.call.n, att.callid, att.t, p.callid))
                    # whatever the abandoned one does later, it gets cancelled or hung up
                    for x in released(w, p, att.inv, 'ghost'):
                        yield x
        if ea is not None:
            for B in Bs:
                for att in B.attempts:
                    if att.inv.n < ea.n:
                        for x in released(w, att, ea, 'end'):
                            yield x


# -- routes ----------------------------------------------------------------------
def route_opts(call):
    """[(k, {param: value})] of the call's planned routes"""
    out = []
    for k, r in enumerate(call.routes):
        d = {}
        for p in filter(None, r[1].split(';')):
            a, _, v = p.partition('=')
            d[a] = v
        out.append((k, d))
    return out


def pint(d, k):
    return int(d[k]) if k in d and int(d[k]) >= 0 else None


def call_credit(w, call):
    if not w.auth_enable:
        return None
    for n, v in call.auth.get('attrs', ()):
        if n == 'h323-credit-time':
            return int(v)
    return None


def route_credit(w, call, d):
    """credit limit that applies to a route (documented: the route's own, else the
    authorisation's; the global maximum caps either)"""
    c = pint(d, 'credit-time') if 'credit-time' in d else call_credit(w, call)
    m = w.max_credit
    if m is not None and (c is None or c > m):
        c = m
    return c


def usable(w, call):
    return [(k, d) for k, d in route_opts(call) if route_credit(w, call, d) != 0 and pint(d, 'expires') != 0]


def hs_of(d):
    return tuple(int(x) for x in d.get('hs_scodes', '').split(',') if x.strip())


def outcome(w, B, nxt=None):
    """How the outbound attempt ended, seen from the B2BUA: (kind, code, t, n)
    kind: 'ok', 'fail', 'redirect', 'limit' (cancelled by the B2BUA), 'none' (no final seen)"""
    att = B.attempts[-1]
    c = [x for x in att.cancels if x.d == 'o']
    ff = att.first_final
    n2 = nxt.attempts[0].inv.n if nxt is not None else INF
    if ff is not None and ff.n < n2 and (not c or ff.n < c[0].n) and not tx_late(att, ff):
        if ff.m.code < 300:
            return 'ok', ff.m.code, ff.t, ff.n
        if ff.m.code in (300, 301, 302) and ff.m.get('contact'):
            return 'redirect', ff.m.code, ff.t, ff.n
        return 'fail', ff.m.code, ff.t, ff.n
    if c and (nxt is None or c[0].n < n2 or c[0].t <= nxt.attempts[0].t + 0.05):
        return 'limit', None, c[0].t, c[0].n
    return 'none', None, None, None


def accepted(w, call, A):
    """time the AAA backend's acceptance reached the B2BUA, None if never"""
    ff = A.attempts[-1].first_final
    if ff is not None and ff.m.code == 503 and 'restarting' in (ff.m.reason or '') and \
            [1 for t, s in w.signals_sent if s in (signal.SIGPROF, signal.SIGTERM) and t < ff.t]:
        return None
    if not w.auth_enable:
        return A.attempts[-1].t
    for j in w.auth_jobs:
        if j['call'] is call and j.get('reply') == 'accept':
            return j['rt']
    return None


def c04(w):
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        if call is None or len(A.attempts) != 1 and w.digest_calls:
            continue
        us = usable(w, call)
        order = [k for k, d in us]
        got = [B.route for B in Bs]
        ea, why = a_end(A)
        t_ok = accepted(w, call, A)
        if w.static is None and got != order[:len(got)]:
            if len([d for k, d in us if 'gt' in d]) == 0:
                yield ('wrong-order', 'call %d: routes tried %s, configured order of usable routes %s' % (call.n, got, order))
            continue
        if w.static is not None:
            us = us[:1]
        if not us:
            if Bs:
                yield ('unusable-route', 'call %d has no usable route but %s was tried' % (call.n, got))
            elif t_ok is not None and ea is not None and why.startswith('final') and ea.t > t_ok and ea.m.code < 500:
                yield ('no-route-code', 'call %d has no usable route, answered %d' % (call.n, ea.m.code))
            continue
        if any('gt' in d for k, d in us):
            continue                      # judged by C08
        if not Bs and t_ok is not None:
            # setting the call up at all
            lim = t_ok + delta(w, t_ok)
            if w.exit_t > lim and (ea is None or ea.t > lim or why.startswith('final-5')):
                yield ('no-attempt', 'call %d accepted at %.3f, no outbound attempt (caller leg: %s)' % (call.n, t_ok, ea))
        for i, B in enumerate(Bs):
            nxt = Bs[i + 1] if i + 1 < len(Bs) else None
            d = us[i][1]
            hs = hs_of(d)
            kind, code, t, n = outcome(w, B, nxt)
            # a challenge for a route with credentials is answered, once
            if 'auth' in d:
                a0 = B.attempts[0]
                f0 = a0.first_final
                if f0 is not None and f0.m.code in (401, 407) and f0.m.get('www-authenticate' if f0.m.code == 401 else 'proxy-authenticate') \
                        and not tx_late(a0, f0) and not [x for x in a0.cancels if x.d == 'o' and x.n < f0.n] and \
                        abandoned(a0, Bs) is None and (ea is None or ea.n > f0.n) and len(B.attempts) == 1 and \
                        w.exit_t > f0.t + delta(w, f0.t):
                    yield ('challenge-unanswered', 'call %d: %d from %s at %.3f was not answered with the credentials of the route' %
                           (call.n, f0.m.code, B.peer[0], f0.t))
            if nxt is not None:
                if kind == 'redirect':
                    yield ('past-redirect', 'call %d: %s redirected (%d) at %.3f, next route tried' % (call.n, B.callid, code, t))
                elif kind == 'fail' and code in hs:
                    yield ('past-stop', 'call %d: %s failed with %d, which is in its stop list %s, next route tried' %
                           (call.n, B.callid, code, hs))
                elif kind == 'ok':
                    yield ('past-success', 'call %d: %s answered at %.3f, next route tried' % (call.n, B.callid, t))
                elif kind == 'none' and 408 in hs and not any(x in d for x in ('expires', 'np_expires', 'nr_expires')):
                    yield ('past-stop', 'call %d: %s timed out (408 is in its stop list), next route tried' % (call.n, B.callid))
                continue
            if kind not in ('fail', 'redirect'):
                if kind == 'none' and 408 not in hs and not B.attempts[-1].provs and not any(x in d for x in ('expires', 'np_expires', 'nr_expires')) \
                        and B.attempts[-1].first_final is None:
                    t1 = B.attempts[-1].t + 32
                    lim = t1 + delta(w, t1 - 5)
                    if i + 1 < len(us) and w.exit_t > lim and (ea is None or (ea.t > lim)) and A.answered is None:
                        yield ('failover-stopped', 'call %d: %s never answered (sent %.3f), next usable route not tried' % (call.n, B.callid, t1 - 32))
                    elif i + 1 == len(us) and ea is not None and why.startswith('final') and t1 - 0.1 <= ea.t <= lim and ea.m.code != 408:
                        yield ('wrong-code', 'call %d: last route never answered, caller got %d' % (call.n, ea.m.code))
                continue
            if ea is not None and ea.n < n:
                continue
            lim = t + delta(w, t)
            if w.exit_t <= lim:
                continue
            stop = kind == 'redirect' or code in hs or i + 1 == len(us)
            if not stop:
                if ea is None or ea.t > lim or why == 'final-%d' % code:
                    yield ('failover-stopped', 'call %d: %s failed (%d) at %.3f, next usable route %d not tried (%s)' %
                           (call.n, B.callid, code, t, us[i + 1][0], ea))
            elif ea is not None and why.startswith('final'):
                e0 = A.attempts[-1].m.get('expires')
                if ea.m.code != code and not (ea.m.code == 487 and ea.t - A.attempts[-1].t >= float(e0 or 300) - 0.1):
                    yield ('wrong-code', 'call %d: last attempt failed with %d at %.3f, caller got %d' % (call.n, code, t, ea.m.code))


# -- accounting --------------------------------------------------------------------
def recs(w, call, status, origin):
    return [r for r in w.acct if r['call'] is call and r['status'] == status and r['origin'] == origin]


def rattr(r, name):
    for n, v in r['attrs']:
        if n == name:
            return v
    return None


def b_over(B, Bs):
    """When the outbound leg was over for the B2BUA (Ev), None while alive."""
    att = B.attempts[-1]
    ab = abandoned(att, Bs)
    if ab is not None:
        return ab
    ff = att.first_final
    if ff is not None and ff.m.code >= 300 and not tx_late(att, ff):
        return ff
    return b_bye(B)


def c05(w):
    v = V(w)
    if not w.acct_enable:
        if w.acct:
            yield ('record-when-off', 'accounting is off, %s delivered' % w.acct[0]['status'])
        return
    SETTLE = 45.0
    end = w.exit_t
    for r in w.acct:
        if r['call'] is None:
            yield ('unknown-record', '%s record for unknown call %s' % (r['status'], r['callid']))
    for A, Bs in v.pairs():
        call = A.call
        if call is None:
            continue
        ea, why = a_end(A)
        stops = recs(w, call, 'Stop', 'answer')
        t_ok = accepted(w, call, A)
        if len(stops) > 1:
            yield ('dup-answer-stop', 'call %d: %d stop records of the caller leg' % (call.n, len(stops)))
        if t_ok is None and (stops or recs(w, call, 'Stop', 'originate')):
            yield ('unauthorised-record', 'call %d was never accepted but has stop records' % call.n)
        if ea is None and stops:
            yield ('early-stop', 'call %d: stop record at %.3f, the call is still up' % (call.n, stops[0]['t']))
        if stops and ea is not None and stops[0]['t'] < ea.t - 0.001:
            yield ('early-stop', 'call %d: stop record at %.3f, the caller leg ended at %.3f' % (call.n, stops[0]['t'], ea.t))
        sl = stalled(w, A.attempts[-1].t, end)
        if t_ok is not None and ea is not None and t_ok + 0.05 + stalled(w, t_ok - 5, t_ok + 5) < ea.t and end - ea.t > SETTLE + sl and not stops:
            yield ('no-answer-stop', 'call %d accepted at %.3f, over at %.3f, no stop record of the caller leg' % (call.n, t_ok, ea.t))
        starts = recs(w, call, 'Start', 'answer')
        want = 1 if (A.answered is not None and w.start_acct) else 0
        if len(starts) > want:
            yield ('extra-answer-start', 'call %d: %d start records of the caller leg, expected %d' % (call.n, len(starts), want))
        # (without an offer in the INVITE the caller leg connects with the ACK)
        if len(starts) < want and end - A.answered.t > SETTLE + sl and (call.caller.get('sdp', True) or late_ok(A, A.answered, ea)):
            yield ('no-answer-start', 'call %d answered at %.3f, no start record of the caller leg' % (call.n, A.answered.t))
        if starts and stops and w.acct.index(starts[0]) > w.acct.index(stops[0]) and w.radius_workers == 1:
            yield ('stop-before-start', 'call %d: stop record precedes the start record (caller leg)' % call.n)
        ro = dict(route_opts(call))
        og = recs(w, call, 'Stop', 'originate')
        os_ = recs(w, call, 'Start', 'originate')
        n_rec = sum(1 for B in Bs if 'forward_on_fail' not in ro.get(B.route or 0, {}))
        if getattr(w, 'relays', None):
            # an attempt may fail, before anything is sent, because the relay fails
            n_rec = max(n_rec, len(set(rattr(r, 'Called-Station-Id') for r in og)))
            if len(og) > len(call.routes):
                n_rec = 0
        if len(og) > n_rec:
            yield ('extra-originate-stop', 'call %d: %d originate stop records, %d outbound attempts' % (call.n, len(og), n_rec))
        for B in Bs:
            d = ro.get(B.route or 0, {})
            cld = user_cld(B)
            mine = [r for r in og if rattr(r, 'Called-Station-Id') == cld]
            st = [r for r in os_ if rattr(r, 'Called-Station-Id') == cld]
            if 'forward_on_fail' in d:
                if mine or st:
                    yield ('forward-record', 'call %d: route %s is not accounted but has records' % (call.n, cld))
                continue
            if len(mine) > 1:
                yield ('dup-originate-stop', 'call %d: %d stop records for attempt %s' % (call.n, len(mine), cld))
            over = b_over(B, Bs)
            # an attempt without any answer fails at 32 s; one that was never accepted any more at 300 s
            att = B.attempts[-1]
            over_t = over.t if over is not None else None
            if over_t is None and B.answered is None and not att.provs:
                over_t = att.t + 33
            if not mine and ea is not None:
                e2 = max(x for x in (ea.t, over_t, 0) if x is not None)
                if over_t is None and ea.t < e2 + 1:
                    e2 = ea.t + 1
                if end - e2 > SETTLE + sl:
                    yield ('no-originate-stop', 'call %d: outbound attempt %s (%s at %.3f) is over, no stop record' %
                           (call.n, cld, B.callid, att.t))
            if mine and over_t is None and ea is None:
                yield ('early-originate-stop', 'call %d: stop record for attempt %s at %.3f, it is still up' % (call.n, cld, mine[0]['t']))
            conn = B.answered is not None and abandoned(att, Bs) is None and not tx_late(att, B.answered) and \
                (ea is None or ea.n > B.answered.n)
            want = 1 if conn and w.start_acct else 0
            if len(st) > want:
                yield ('extra-originate-start', 'call %d: %d start records for attempt %s, expected %d' % (call.n, len(st), cld, want))
            if len(st) < want and end - B.answered.t > SETTLE + sl and (call.caller.get('sdp', True) or late_ok(B, B.answered, over)):
                yield ('no-originate-start', 'call %d: attempt %s answered at %.3f, no start record' % (call.n, cld, B.answered.t))
            if st and mine and w.acct.index(st[0]) > w.acct.index(mine[0]) and w.radius_workers == 1:
                yield ('stop-before-start', 'call %d: stop record precedes the start record (%s)' % (call.n, cld))


def user_cld(B):
    from .sipmsg import user_of
    return user_of(B.attempts[0].inv.m.uri)


def near_stall(w, t, before=5.0, after=0.2):
    """total length of the stalls that touch [t-before, t+after]"""
    return sum(b - a for a, b in w.stall_log if a < t + after and b > t - before)


def stamp(s):
    import calendar, time as _t
    if s is None:
        return None
    s = s.split('=', 1)[-1] if '=' in s else s
    hms, gmt, wd, mon, day, yr = s.split()
    h, mi, sec = hms.split(':')
    sec, _, ms = sec.partition('.')
    tt = _t.strptime('%s %s %s' % (mon, day, yr), '%b %d %Y')
    return calendar.timegm(tt) + int(h) * 3600 + int(mi) * 60 + int(sec) + int(ms or 0) / 1000.0


def c06(w):
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        if call is None:
            continue
        late = not call.caller.get('sdp', True)
        ea, why = a_end(A)
        legs = [(A, 'answer', None, A.answered, ea)]
        for B in Bs:
            att = B.attempts[-1]
            over = b_over(B, Bs)
            f = B.answered
            if f is not None and (abandoned(att, Bs) is not None or tx_late(att, f) or (ea is not None and ea.n < f.n)):
                f = None
            # the B2BUA may end the leg itself right after the answer; the caller leg's end counts too
            legs.append((B, 'originate', user_cld(B), f, over))
        mto = any(x[1].rsplit('-', 1)[0] == A.callid for rl in getattr(w, 'relays', ()) for x in rl.timeouts)
        # (the caller's answer waits for the media relay)
        rel = max([A.answered.t - B.answered.t for B in Bs if B.answered is not None and B.answered.n < A.answered.n] or [0]) \
            if A.answered is not None and getattr(w, 'relays', None) else 0
        # (and so does a callee's INVITE)
        rel2 = w.lag if getattr(w, 'relays', None) else 0
        for D, origin, cld, f, over in legs:
            for r in w.acct:
                if r['call'] is not call or r['origin'] != origin:
                    continue
                if cld is not None and rattr(r, 'Called-Station-Id') != cld:
                    continue
                st = r['status']
                su, co = stamp(h3(r, 'h323-setup-time')), stamp(h3(r, 'h323-connect-time'))
                if st == 'Start':
                    continue
                di = stamp(h3(r, 'h323-disconnect-time'))
                val = rattr(r, 'Acct-Session-Time')
                try:
                    val = int(val)
                except (TypeError, ValueError):
                    yield ('no-session-time', 'call %d %s %s: Acct-Session-Time %r' % (call.n, origin, st, val))
                    continue
                if f is None:
                    want = 0.0
                    tol = 0.5
                elif st == 'Stop':
                    if over is None or over.n < f.n:
                        continue
                    want = over.t - f.t
                    tol = 1.0 + near_stall(w, f.t) + near_stall(w, over.t) + rel
                    if late:
                        # (connected by the answer or, where the answer carried an offer, by its acknowledgement)
                        late_lo = max(0.0, over.t - late_conn(D, f, over) - (60.0 if mto else 0.0))
                else:
                    want = r['t'] - f.t
                    tol = 1.6 + near_stall(w, f.t) + near_stall(w, r['t']) + rel
                if late and f is not None:
                    if st == 'Stop' and not late_lo - tol <= val <= want + tol:
                        yield ('wrong-duration', 'call %d %s leg %s: %s record says %d s, connected for %.3f to %.3f s' %
                               (call.n, origin, cld or '', st, val, late_lo, want))
                elif mto and st == 'Stop' and f is not None:
                    # the relay heard no media for a minute: billed up to then
                    if not max(0.0, want - 60.0) - tol <= val <= want + tol or val < 0:
                        yield ('wrong-duration', 'call %d %s leg %s: %s record says %d s, connected for %.3f s, the last minute without media' %
                               (call.n, origin, cld or '', st, val, want))
                elif abs(val - want) > tol:
                    yield ('wrong-duration' if st == 'Stop' else 'wrong-interim', 'call %d %s leg %s: %s record says %d s, connected for %.3f s' %
                           (call.n, origin, cld or '', st, val, want))
                if su is None or co is None or di is None:
                    yield ('no-stamp', 'call %d %s %s: set-up/connect/disconnect stamps %s' % (call.n, origin, st, (su, co, di)))
                    continue
                if not (su <= co + 0.001 and co <= di + 0.001):
                    yield ('stamps-order', 'call %d %s %s: set-up %.3f connect %.3f disconnect %.3f' % (call.n, origin, st, su, co, di))
                # a leg that was never connected has its connect stamp at the end
                if abs((di - co) - val) > 1.001 + (tol if st != 'Stop' else 0):
                    yield ('stamps-duration', 'call %d %s %s: connect and disconnect stamps are %.3f s apart, session time %d' %
                           (call.n, origin, st, di - co, val))
                t_su = D.attempts[0].t
                if f is not None and abs((co - su) - (f.t - t_su)) > 1.1 + rel + rel2 + near_stall(w, f.t) + near_stall(w, t_su) and len(D.attempts) == 1 and not late:
                    yield ('stamps-setup', 'call %d %s %s: set-up and connect stamps are %.3f s apart, set up in %.3f s' %
                           (call.n, origin, st, co - su, f.t - t_su))


def late_ok(D, f, over):
    """the answer f, which carried an offer, was acknowledged well before leg D ended"""
    return over is not None and late_conn(D, f, over) < over.t - 2.0


def late_conn(D, f, over):
    """moment the answer f, which carried an offer, was acknowledged on leg D"""
    if not f.m.body:
        return f.t
    for e in D.evs:
        if e.m.method == 'ACK' and e.m.cseq == f.m.cseq and e.n > f.n and e.n < over.n:
            return e.t
    return over.t


def h3(r, key):
    from .b2b import h323
    return h323(r['attrs'], key)


# -- credit ------------------------------------------------------------------------
def c07(w):
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        if call is None or not Bs or A.answered is None:
            continue
        ro = dict(route_opts(call))
        B = Bs[-1]
        f = B.answered
        if f is None or B.route not in ro and w.static is None or abandoned(B.attempts[-1], Bs):
            continue
        L = route_credit(w, call, ro.get(B.route or 0, {}))
        ea, why = a_end(A)
        b = b_bye(B)
        # a call that ended for a reason of its own (hang-up by a party)
        own = [e for e in A.evs + B.evs if e.d == 'i' and e.m.is_req and e.m.method in ('BYE', 'CANCEL')]
        own_n = min([e.n for e in own] or [INF])
        if L is not None:
            due = f.t + L
            lim = due + 1.0
            if not call.caller.get('sdp', True) and f.m.body:
                # (the session is on when the callee's offer has been answered)
                cks = [e for e in B.evs if e.d == 'o' and e.m.method == 'ACK' and e.m.cseq == f.m.cseq and e.n > f.n]
                if not cks:
                    continue
                lim += cks[0].t - f.t
            lim += near_stall(w, due, 5.0, 1.5) + near_stall(w, f.t)
            if w.exit_t > lim:
                if b is None or b.t > lim:
                    yield ('not-cut', 'call %d: credit of %d s ran out at %.3f, callee leg still up (BYE %s)' % (call.n, L, due, b))
                if ea is None or ea.t > lim:
                    yield ('not-cut', 'call %d: credit of %d s ran out at %.3f, caller leg still up (%s)' % (call.n, L, due, ea))
        else:
            due = INF
        # cut by the server, with no other reason, too early?
        ob = [e for e in A.evs + B.evs if e.d == 'o' and e.m.is_req and e.m.method == 'BYE' and e.n > f.n]
        if ob and ob[0].t < due - 0.05 - near_stall(w, f.t) and own_n > ob[0].n:
            acked = [e for e in A.evs if e.d == 'i' and e.m.method == 'ACK' and e.n < ob[0].n and e.n > A.answered.n]
            if not acked:
                continue
            # a re-INVITE that failed may take the call down
            rein = [e for e in A.evs + B.evs if e.m.is_req and e.m.method == 'INVITE' and e.m.to_tag is not None and e.n < ob[0].n]
            if rein and not w.strict_reinv:
                bad = False
                for e in rein:
                    ok = [x for D in (A, B) for x in D.evs if x.m.code and x.m.cseq == e.m.cseq and x.m.cmethod == 'INVITE' and
                          200 <= x.m.code < 300 and x.n < ob[0].n and x.n > e.n and x.m.callid == e.m.callid]
                    bad = bad or not ok
                if bad:
                    continue
            yield ('cut-early', 'call %d: hung up by the server at %.3f, answered at %.3f, credit %s' % (call.n, ob[0].t, f.t, L))


# -- route limits --------------------------------------------------------------------
def fire_time(w, att, d):
    """When the documented limits of the route abandon this attempt given the
    replies it drew; returns (time or INF, ambiguous)"""
    t0 = att.t
    E, N, R = pint(d, 'expires'), pint(d, 'np_expires'), pint(d, 'nr_expires')
    rep = sorted([(e.t, e.m.code) for e in att.provs + att.finals[:1]])
    amb = False

    def met(limit, pred):
        for t, c in rep:
            if pred(c):
                slack = 0.05 + near_stall(w, t, 6.0, 0.1) + near_stall(w, limit, 0.1, 0.5)
                if abs(t - limit) <= slack:
                    return None
                return t < limit
        return False
    best = INF
    for lim, pred in ((E, lambda c: c >= 200), (N, lambda c: c > 100), (R if R is not None and R < 32 else None, lambda c: True)):
        if lim is None:
            continue
        m = met(t0 + lim, pred)
        if m is None:
            amb = True
        elif not m:
            best = min(best, t0 + lim)
    return best, amb


def c08(w):
    v = V(w)
    EPS = 0.06
    for A, Bs in v.pairs():
        call = A.call
        if call is None or not Bs or A.answered is None and False:
            continue
        ro = dict(route_opts(call))
        ea, why = a_end(A)
        us = usable(w, call) if w.static is None else usable(w, call)[:1]
        pend = [k for k, d in us]
        timers = []               # [deadline, skipto-rnum]
        rn = {k: k + 1 for k, d in us}
        skip_all = False
        for i, B in enumerate(Bs):
            d = ro.get(B.route or 0, {})
            nxt = Bs[i + 1] if i + 1 < len(Bs) else None
            att = B.attempts[-1]
            if B.route not in pend and w.static is None:
                yield ('wrong-route', 'call %d: route %s tried, remaining routes %s' % (call.n, B.route, pend))
                break
            if w.static is None:
                if pend[0] != B.route:
                    yield ('wrong-route', 'call %d: route %s tried, expected %s' % (call.n, B.route, pend[0]))
                    break
                pend.pop(0)
            else:
                pend = []
            if 'gt' in d:
                to, sk = d['gt'].split(',')
                timers.append([B.attempts[0].t + int(to), rn[B.route or 0] + int(sk)])
            if len(B.attempts) > 1 and any(x in d for x in ('expires', 'np_expires', 'nr_expires')):
                break                       # challenged: the limits restart, not judged
            F, amb = fire_time(w, att, d)
            ff = att.first_final
            end_t = ea.t if ea is not None else INF
            # group time-outs applying to this attempt (it lives until something ends it)
            cause = []
            if ff is not None and not tx_late(att, ff):
                cause.append((ff.t, 'final'))
            if F < INF:
                cause.append((F, 'limit'))
            if not [p for p in att.provs if p.t < att.t + 31.9]:
                cause.append((att.t + 32.0, 'no-answer'))
            cause.append((att.t + 300.0, 'expiry'))
            natural = min(cause)
            g_amb = False
            # walk the group timers that run out before that
            for tmr in sorted(timers):
                D, skipto = tmr
                if D > natural[0] + EPS + near_stall(w, D, 5, 1) or D > end_t + EPS:
                    continue
                if D < att.t - EPS:
                    continue
                if abs(D - natural[0]) <= EPS + near_stall(w, D, 5, 1) or abs(D - att.t) <= EPS + near_stall(w, D, 5, 1) or \
                        abs(D - end_t) <= EPS + near_stall(w, D, 5, 1):
                    g_amb = True
                    continue
                if not pend or rn[pend[0]] > skipto:
                    continue
                if skipto > rn[pend[-1]]:
                    pend = []
                    continue
                while rn[pend[0]] < skipto:
                    pend.pop(0)
                natural = (D, 'group')
                break
            if amb or g_amb:
                break
            T, kind = natural
            c = [x for x in att.cancels if x.d == 'o']
            # what the B2BUA did first to move on
            moves = [(x.t, 'cancel') for x in c[:1]]
            if nxt is not None:
                moves.append((nxt.attempts[0].t, 'next'))
            if ea is not None and why.startswith('final') and (ff is None or ff.n > ea.n):
                moves.append((ea.t, 'final'))
            mv = min(moves)[0] if moves else INF
            a_gone = ea is not None and not why.startswith('final')
            sl = near_stall(w, T, 5.0, 1.5) if T < INF else 0
            if a_gone and ea.t <= T + 1.0 + sl:
                break
            if kind in ('limit', 'group'):
                exp487 = ea is not None and why == 'final-487'
                if w.exit_t > T + 1.0 + sl and mv > T + 1.0 + sl:
                    yield (kind + '-missed', 'call %d: attempt %s (sent %.3f, %s) should have been abandoned at %.3f, %s' %
                           (call.n, B.callid, att.t, d, T, 'was at %.3f' % mv if mv < INF else 'never was'))
                if mv < T - EPS and not exp487 and not (ff is not None and ff.t <= mv):
                    yield ('abandoned-early', 'call %d: attempt %s (sent %.3f, %s) abandoned at %.3f, limit due at %.3f' %
                           (call.n, B.callid, att.t, d, mv, T))
            elif kind == 'final':
                # nothing fired before the final: no cancel, no move before it
                if mv < T - EPS and not (ea is not None and ea.t <= mv + EPS and why == 'final-487'):
                    yield ('abandoned-early', 'call %d: attempt %s (sent %.3f, %s) abandoned at %.3f though no limit was due before its answer at %.3f' %
                           (call.n, B.callid, att.t, d, mv, T))
            else:
                if mv < T - EPS and not (ea is not None and ea.t <= mv + EPS and why == 'final-487'):
                    yield ('abandoned-early', 'call %d: attempt %s (sent %.3f, %s) abandoned at %.3f with no limit due' %
                           (call.n, B.callid, att.t, d, mv))
            if kind == 'final' and ff.m.code < 300:
                break
            if kind in ('limit', 'group', 'no-answer') and ff is not None and ff.t < T:
                break
        else:
            continue


# -- mid-call ---------------------------------------------------------------------
def answered_pair(w, A, Bs):
    """The outbound leg the caller talks to, or None"""
    if A.answered is None:
        return None
    for B in reversed(Bs):
        f = B.answered
        if f is not None and abandoned(B.attempts[-1], Bs) is None and not tx_late(B.attempts[-1], f):
            return B
    return None


def d_over(D):
    """first BYE (or transfer) on the dialog, either direction"""
    for e in D.evs:
        if e.m.is_req and (e.m.method == 'BYE' or e.m.method == 'REFER' and (e.d == 'o' or any(x.m.code < 300 for x in resps(D, e)))):
            return e
    return None


def inreqs(D, method):
    """first copies of the in-dialog requests that came in on D, by CSeq"""
    out, seen = [], set()
    for e in D.evs:
        m = e.m
        if e.d == 'i' and m.method == method and m.to_tag is not None and m.cseq not in seen:
            seen.add(m.cseq)
            out.append(e)
    return out


def resps(D, e):
    """final answers sent / received to request e on dialog D"""
    o = 'o' if e.d == 'i' else 'i'
    return [x for x in D.evs if x.d == o and x.m.code and x.m.code >= 200 and x.m.cseq == e.m.cseq and
            x.m.cmethod == e.m.method and x.n > e.n and (e.d == 'o' or x.m.branch == e.m.branch)]


def hangup_cause(w, A, B, over):
    """What may have made the server hang up the answered call at `over` by itself"""
    evs = [e for e in A.evs + B.evs if e.n < over.n]
    for e in evs:
        if e.d == 'i' and e.m.is_req and e.m.method in ('BYE', 'CANCEL', 'REFER'):
            return 'party'
    if no_ack_due(A, over.t):
        return 'no-ack'
    ro = dict(route_opts(A.call))
    L = route_credit(w, A.call, ro.get(B.route or 0, {}))
    if L is not None and over.t > B.answered.t + L - 0.1 - near_stall(w, B.answered.t):
        return 'credit'
    for D in (A, B):
        for e in D.evs:
            if e.n > over.n or e.m.cmethod != 'INVITE' or e.m.to_tag is None:
                continue
            if e.d == 'i' and e.m.code in (408, 481) and over.t - e.t < 0.5 + delta(w, e.t, 0.1):
                return 'gone'
            if e.d == 'o' and e.m.is_req and e.m.method == 'INVITE' and not [y for y in resps(D, e) if y.n < over.n] and over.t - e.t > 30.5:
                return 'timeout'
            if e.d == 'o' and e.m.code and e.m.code >= 200 and over.t - e.t > 31 and \
                    not [y for y in D.evs if y.d == 'i' and y.m.method == 'ACK' and y.m.cseq == e.m.cseq and y.n < over.n]:
                return 'no-ack'
    return None


def c12(w):
    from .sipmsg import sdp_mark, sdp_media
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        B = answered_pair(w, A, Bs)
        if call is None or B is None:
            continue
        overs = [x for x in (d_over(A), d_over(B)) if x is not None]
        over = min(overs, key=lambda e: e.n) if overs else None
        over_n = over.n if over is not None else INF
        if not call.caller.get('sdp', True):
            # the offer is in the callee's answer, the answer in the caller's acknowledgement
            fa, fb = A.answered, B.answered
            if fa.n < fb.n or not fb.m.body:
                continue
            if sdp_mark(fa.m.body) != sdp_mark(fb.m.body):
                yield ('late-offer', 'call %d: answered with offer %s, relayed as %s' % (call.n, sdp_mark(fb.m.body), sdp_mark(fa.m.body)))
            ain = [e for e in A.evs if e.d == 'i' and e.m.method == 'ACK' and e.m.cseq == fa.m.cseq and e.n > fa.n]
            bout = [e for e in B.evs if e.d == 'o' and e.m.method == 'ACK' and e.m.cseq == fb.m.cseq and e.n > fb.n and e.n < over_n]
            if bout and (not ain or ain[0].n > bout[0].n):
                yield ('late-ack-early', 'call %d: the callee was acknowledged at %.3f before the caller did' % (call.n, bout[0].t))
            elif ain and ain[0].n < over_n and (over is None or over.t - ain[0].t > 1.0 + getattr(w, "lag", 0) + near_stall(w, ain[0].t)) and \
                    w.exit_t - ain[0].t > 1.0 + getattr(w, "lag", 0) + near_stall(w, ain[0].t):
                if not bout:
                    yield ('late-answer-lost', 'call %d: acknowledged by the caller at %.3f, the callee never was' % (call.n, ain[0].t))
                elif sdp_mark(bout[0].m.body) != sdp_mark(ain[0].m.body):
                    yield ('late-answer', 'call %d: the answer %s of the caller reached the callee as %s' %
                           (call.n, sdp_mark(ain[0].m.body), sdp_mark(bout[0].m.body)))
            if not bout:
                continue
        allre = [(D, r) for D in (A, B) for r in inreqs(D, 'INVITE')]
        out_re = [(D, x) for D in (A, B) for x in D.evs if x.d == 'o' and x.m.method == 'INVITE' and x.m.to_tag is not None]
        for D, r in allre:
            O = B if D is A else A
            fin = resps(D, r)
            kinds = []
            for f in fin:
                k = (f.m.code, f.m.to_tag)
                if k not in kinds:
                    kinds.append(k)
            if len(kinds) > 1:
                yield ('reinv-two-finals', 'call %d: re-INVITE %s cseq %d got %s' % (call.n, D.side, r.m.cseq, kinds))
            if not fin:
                if w.exit_t - r.t > 305 + stalled(w, r.t, w.exit_t):
                    yield ('reinv-unanswered', 'call %d: re-INVITE from the %s side at %.3f never got a final answer' % (call.n, D.side, r.t))
                continue
            f = fin[0]
            relay = [x for DD, x in out_re if DD is O and x.n > r.n and x.n < f.n]
            if D.answered is None or r.n > over_n or f.n > over_n:
                continue
            # dialogs are only usable for this once the handshake is done
            if relay:
                x = relay[0]
                if sdp_mark(r.m.body) != sdp_mark(x.m.body) and r.m.body:
                    yield ('reinv-body', 'call %d: re-INVITE from %s carried %s, relayed with %s' %
                           (call.n, D.side, sdp_mark(r.m.body), sdp_mark(x.m.body)))
                elif not w.rtpp and r.m.body and sdp_media(r.m.body) != sdp_media(x.m.body):
                    yield ('reinv-media', 'call %d: re-INVITE from %s carried %s, relayed with %s' %
                           (call.n, D.side, sdp_media(r.m.body), sdp_media(x.m.body)))
                of = [y for y in resps(O, x) if y.n < f.n]
                if of:
                    y = of[0]
                    if y.m.code != f.m.code:
                        yield ('reinv-other-answer', 'call %d: re-INVITE from %s was answered %d by the other party, %d relayed' %
                               (call.n, D.side, y.m.code, f.m.code))
                    elif y.m.code < 300 and sdp_mark(y.m.body) != sdp_mark(f.m.body):
                        yield ('reinv-answer-body', 'call %d: re-INVITE from %s: answer %s relayed as %s' %
                               (call.n, D.side, sdp_mark(y.m.body), sdp_mark(f.m.body)))
                elif f.m.code not in (487, 408) or (f.m.code == 408 and f.t - x.t < 31.5 - 0.1):
                    yield ('reinv-made-up', 'call %d: re-INVITE from %s answered %d before the other party answered' % (call.n, D.side, f.m.code))
                elif f.m.code == 487 and over is not None and over.t - f.t < 0.001:
                    pass
                elif f.m.code == 487 and f.t - r.t < 299:
                    yield ('reinv-made-up', 'call %d: re-INVITE from %s answered 487 before the other party answered' % (call.n, D.side))
            else:
                # refused on the spot: only a glare, an out of order number or no change at all explains it
                busy = False
                for DD, q in allre + out_re:
                    if q is r or q.n > f.n:
                        continue
                    qf = resps(DD, q)
                    if not qf or qf[0].n > r.n:
                        busy = True
                # an answered call whose ACK is still missing is not re-negotiable yet
                est = A.answered is not None and A.answered.n < r.n and B.answered.n < r.n
                acked = [x for x in A.evs if x.d == 'i' and x.m.method == 'ACK' and x.n < r.n and x.n > A.answered.n and
                         (x.m.cseq == A.answered.m.cseq or call.caller.get('sdp', True))] if est else []
                same = last_mark(D, r, v)
                higher = [q for DD, q in allre if DD is D and q.n < r.n and q.m.cseq > r.m.cseq] or \
                    [q for q in D.evs if q.d == 'i' and q.m.is_req and q.n < r.n and q.m.cseq > r.m.cseq and q.m.method != 'ACK']
                if f.m.code < 300:
                    if r.m.body and same != sdp_mark(r.m.body):
                        yield ('reinv-swallowed', 'call %d: re-INVITE from %s with new %s answered 200 without asking the other party' %
                               (call.n, D.side, sdp_mark(r.m.body)))
                elif f.m.code == 491 and busy or higher or not acked or not est:
                    pass
                else:
                    yield ('reinv-refused', 'call %d: re-INVITE from %s at %.3f answered %d without asking the other party' %
                           (call.n, D.side, r.t, f.m.code))
        # a refusal leaves the call up, and so does anything else the parties do short of ending it
        if over is not None and over.d == 'o' and over.m.method == 'BYE' and A.answered.n < over.n and not hangup_cause(w, A, B, over):
            last = [y for D in (A, B) for y in D.evs if y.d == 'i' and y.m.code and y.m.code >= 300 and y.m.cmethod == 'INVITE' and y.n < over.n and
                    y.t > over.t - 1.0]
            yield ('reinv-killed', 'call %d: hung up by the server at %.3f for no reason (%s)' %
                   (call.n, over.t, 'a re-INVITE was refused with %d at %.3f' % (last[-1].m.code, last[-1].t) if last else 'nothing was refused'))
        # a pending one is settled as soon as the call is over
        if over is not None and not getattr(w, 'relays', None):
            for D, r in allre:
                if r.n < over.n and not info_excused(w, None, None, D, None, r) and D.answered.n < r.n:
                    fin = resps(D, r)
                    lim = over.t + delta(w, over.t)
                    if (not fin or fin[0].t > lim) and w.exit_t > lim:
                        yield ('reinv-left', 'call %d: re-INVITE from %s at %.3f is not settled when the call ends at %.3f: %s' %
                               (call.n, D.side, r.t, over.t, fin[:1]))
        firsts = {}
        for D, x in out_re:
            firsts.setdefault((D.side, x.m.branch), (D, x))
        for D, x in firsts.values():
            prov = [y for y in D.evs if y.d == 'i' and y.m.code and 100 <= y.m.code < 200 and y.m.cseq == x.m.cseq and
                    y.m.cmethod == 'INVITE' and y.t < x.t + 31]
            fin = resps(D, x)
            if over is not None and x.n < over.n and prov and prov[0].t < over.t + 31:
                t2 = max(over.t, prov[0].t)
                lim = t2 + delta(w, t2)
                if not (fin and fin[0].t <= lim) and w.exit_t > lim and \
                        not [y for y in D.evs if y.d == 'o' and y.m.method == 'CANCEL' and y.m.branch == x.m.branch and y.t <= lim]:
                    yield ('reinv-not-cancelled', 'call %d: re-INVITE to %s at %.3f is not cancelled when the call ends at %.3f' %
                           (call.n, D.side, x.t, over.t))
            O = B if D is A else A
            for i, y in enumerate(prov):
                if y.m.code == 100 or y.m.code in [z.m.code for z in prov[:i]] or (fin and fin[0].n < y.n) or (over is not None and over.t < y.t + delta(w, y.t, 0.1)):
                    continue
                rq = [q for q in inreqs(O, 'INVITE') if q.n < x.n]
                if not rq:
                    continue
                lim = y.t + delta(w, y.t, 0.1)
                fo = resps(O, rq[-1])
                if w.exit_t < lim or (fo and fo[0].t <= lim):
                    continue
                if not [z for z in O.evs if z.d == 'o' and z.m.code == y.m.code and z.m.cseq == rq[-1].m.cseq and z.m.cmethod == 'INVITE' and z.n > y.n]:
                    yield ('reinv-prov', 'call %d: %d to the re-INVITE of %.3f from %s at %.3f is not relayed' % (call.n, y.m.code, x.t, D.side, y.t))
        # nobody is left waiting
    for c in w.calls:
        for leg in [c.leg] + c.blegs:
            for res in leg.reinv_results:
                if res['result'] is None and w.exit_t - res['t'] > 310 and not leg.ep.silent and (leg.established or 0) > 0:
                    yield ('reinv-waiting', 'call %d: %s is still waiting for an answer to its re-INVITE of %.3f' % (c.n, leg.callid, res['t']))


def served(w):
    """Requests the parties make inside an answered dialog are answered, with the right code"""
    v = V(w)
    for A, Bs in v.pairs():
        if A.call is None:
            continue
        B = answered_pair(w, A, Bs)
        for D in [A] + Bs:
            f = D.answered
            if f is None or (D.side == 'B' and (abandoned(D.attempts[-1], Bs) is not None or refused(w, D) or tx_late(D.attempts[-1], f))):
                continue
            O = (B if D is A else A) if D is A or D is B else None
            over, oover = d_over(D), d_over(O) if O is not None else None
            for method in ('BYE', 'INFO', 'OPTIONS', 'REFER'):
                for e in inreqs(D, method):
                    if e.n < f.n or e.m.branch is None or info_excused(w, None, None, D, O, e):
                        continue
                    lim = e.t + delta(w, e.t, 0.5)
                    if w.exit_t < lim:
                        continue
                    rs = resps(D, e)
                    codes = sorted(set(x.m.code for x in rs))
                    what = '%s cseq %d in %s at %.3f' % (method, e.m.cseq, D.callid, e.t)
                    live = over is None or over.n >= e.n
                    if method == 'BYE':
                        if not rs or rs[0].t > lim:
                            yield ('unserved-bye', '%s: not answered in time (%s)' % (what, rs[:1]))
                        elif codes != [200] and (live or set(codes) - {200, 481, 500}):
                            yield ('unserved-bye', '%s: answered %s' % (what, codes))
                        continue
                    if O is None or not live or (oover is not None and (oover.n < e.n or oover.t < e.t + 0.001)):
                        continue
                    if method == 'REFER':
                        pend = [q for q in D.evs if q.d == 'o' and q.m.method == 'INVITE' and q.m.to_tag is not None and q.n < e.n and
                                (not resps(D, q) or resps(D, q)[0].n > e.n)]
                        want = [202] if e.m.get('refer-to') else [400]
                        if pend:
                            continue
                    else:
                        want = [200]
                    if not rs or rs[0].t > lim or codes != want:
                        yield ('unserved-' + method.lower(), '%s: answered %s (%s), expected %s' % (what, codes, rs[:1], want))


def last_mark(D, r, v):
    """session description last accepted from the party on D before r"""
    from .sipmsg import sdp_mark
    m = None
    seen = set()
    for e in D.evs:
        if e.n >= r.n:
            break
        if e.d == 'i' and e.m.body:
            if e.raw in seen:
                continue
            if e.m.is_req and e.m.method == 'INVITE':
                seen.add(e.raw)
                if e.m.to_tag is None:
                    m = sdp_mark(e.m.body)
                else:
                    ok = [x for x in resps(D, e) if x.n < r.n and x.m.code < 300]
                    if ok:
                        m = sdp_mark(e.m.body)
            elif e.m.method == 'ACK':
                seen.add(e.raw)
                m = sdp_mark(e.m.body)
            elif e.m.code and e.raw not in seen and (200 <= e.m.code < 300 or e.m.code in (180, 183)):
                seen.add(e.raw)
                if e.m.code < 200 and any(x.d == 'i' and x.n < e.n and x.m.code and x.m.code >= 200 and x.m.cseq == e.m.cseq for x in D.evs):
                    continue    # late provisional
                m = sdp_mark(e.m.body)
    return m


def no_ack_due(A, t):
    """the caller leg's missing ACK may take the call down around t"""
    f = A.answered
    acks = [e for e in A.evs if e.d == 'i' and e.m.method == 'ACK' and e.n > f.n]
    return not acks and t - f.t > 31


def c13(w):
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        B = answered_pair(w, A, Bs)
        if call is None or B is None:
            continue
        overs = [x for x in (d_over(A), d_over(B)) if x is not None]
        over = min(overs, key=lambda e: e.n) if overs else None
        over_n = over.n if over is not None else INF
        for D, O in ((A, B), (B, A)):
            ins = inreqs(D, 'INFO')
            outs, seen = [], set()
            for e in O.evs:
                if e.d == 'o' and e.m.method == 'INFO' and e.m.cseq not in seen:
                    seen.add(e.m.cseq)
                    outs.append(e)
            ib = [e.m.body for e in ins]
            ob = [e.m.body for e in outs]
            for b in set(ob):
                if ob.count(b) > ib.count(b):
                    yield ('info-dup', 'call %d: INFO %r came %d times from %s, relayed %d times' % (call.n, b, ib.count(b), D.side, ob.count(b)))
            # relayed in order of arrival (those that can be told apart)
            pos = [ib.index(b) for b in ob if ib.count(b) == 1]
            if pos != sorted(pos):
                yield ('info-order', 'call %d: INFOs from %s relayed in order %s' % (call.n, D.side, pos))
            match = {}
            for x in outs:
                c = [e for e in ins if e.n < x.n and e.m.body == x.m.body and e.n not in match]
                if c:
                    match[c[-1].n] = x
            for e in ins:
                if not (A.answered.n < e.n and B.answered.n < e.n):
                    continue
                if over_n < e.n or (over is not None and over.t < e.t + 0.001):
                    continue
                x = match.get(e.n)
                if x is not None:
                    rs = [y.m.code for y in resps(D, e)]
                    if set(rs) - {200} or not rs:
                        yield ('info-answer', 'call %d: INFO %r from %s at %.3f was relayed but answered %s' % (call.n, e.m.body, D.side, e.t, rs))
                    if (x.m.get('content-type') or '').lower() != (e.m.get('content-type') or '').lower():
                        yield ('info-type', 'call %d: INFO of type %s relayed as %s' % (call.n, e.m.get('content-type'), x.m.get('content-type')))
                    continue
                ok = [x for x in resps(D, e) if x.m.code < 300]
                if ok:
                    yield ('info-lost', 'call %d: INFO %r from %s at %.3f was answered 200 but never relayed' % (call.n, e.m.body, D.side, e.t))
                elif not info_excused(w, A, B, D, O, e) and w.exit_t - e.t > 1:
                    yield ('info-refused', 'call %d: INFO %r from %s at %.3f was neither relayed nor answered (%s)' %
                           (call.n, e.m.body, D.side, e.t, [x.m.code for x in resps(D, e)]))


def info_excused(w, A, B, D, O, e):
    """out of order numbers"""
    for q in D.evs:
        if q.d == 'i' and q.m.is_req and q.n < e.n and q.m.cseq > e.m.cseq and q.m.method not in ('ACK',):
            return True
    return False


# -- C09 -------------------------------------------------------------------------
def still_up(w):
    """call-ids whose call may legitimately still exist at the end of the run"""
    v = V(w)
    up = set()
    for A, Bs in v.pairs():
        ea, why = a_end(A)
        # (a callee given up on that answers late is hung up on: that ends nothing)
        Bs = [B for B in Bs if B.callid.startswith(A.callid)] or Bs
        ans = sorted((B for B in Bs if B.answered is not None), key=lambda B: B.attempts[0].inv.n)
        if ea is None and not (ans and b_bye(ans[-1]) is not None):
            # nobody ended it: a refused or never answered one is over all the same
            if A.answered is not None:
                up.add(A.callid)
    return up


def c09(w):
    from . import leaks
    if w.result != 'stop':
        return
    up = still_up(w)
    if up:
        w.sim.probe('c09_call_still_up')
        return
    s = leaks.snapshot(w)
    if s.get('calls'):
        yield ('call-table', 'calls still listed when all is over: %s' % s['calls'][:3])
    for k, n in (('tclient', 'client transactions'), ('tserver', 'server transactions'), ('consumers', 'request routing entries')):
        if s.get(k):
            yield (k, '%s left: %s' % (n, s[k][:4]))
    d = s['timers'] - w.leak0
    for k in [k for k in d if k.startswith('Rtp_proxy_client')]:
        # what a relay is asked now and then whether there are calls or not
        if d[k] <= len(getattr(w, 'relays', ())) * (1 if 'heartbeat' in k else 8):
            del d[k]
    # the console, the call table and the transaction layer keep their periodic ones
    if d:
        yield ('timers', 'timers left: %s' % dict(d))
    o = {k: n for k, n in s['objs'].items() if n}
    if o:
        yield ('objects', 'objects of finished calls still referenced: %s' % o)


def c11_noack(w):
    """an answered call whose ACK never comes is torn down"""
    for d in V(w).A():
        for a in d.attempts:
            f = a.first_final
            if f is None or f.m.code >= 300:
                continue
            dl = f.t + 32.0
            lim = dl + delta(w, dl)
            acks = [x for x in a.acks if x.n > f.n and x.m.to_tag == f.m.to_tag]
            if (acks and acks[0].t <= lim) or w.exit_t < lim or w.stopping(lim):
                continue
            b = b_bye(d)
            if b is None:
                yield ('not-torn-down', 'call %s answered at %.3f, no ACK, no BYE by %.3f' % (d.callid, f.t, w.exit_t))
            elif b.t > lim:
                yield ('torn-down-late', 'call %s answered at %.3f, no ACK, BYE only at %.3f' % (d.callid, f.t, b.t))


# -- payload policy (-F) --------------------------------------------------------------
AVT = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')


def policy(lst, body):
    """what the policy makes of a description: formats per medium, and whether a
    medium has nothing left"""
    from .sipmsg import sdp_formats
    out, dead = [], False
    for tr, fm, at in sdp_formats(body):
        if tr in AVT:
            ok = []
            for x in lst.split(','):
                if x.startswith('['):
                    ok += [a.split(' ', 1)[0] for a in at if a.split(' ', 1)[1] == x[1:-1]][:1]
                else:
                    ok.append(x)
            fm = [x for x in fm if x in ok]
            dead = dead or not fm
        out.append((tr, fm))
    return out, dead


def c31(w):
    from .sipmsg import sdp_mark, sdp_formats
    lst = w.opts[w.opts.index('-F') + 1]
    v = V(w)
    for A, Bs in v.pairs():
        call = A.call
        if call is None:
            continue
        orig, dead = {}, False
        for D in [A] + Bs:
            for e in D.evs:
                mk = sdp_mark(e.m.body)
                if e.d == 'i' and mk:
                    orig.setdefault(mk, e.m.body)
                    dead = dead or policy(lst, e.m.body)[1]
        for D in [A] + Bs:
            for e in D.evs:
                mk = sdp_mark(e.m.body)
                if e.d != 'o' or not mk:
                    continue
                if mk not in orig:
                    yield ('policy-unknown', 'call %d: description %s sent at %.3f was issued by nobody in this call' % (call.n, mk, e.t))
                    continue
                want, gone = policy(lst, orig[mk])
                got = [(a, b) for a, b, c in sdp_formats(e.m.body)]
                if gone:
                    yield ('policy-passed', 'call %d: %s at %.3f has no payload type of %s left and was sent to the %s side with %s' %
                           (call.n, mk, e.t, lst, D.side, got))
                elif got != want:
                    yield ('policy-formats', 'call %d: %s at %.3f sent to the %s side with %s, the policy (%s) makes it %s' %
                           (call.n, mk, e.t, D.side, got, lst, want))
                for tr, fm, at in sdp_formats(e.m.body):
                    if tr in AVT and [x for x in at if x.split(' ', 1)[0] not in fm]:
                        yield ('policy-attributes', 'call %d: %s at %.3f describes payload types it does not offer: %s, %s' %
                               (call.n, mk, e.t, fm, at))
        ans = [B for B in Bs if B.answered is not None and A.answered is not None and B.answered.n < A.answered.n]
        if ans and all(B.answered.m.body and policy(lst, B.answered.m.body)[1] for B in ans):
            yield ('policy-put-through', 'call %d: put through at %.3f by an answer without any allowed payload type' % (call.n, A.answered.t))
        if not dead:
            for att in A.attempts:
                f = att.first_final
                if f is not None and f.m.code == 488 and not any(e.d == 'i' and e.m.code == 488 for B in Bs for e in B.evs):
                    yield ('policy-refused', 'call %d: refused with 488 at %.3f though every description has an allowed type' % (call.n, f.t))
