"""Keep-alive re-INVITEs (-k): dead peers are found, live ones left alone."""
from .oracles import V, near_stall, delta, INF, a_end, b_bye, abandoned

IVAL, TMO, GRACE = 32.0, 32.0, 600.0
BAD = (408, 481, 486)


class Ka(object):
    """One keep-alive as seen on the wire."""

    def __init__(self, e):
        self.t, self.n, self.cseq, self.m = e.t, e.n, e.m.cseq, e.m
        self.out = None            # (code, t, n) of the first final answer delivered
        self.prov = None

    def outcome(self):
        """(code, t) or (None, time-out)"""
        if self.out is not None:
            return self.out[0], self.out[1]
        return None, (self.t + 300.0 if self.prov is not None else self.t + TMO)


def keepalives(L, other, start):
    """The re-INVITEs the server sent on this leg, split in keep-alives and
    relayed ones (those with an answerable re-INVITE pending on the other leg)."""
    kas, rel, sent = {}, [], set()
    for e in L.evs:
        m = e.m
        if e.d == 'o' and m.is_req and m.method == 'INVITE' and m.to_tag is not None and m.cseq not in kas and m.cseq not in rel:
            # a keep-alive repeats a description already sent in this dialog
            if m.body in sent or not m.body and not sent:
                kas[m.cseq] = Ka(e)
            else:
                rel.append(m.cseq)
        elif not m.is_req and m.cmethod == 'INVITE' and e.d == 'i' and m.cseq in kas:
            k = kas[m.cseq]
            if m.code < 200:
                k.prov = k.prov or e.t
            elif k.out is None:
                k.out = (m.code, e.t, e.n)
        if e.d == 'o' and m.body and (m.method in ('INVITE', 'ACK') or m.cmethod == 'INVITE'):
            sent.add(m.body)
    return sorted(kas.values(), key=lambda k: k.n), rel


def level(w):
    o = list(w.opts)
    for i, x in enumerate(o):
        if x == '-k':
            return int(o[i + 1])
    return 0


def c23(w):
    k = level(w)
    v = V(w)
    for A, Bs in v.pairs():
        if A.call is None or A.answered is None or not Bs or Bs[-1].answered is None:
            continue
        B = Bs[-1]
        if abandoned(B.attempts[-1], Bs):
            continue
        ev = sorted(A.evs + B.evs, key=lambda e: e.n)
        ended = [e for e in ev if e.m.is_req and e.m.method == 'BYE' and (e.d == 'o' or e.m.to_tag is not None)]
        end = ended[0] if ended else None
        te = end.t if end else INF
        legs = []
        acked = [e for e in A.evs if e.d == 'i' and e.m.method == 'ACK' and e.m.cseq == A.answered.m.cseq and e.t <= te]
        for name, L, O, on, up in (('caller', A, B, k in (1, 3), A.answered.t), ('callee', B, A, k in (2, 3), B.answered.t)):
            kas, rel = keepalives(L, O, up)
            if not on:
                kas = []
            legs.append((name, L, O, on, up, kas, rel))
        ended_by = end
        # 1. a peer that went silent is found
        for name, L, O, on, up, kas, rel in legs:
            if not on:
                continue
            kn = dict((x.cseq, x) for x in kas)
            last = up
            for e in L.evs:
                if end is not None and e.n >= end.n:
                    break
                m = e.m
                if e.d == 'o' and (m.method == 'INFO' or m.method == 'INVITE' and m.cseq in kn):
                    continue
                last = max(last, e.t)
            for e in O.evs:
                if e.d == 'i' and e.m.is_req and e.m.method == 'INVITE' and e.m.to_tag is not None and (end is None or e.n < end.n):
                    last = max(last, e.t)
            lk = [x for x in kas if x.out is not None and x.out[0] not in BAD]
            upd = [e.n for e in L.evs if e.m.method == 'INVITE' and e.m.is_req and e.m.to_tag is not None and
                   not (e.d == 'o' and e.m.cseq in kn)]
            upd += [e.n for e in O.evs if e.m.method == 'INVITE' and e.m.is_req and e.m.to_tag is not None and e.d == 'i']
            good = [x for x in lk if not upd or x.n > max(upd)]
            prov = max([x.prov for x in kas if x.prov is not None and x.out is None] or [None], key=lambda x: x or 0)
            lim = last + IVAL + TMO
            if prov is not None:
                lim += 300.0
            if not good:
                lim += GRACE
            lim += delta(w, last, 1.0) + near_stall(w, lim, lim - last, 1.0)
            if min(te, w.exit_t) > lim and w.exit_t > lim:
                yield ('dead-not-found', 'call %d: nothing came from the %s after %.3f (keep-alives at %s), still not hung up at %.3f%s' %
                       (A.call.n, name, last, ['%.3f' % x.t for x in kas][-4:], lim, '' if te == INF else ' (hung up at %.3f)' % te))
        # 2. only for a reason
        if end is None or end.d != 'o':
            continue
        if not acked:
            continue
        if any(e.d == 'i' and e.m.is_req and e.m.method in ('BYE', 'CANCEL', 'REFER') and e.n < end.n for e in ev):
            continue
        why = False
        for name, L, O, on, up, kas, rel in legs:
            seen = 0
            for x in kas:
                code, t = x.outcome()
                if code is not None and code not in BAD:
                    continue
                slack = 0.05 + near_stall(w, t, 40.0, 1.0)
                if te < t - slack:
                    continue
                prev = [y for y in kas if y.n < x.n and y.cseq != x.cseq]
                upd = [e for e in L.evs + O.evs if e.m.method == 'INVITE' and e.m.is_req and e.m.to_tag is not None and
                       e.d == 'i' and e.n < end.n]
                if not prev and not upd and te < t + GRACE - slack:
                    continue
                why = True
        if why:
            continue
        # a relayed re-INVITE nobody answered (C12 judges those)
        bad = False
        for L, O in ((A, B), (B, A)):
            for e in L.evs:
                if e.d == 'i' and e.m.is_req and e.m.method == 'INVITE' and e.m.to_tag is not None and e.n < end.n:
                    ok = [x for x in L.evs if x.d == 'o' and x.m.code and x.m.code >= 200 and x.m.cmethod == 'INVITE' and x.m.cseq == e.m.cseq and x.n < end.n]
                    ak = [x for x in L.evs if x.d == 'i' and x.m.method == 'ACK' and x.m.cseq == e.m.cseq and x.n < end.n]
                    if not ok or not ak:
                        bad = True
        if bad:
            continue
        yield ('live-hung-up', 'call %d: hung up by the server at %.3f (%r) while both parties were alive; keep-alives %s' %
               (A.call.n, te, end, [(n, ['%.3f %s' % (x.t, x.outcome()[0]) for x in kas][-4:]) for n, L, O, on, up, kas, rel in legs]))
