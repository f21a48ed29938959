"""Transaction-layer rules (C10, C11): wire rules that hold in any simulated
world, and call-back rules for TMWorld."""
from collections import OrderedDict
from .oracles import stalled

EPS = 0.02


def lag(w, t0, t1):
    return 0.1 + stalled(w, t0 - 0.001, t1 + 0.1)


def due(w, t0, nt):
    """latest time by which something due at nt (armed at t0) has happened"""
    lim = nt + 0.1
    for i in range(20):
        n = nt + 0.1 + stalled(w, t0 - 0.001, lim)
        if n <= lim + 1e-9:
            break
        lim = n
    return lim


def hexp(m):
    """life time of the INVITE after a provisional answer"""
    e = m.get('expires')
    try:
        e = int(e)
    except (TypeError, ValueError):
        return 300
    return e if e > 0 else 300


class CTx(object):
    def __init__(self, e):
        self.m, self.t0, self.copies, self.resp, self.acks = e.m, e.t, [e], [], []
        self.vague = False

    def life_end(self, w):
        """when the transaction gives up, given the provisional answers processed"""
        dl = self.t0 + 32.0
        seen = {}
        for r in self.resp:
            if dl - EPS < r.t <= dl + lag(w, dl, r.t):
                # arrives together with the time-out: either may win
                self.vague = True
            if r.t > dl + EPS:
                break
            if r.m.code >= 200:
                break
            if r.raw in seen:
                # an identical copy is absorbed as long as it is remembered
                # (somewhere between 32 and 64 s)
                d = r.t - seen[r.raw]
                if d < 31.9:
                    continue
                if d < 64.1:
                    self.vague = True
            seen[r.raw] = r.t
            dl = r.t + (hexp(self.m) if self.m.method == 'INVITE' else 32.0)
        return dl


def client_txs(w):
    txs = OrderedDict()
    for e in w.ev:
        m = e.m
        if m.method == '?':
            continue
        if e.d == 'o' and m.is_req and m.method != 'ACK':
            k = (m.method, m.branch)
            if k in txs:
                txs[k].copies.append(e)
            else:
                txs[k] = CTx(e)
        elif e.d == 'o' and m.is_req:
            for t in txs.values():
                if t.m.method == 'INVITE' and t.m.callid == m.callid and t.m.cseq == m.cseq and t.m.from_tag == m.from_tag:
                    t.acks.append(e)
        elif e.d == 'i' and not m.is_req:
            t = txs.get((m.cmethod, m.branch))
            if t is not None:
                t.resp.append(e)
    return txs


def client_wire(w):
    """sending, repeating and acknowledging, from the wire alone"""
    end = w.exit_t
    for (meth, br), t in client_txs(w).items():
        who = '%s %s (call-id %s)' % (meth, t.m.uri, t.m.callid)
        for c in t.copies[1:]:
            if c.raw != t.copies[0].raw:
                yield ('copy-differs', '%s: a repeat at %.3f differs from the first copy' % (who, c.t))
                break
        r0 = t.resp[0] if t.resp else None
        late = [c for c in t.copies if r0 is not None and c.n > r0.n]
        if late:
            yield ('copy-after-answer', '%s answered %s at %.3f, repeated at %.3f' % (who, r0.m.code, r0.t, late[0].t))
        exp = 0.5
        for a, b in zip(t.copies, t.copies[1:]):
            if r0 is not None and b.n > r0.n:
                break
            g = b.t - a.t
            if g < exp - EPS:
                yield ('copy-early', '%s: repeats at %.3f and %.3f, expected %.1f s apart' % (who, a.t, b.t, exp))
                break
            if g > exp + lag(w, a.t, b.t):
                yield ('copy-late', '%s: repeats at %.3f and %.3f, expected %.1f s apart' % (who, a.t, b.t, exp))
                break
            if b.t > t.t0 + 32 + lag(w, t.t0 + 32, b.t):
                yield ('copy-after-timeout', '%s sent at %.3f still repeated at %.3f' % (who, t.t0, b.t))
                break
            exp *= 2
        else:
            # the next repeat is due unless answered or given up
            nt = t.copies[-1].t + 0.5 * 2 ** (len(t.copies) - 1)
            if nt < t.t0 + 31.9:
                lim = due(w, t.copies[-1].t, nt)
                if (r0 is None or r0.t > lim) and end > lim and not w.stopping(nt):
                    yield ('copy-missing', '%s sent %d times, not repeated by %.3f though there was no answer' % (
                        who, len(t.copies), lim))
        if meth == 'INVITE':
            for x in ack_rules(w, t, who):
                yield x


def ack_rules(w, t, who):
    fin = [r for r in t.resp if r.m.code >= 200]
    if not fin:
        if t.acks:
            yield ('ack-without-final', '%s: ACK sent at %.3f, no final answer was received' % (who, t.acks[0].t))
        return
    f1 = fin[0]
    dl = t.life_end(w)
    if t.vague:
        return
    if f1.t > dl - EPS:
        # possibly past the life of the transaction (a late time-out of the timer by a stall included)
        return
    same = [f for f in fin if f.raw == f1.raw]
    ok2xx = 200 <= f1.m.code < 300
    late_offer = ok2xx and not t.m.body
    ns = [f.n for f in same] + [float('inf')]
    acked = False
    for i, f in enumerate(same):
        if f.t > f1.t + 31.9:
            break
        a = [x for x in t.acks if ns[i] < x.n < ns[i + 1]]
        if a and not acked:
            acked = True
        if not a and not (late_offer and not acked) and not w.stopping(f.t):
            yield ('final-not-acked', '%s: final answer %d received at %.3f (copy %d) was not acknowledged' % (
                who, f.m.code, f.t, i + 1))
            break
        if a and not (late_offer and i == 0) and a[0].t > f.t + lag(w, f.t, a[0].t) and not late_offer:
            yield ('ack-late', '%s: final answer received at %.3f acknowledged at %.3f' % (who, f.t, a[0].t))
            break
        if len(a) > 1:
            yield ('ack-twice', '%s: %d ACKs for the copy of %d received at %.3f' % (who, len(a), f.m.code, f.t))
            break
    for a in t.acks:
        m = a.m
        if m.to_tag != f1.m.to_tag or m.from_tag != t.m.from_tag or m.get('cseq') != '%d ACK' % t.m.cseq:
            yield ('ack-wrong', '%s answered %d: ACK has to %s from %s cseq %s' % (
                who, f1.m.code, m.get('to'), m.get('from'), m.get('cseq')))
            break
        if (m.branch == t.m.branch) == ok2xx:
            yield ('ack-branch', '%s answered %d: ACK branch %s, INVITE branch %s' % (who, f1.m.code, m.branch, t.m.branch))
            break
        if m.get('content-length') not in (None, str(len(m.body.encode()))):
            yield ('ack-wrong', '%s: ACK content length' % who)
            break


# -- server side, wire ----------------------------------------------------------
class STx(object):
    def __init__(self, e):
        self.m, self.t0, self.copies, self.out, self.acks, self.cancels = e.m, e.t, [e], [], [], []

    @property
    def finals(self):
        return [o for o in self.out if o.m.code >= 200]


def server_txs(w):
    txs = OrderedDict()
    for e in w.ev:
        m = e.m
        if m.method == '?' or m.callid is None:
            continue
        if e.d == 'i' and m.is_req and m.method != 'ACK':
            k = (m.method, m.branch, m.callid, m.get('cseq'), m.from_tag)
            if k in txs:
                txs[k].copies.append(e)
            else:
                txs[k] = STx(e)
            if m.method == 'CANCEL':
                t = txs.get(('INVITE', m.branch, m.callid, '%d INVITE' % m.cseq, m.from_tag))
                if t is not None:
                    t.cancels.append(e)
        elif e.d == 'i' and m.is_req:
            for t in txs.values():
                if t.m.method == 'INVITE' and t.m.callid == m.callid and t.m.cseq == m.cseq and t.m.from_tag == m.from_tag:
                    f = t.finals
                    if f and f[0].m.to_tag == m.to_tag:
                        t.acks.append(e)
        elif e.d == 'o' and not m.is_req:
            t = txs.get((m.cmethod, m.branch, m.callid, m.get('cseq'), m.from_tag))
            if t is not None:
                t.out.append(e)
    return txs


def server_wire(w):
    end = w.exit_t
    for k, t in server_txs(w).items():
        who = '%s (call-id %s, cseq %d)' % (t.m.method, t.m.callid, t.m.cseq)
        trig = set()
        # what each repeat of the request draws
        for c in t.copies[1:]:
            if c.raw != t.copies[0].raw:
                continue
            prev = [o for o in t.out if o.n < c.n]
            nxt = [o for o in t.out if o.n == c.n + 1]
            if prev:
                trig.update(o.n for o in nxt)
            if not prev or c.t > prev[-1].t + 31.9 or w.stopping(c.t):
                continue
            if not nxt:
                yield ('repeat-not-answered', '%s: answered %d at %.3f, the repeat received at %.3f drew nothing' % (
                    who, prev[-1].m.code, prev[-1].t, c.t))
                break
            if nxt[0].raw != prev[-1].raw:
                yield ('repeat-answered-differently', '%s: answered %d at %.3f, the repeat received at %.3f drew %d %s' % (
                    who, prev[-1].m.code, prev[-1].t, c.t, nxt[0].m.code, nxt[0].m.reason))
                break
        fs = t.finals
        if len(set(f.raw for f in fs)) > 1:
            yield ('two-finals', '%s answered %s' % (who, [(f.m.code, f.m.to_tag) for f in fs][:4]))
        if fs and [o for o in t.out if o.n > fs[0].n and o.m.code < 200]:
            yield ('prov-after-final', '%s: provisional answer after the final %d' % (who, fs[0].m.code))
        if t.m.method != 'INVITE':
            x = [f for f in fs[1:] if f.n not in trig]
            if x:
                yield ('answer-repeated', '%s: final answer repeated unasked at %.3f' % (who, x[0].t))
            continue
        if not fs:
            continue
        ack = [a for a in t.acks if a.n > fs[0].n]
        ackn = ack[0].n if ack else float('inf')
        tim = [f for f in fs if f.n not in trig]
        if not tim:
            continue
        exp = 0.5
        bad = False
        for a, b in zip(tim, tim[1:]):
            if b.n > ackn:
                bad = True
                yield ('final-after-ack', '%s: %d acknowledged at %.3f, repeated at %.3f' % (who, b.m.code, ack[0].t, b.t))
                break
            g = b.t - a.t
            if g < exp - EPS or g > exp + lag(w, a.t, b.t):
                bad = True
                yield ('final-repeat-time', '%s: final answer repeated at %.3f and %.3f, expected %.1f s apart' % (who, a.t, b.t, exp))
                break
            exp *= 2
            if b.t > fs[0].t + 32 + lag(w, fs[0].t + 32, b.t):
                bad = True
                yield ('final-after-timeout', '%s: final answer of %.3f still repeated at %.3f' % (who, fs[0].t, b.t))
                break
        if not bad:
            nt = tim[-1].t + 0.5 * 2 ** (len(tim) - 1)
            if nt < fs[0].t + 31.9:
                lim = due(w, tim[-1].t, nt)
                if (not ack or ack[0].t > lim) and end > lim and not w.stopping(nt):
                    yield ('final-not-repeated', '%s: final answer %d sent %d times, not repeated by %.3f though not acknowledged' % (
                        who, fs[0].m.code, len(tim), lim))


# -- call-backs (TMWorld) -----------------------------------------------------------
def c10_cb(w):
    end = w.exit_t
    txs = client_txs(w)
    for r in w.creqs:
        if r.t0 is None:
            continue
        who = '%s n%d' % (r.method, r.n)
        t = txs.get((r.method, r.branch))
        if t is None:
            yield ('not-sent', '%s was never sent' % who)
            continue
        fins = [c for c in r.cbs if c[2] >= 200]
        provs = [c for c in r.cbs if c[2] < 200]
        if len(fins) > 1:
            yield ('two-outcomes', '%s: outcomes %s' % (who, [(c[0], c[2], c[3]) for c in fins]))
        if fins and [c for c in r.cbs if c[2] < 200 and r.cbs.index(c) > r.cbs.index(fins[0])]:
            yield ('prov-after-outcome', '%s: provisional reported after the outcome %d' % (who, fins[0][2]))
        dl = t.life_end(w)
        if t.vague:
            continue
        infin = [x for x in t.resp if x.m.code >= 200]
        if r.plan.get('nocb'):
            continue
        # distinct provisional answers before the end are reported once each
        pass
        dist = []
        for x in t.resp:
            if x.m.code < 200 and x.t < dl - EPS and (not infin or x.n < infin[0].n) and x.raw not in [d.raw for d in dist]:
                dist.append(x)
        if [c[2] for c in provs] != [x.m.code for x in dist] and not any(abs(x.t - dl) < lag(w, dl, dl) for x in t.resp):
            yield ('provisionals', '%s: provisional answers received %s, reported %s' % (
                who, [x.m.code for x in dist], [c[2] for c in provs]))
        if infin and infin[0].t < dl - EPS:
            f = infin[0]
            if end < f.t + 0.5:
                continue
            if not fins:
                yield ('outcome-lost', '%s: answer %d received at %.3f was not reported' % (who, f.m.code, f.t))
            elif (fins[0][2], fins[0][3], fins[0][4]) != (f.m.code, f.m.reason, f.m.to_tag):
                yield ('outcome-wrong', '%s: answer %d %s received, %d %s reported' % (who, f.m.code, f.m.reason, fins[0][2], fins[0][3]))
            elif fins[0][0] > f.t + lag(w, f.t, fins[0][0]):
                yield ('outcome-late', '%s: answer received at %.3f reported at %.3f' % (who, f.t, fins[0][0]))
            continue
        if infin and abs(infin[0].t - dl) <= lag(w, dl, infin[0].t):
            continue
        if end < due(w, dl, dl) + 0.5:
            if fins and fins[0][0] < dl - EPS:
                yield ('early-timeout', '%s: outcome %d at %.3f though the limit is %.3f' % (who, fins[0][2], fins[0][0], dl))
            continue
        if not fins:
            yield ('no-outcome', '%s sent at %.3f: no answer and no time-out by %.3f' % (who, t.t0, end))
        elif fins[0][2] != 408:
            yield ('outcome-wrong', '%s: no answer in time, %d reported' % (who, fins[0][2]))
        elif fins[0][0] < dl - EPS:
            yield ('early-timeout', '%s: timed out at %.3f, limit %.3f' % (who, fins[0][0], dl))
        elif fins[0][0] > dl + lag(w, dl, fins[0][0]):
            yield ('late-timeout', '%s: timed out at %.3f, limit %.3f' % (who, fins[0][0], dl))
    for x in c10_cancel(w, txs):
        yield x


def c10_cancel(w, txs):
    for r in w.creqs:
        if r.t0 is None or r.method != 'INVITE':
            continue
        t = txs.get(('INVITE', r.branch))
        cs = [e for e in w.ev if e.d == 'o' and e.m.method == 'CANCEL' and e.m.callid == 'out%d' % r.n]
        if t is None:
            continue
        if r.cancel_t is None:
            if cs:
                yield ('cancel-unasked', 'INVITE n%d: CANCEL sent, the user never asked' % r.n)
            continue
        prov = [x for x in t.resp if x.m.code < 200]
        fin = [x for x in t.resp if x.m.code >= 200]
        dl = t.life_end(w)
        if t.vague:
            continue
        if len(set(c.m.branch for c in cs)) > 1:
            yield ('two-cancels', 'INVITE n%d: two different CANCELs' % r.n)
        for c in cs[:1]:
            if not prov or c.n < prov[0].n:
                yield ('cancel-early', 'INVITE n%d: CANCEL sent before any provisional answer' % r.n)
            if c.m.branch != r.branch or c.m.cseq != t.m.cseq or c.m.from_tag != t.m.from_tag or c.m.uri != t.m.uri:
                yield ('cancel-wrong', 'INVITE n%d: CANCEL does not match its INVITE' % r.n)
        if prov and prov[0].t < dl - 1 and not (fin and fin[0].t <= max(r.cancel_t, prov[0].t) + 0.001):
            d0 = max(r.cancel_t, prov[0].t)
            lim_ = due(w, d0, d0)
            if d0 > dl - 0.2:
                continue
            if not cs and w.exit_t > lim_:
                yield ('cancel-missing', 'INVITE n%d: cancelled at %.3f, no CANCEL sent' % (r.n, r.cancel_t))
            elif cs and cs[0].t > d0 + lag(w, d0, cs[0].t):
                yield ('cancel-late', 'INVITE n%d: cancelled at %.3f (provisional at %.3f), CANCEL at %.3f' % (
                    r.n, r.cancel_t, prov[0].t, cs[0].t))


def c11_cb(w):
    end = w.exit_t
    txs = server_txs(w)
    for mm in w.stray:
        yield ('stray-request', 'request handed up that was never sent: %s %s' % mm[1:])
    for r in w.sreqs:
        if not hasattr(r, 'm'):
            continue
        key = (r.method, r.branch, r.callid, r.m.get('cseq'), r.m.from_tag)
        t = txs.get(key)
        who = '%s %s' % (r.method, r.callid)
        if len(r.cbs) > 1:
            yield ('acted-twice', '%s handed to the user %d times, at %s' % (who, len(r.cbs), [round(c[0], 3) for c in r.cbs]))
        if t is None:
            # stray CANCEL
            for (k, x) in txs.items():
                if k[0] == 'CANCEL' and k[2] == r.callid and end > x.t0 + 0.2 + lag(w, x.t0, end):
                    if not x.finals or x.finals[0].m.code != 481:
                        yield ('stray-cancel', '%s: CANCEL of an unknown request answered %s' % (who, [f.m.code for f in x.finals]))
            continue
        if not r.cbs:
            if end > t.t0 + 0.2 + lag(w, t.t0, end):
                yield ('not-acted', '%s received at %.3f, never handed to the user' % (who, t.t0))
            continue
        # what was answered is what went out
        early = any(k[0] == 'CANCEL' and k[2] == r.callid and x.copies[0].n < t.copies[0].n for k, x in txs.items())
        cancels = [c for c in t.cancels if c.n > t.copies[0].n and not early]
        want = [c for _, c in r.answered]
        firsts = []
        for o in t.out:
            if o.m.code not in firsts:
                firsts.append(o.m.code)
        exp = float(hexp(t.m)) if r.method == 'INVITE' else None
        killed = None
        if r.method == 'INVITE':
            fin_at = next((tt for tt, c in r.answered if c >= 200), None)
            cand = []
            if cancels and (fin_at is None or cancels[0].t < fin_at - 1e-9):
                cand.append(('cancel', cancels[0].t))
            if (fin_at is None or fin_at > t.t0 + exp + EPS) and end > t.t0 + exp + 0.5:
                cand.append(('expire', t.t0 + exp))
            cand.sort(key=lambda c: c[1])
            tie = (fin_at is not None and any(abs(fin_at - c) < lag(w, c, c) for c in (
                [t.t0 + exp] + [c.t for c in cancels[:1]]))) or \
                (cancels and abs(cancels[0].t - t.t0 - exp) < lag(w, cancels[0].t, t.t0 + exp))
            if cand:
                killed = cand[0]
            if not tie:
                if killed is not None:
                    lim = due(w, killed[1], killed[1])
                    if end > lim:
                        f = t.finals
                        if not f or f[0].m.code != 487 or f[0].t > lim:
                            yield ('no-487', '%s ended by %s at %.3f, answered %s' % (who, killed[0], killed[1], [(x.m.code, x.t) for x in f][:2]))
                        if len(r.cancel_cb) != 1 or r.cancel_cb[0][0] > lim:
                            yield ('cancel-cb', '%s ended by %s at %.3f, user told %s' % (who, killed[0], killed[1], r.cancel_cb))
                        elif r.cancel_cb[0][2] != (killed[0] == 'cancel'):
                            yield ('cancel-cb', '%s ended by %s, user told of %s' % (who, killed[0], r.cancel_cb))
                elif r.cancel_cb:
                    yield ('cancel-cb', '%s neither cancelled nor expired, user told %s' % (who, r.cancel_cb))
            for c in [x for k, x in txs.items() if k[0] == 'CANCEL' and k[2] == r.callid]:
                if end < c.t0 + 0.3 + lag(w, c.t0, end):
                    continue
                codes = set(f.m.code for f in c.finals)
                okc = {200}
                if c.copies[0].n < t.copies[0].n or (t.finals and t.finals[0].n < c.copies[0].n):
                    okc = {200, 481}
                if not codes or not codes <= okc:
                    yield ('cancel-answer', '%s: CANCEL received at %.3f answered %s' % (who, c.t0, sorted(codes)))
        if killed is None or r.answered and killed[1] > r.answered[-1][0]:
            codes = [o.m.code for o in t.out]
            if want and not (r.method == 'INVITE' and r.cancel_cb):
                if firsts != list(OrderedDict.fromkeys(want)):
                    yield ('answers', '%s: user answered %s, sent %s' % (who, want, firsts))
        # acknowledgement
        f = t.finals
        if r.method == 'INVITE' and f:
            dl = f[0].t + 32.0
            acks = [a for a in t.acks if a.n > f[0].n]
            if acks and acks[0].t < dl - EPS:
                if r.noack_cb:
                    yield ('noack-cb', '%s acknowledged at %.3f, user told there was no ACK' % (who, acks[0].t))
                if want_ack(r) and end > acks[0].t + 0.5:
                    if len(r.ack_cb) != 1:
                        yield ('ack-cb', '%s acknowledged at %.3f, user told %d times' % (who, acks[0].t, len(r.ack_cb)))
            elif (not acks or acks[0].t > dl + lag(w, dl, acks[0].t)) and end > dl + lag(w, dl, end) + 0.2:
                if len(r.noack_cb) != 1:
                    yield ('noack-cb', '%s answered at %.3f and never acknowledged, user told %d times' % (who, f[0].t, len(r.noack_cb)))
                elif not dl - EPS <= r.noack_cb[0][0] <= dl + lag(w, dl, r.noack_cb[0][0]):
                    yield ('noack-cb', '%s answered at %.3f, user told at %.3f' % (who, f[0].t, r.noack_cb[0][0]))
                if r.ack_cb and not acks:
                    yield ('ack-cb', '%s never acknowledged, user told it was' % who)


def want_ack(r):
    """the user asked to be told of the ACK (an answer not returned from the call-back)"""
    if not r.answered or r.cancel_cb:
        return False
    first_sync = any(d == 0.0 and c >= 200 for d, c in r.plan.get('answers', ()))
    return not first_sync or bool(r.plan.get('own_send'))
