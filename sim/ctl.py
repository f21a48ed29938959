"""C24 (signals: stop, restart, hang-up)."""
import signal
from .oracles import V, delta, a_end, b_bye, stalled, abandoned, released, tx_late
from .seams import S

HUP, TERM, PROF, USR2 = signal.SIGHUP, signal.SIGTERM, signal.SIGPROF, signal.SIGUSR2


def lag(w, ts):
    """by when a signal raised at ts has surely been acted upon"""
    return ts + 0.03 + stalled(w, ts - 60, ts + 60)


def sig(w, *nums):
    return [t for t, s in w.signals_sent if s in nums]


def left(w, t):
    """calls that are still there at time t (just before the process went)"""
    v = V(w)
    out = []
    for A, Bs in v.pairs():
        if A.call is None:
            continue
        a = A.attempts[-1]
        ea, why = a_end(A)
        if a.first_final is None and a.t < t - 0.0005:
            out.append('call %s received at %.3f has got no final answer' % (A.callid, a.t))
            continue
        if A.answered is not None and ea is None and not any(b_bye(B) for B in Bs):
            out.append('call %s answered at %.3f is up' % (A.callid, A.answered.t))
            continue
        for B in Bs:
            b = B.attempts[-1]
            ff = b.first_final
            if ff is None:
                if not [x for x in b.cancels if x.d == 'o'] and (t - b.t < 31.5 or b.provs) and t - b.t < 290:
                    out.append('outbound attempt %s of call %s is neither over nor cancelled' % (b.callid, A.callid))
            elif ff.m.code < 300 and b_bye(B) is None and not tx_late(b, ff) and (ea is not None or A.answered is None):
                out.append('outbound leg %s of call %s is still up' % (b.callid, A.callid))
    return out


def c24(w):
    v = V(w)
    hups, terms, profs = sig(w, HUP), sig(w, TERM), sig(w, PROF)
    end = w.exit_t
    # teardown
    for ts in hups + terms[:1]:
        lim = min(lag(w, ts) + 0.05, end)
        if end < lim or end < ts + 0.02:
            continue
        for A, Bs in v.pairs():
            if A.call is None:
                continue
            a = A.attempts[-1]
            if a.t >= ts - 0.001:
                continue
            ea, why = a_end(A)
            byes = [x for x in [b_bye(B) for B in Bs] if x is not None]
            if byes and min(x.t for x in byes) < ts - 0.001:
                continue
            if ea is None or ea.t > lim:
                if a.first_final is not None and a.first_final.m.code >= 300:
                    continue
                yield ('call-survives', 'call %s was in progress at the signal (%.3f) and is not torn down (%s)' % (A.callid, ts, ea))
            for B in Bs:
                b = B.attempts[-1]
                ff = b.first_final
                if b.t > lim:
                    yield ('attempt-after-signal', 'outbound attempt %s made at %.3f, after the signal at %.3f' % (b.callid, b.t, ts))
                    continue
                upto = min(end, max(lim, ts + 0.3))
                if ff is not None and ff.t < ts - 0.001 and ff.m.code < 300 and not tx_late(b, ff):
                    by = b_bye(B)
                    if by is None or by.t > lim:
                        yield ('b-survives', 'outbound leg %s was up at the signal (%.3f) and got no BYE' % (b.callid, ts))
                elif ff is None or ff.t > ts:
                    pr = [p for p in b.provs if p.t < upto - 0.1 and p.t < b.t + 31.9]
                    cut = lag(w, max(ts, pr[0].t)) + 0.05 if pr else None
                    cs = [x for x in b.cancels if x.d == 'o']
                    if pr and end > cut and (ff is None or ff.t > cut) and not (cs and cs[0].t <= cut) and b.t + 290 > cut:
                        yield ('b-ringing', 'outbound attempt %s was ringing at the signal (%.3f) and got no CANCEL' % (b.callid, ts))
    # stop
    if terms:
        ts = terms[0]
        lim = lag(w, ts) + 3.2 + stalled(w, ts, ts + 60)
        if w.result == 'stop' and end > lim:
            yield ('no-exit', 'stop requested at %.3f, still running at %.3f' % (ts, end))
        elif w.result == 'return' and end > lim:
            yield ('late-exit', 'stop requested at %.3f, exited at %.3f' % (ts, end))
        elif w.result == 'exec':
            pass
    elif w.result == 'return':
        yield ('exit-unasked', 'the server exited at %.3f without a stop request' % end)
    # restart
    if w.result == 'exec':
        if not profs:
            yield ('exec-unasked', 'the server replaced itself at %.3f without a request' % end)
        else:
            for x in left(w, end):
                yield ('exec-kills', 'the server replaced itself at %.3f while %s' % (end, x))
            if len(S.execs) != 1 or S.execs[0][1][1:] != w.argv():
                yield ('exec-args', 'replaced itself with %r' % (S.execs,))
    elif profs and w.result == 'stop':
        over = all_over(w)
        if over is not None:
            t = max(over, profs[0])
            lim = t + 62.0 + stalled(w, t, end)
            if end > lim:
                yield ('no-exec', 'restart requested at %.3f, no call left since %.3f, not replaced by %.3f' % (profs[0], over, end))
    # admission
    closed = [t for t in terms + profs]
    for A in v.A():
        for a in A.attempts:
            ff = a.first_final
            t0 = min(closed) if closed else None
            if t0 is not None and a.t > lag(w, t0):
                if ff is None:
                    if end > a.t + 0.05:
                        yield ('not-refused', 'call %s came at %.3f after the request at %.3f and was not refused' % (a.callid, a.t, t0))
                elif ff.m.code != 503:
                    yield ('not-refused', 'call %s came at %.3f after the request at %.3f and got %d' % (a.callid, a.t, t0, ff.m.code))
                for B in v.B(A.call):
                    if B.attempts[0].t > a.t and len(A.attempts) == 1:
                        yield ('not-refused', 'call %s came after the request and was placed' % a.callid)
            elif ff is not None and ff.m.code == 503 and (t0 is None or a.t < t0 - 0.001) and 'restarting' in (ff.m.reason or ''):
                yield ('refused', 'call %s came at %.3f before any request and got 503' % (a.callid, a.t))


def all_over(w):
    """when the last call was certainly gone from the server's books (legs may
    linger for a while after the end), None if one may still be there"""
    v = V(w)
    last = 0.0
    for A, Bs in v.pairs():
        if A.call is None:
            continue
        ea, why = a_end(A)
        ends = [e.t for e in A.evs[-1:]]
        for B in Bs:
            ends += [e.t for e in B.evs[-1:]]
        if A.attempts[-1].first_final is None:
            return None
        if A.answered is not None and ea is None and not any(b_bye(B) for B in Bs):
            return None
        # dead legs are forgotten 32 s after their end, a cancelled attempt after 300 s
        last = max([last] + ends)
        for B in Bs:
            b = B.attempts[-1]
            last = max(last, (b.t if b.first_final is None else b.first_final.t) + (300.0 if b.first_final is None else 0.0))
    return last + 66.0
