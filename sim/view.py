"""Per-call views of the recorded wire history."""
import re
from .sipmsg import user_of, hostport_of, uri_of

INF = float('inf')


class Attempt(object):
    """One INVITE transaction creating a dialog: a caller's attempt (side 'A')
    or an outbound attempt (side 'B')."""

    def __init__(self, side, ev):
        self.side = side
        self.inv = ev
        self.m = ev.m
        self.callid = ev.m.callid
        self.cseq = ev.m.cseq
        self.t = ev.t
        self.finals = []          # responses >=200 (Ev) to this INVITE, all copies
        self.provs = []
        self.cancels = []         # CANCEL requests of this INVITE (Ev)
        self.copies = [ev]        # every datagram of the INVITE itself
        self.acks = []
        self.call = None
        self.route = None

    def key(self):
        return (self.callid, self.cseq)

    @property
    def first_final(self):
        return self.finals[0] if self.finals else None


class Dialog(object):
    """Everything seen with one Call-ID on the B2BUA's wire."""

    def __init__(self, side, callid):
        self.side, self.callid = side, callid
        self.attempts = []
        self.evs = []
        self.call = None
        self.route = None
        self.peer = None

    @property
    def answered(self):
        """first 2xx of any attempt"""
        for a in self.attempts:
            for f in a.finals:
                if f.m.code < 300:
                    return f
        return None

    def find(self, d, method, first=True):
        r = [e for e in self.evs if e.d == d and e.m.method == method]
        if first:
            return r[0] if r else None
        return r


class View(object):
    def __init__(self, w):
        self.w = w
        self.dlg = {}
        self.order = []
        early = set()             # CANCELs that came before their INVITE (answered 481)
        for e in w.ev:
            m = e.m
            if m.method == '?' or m.callid is None:
                continue
            if m.is_req and m.method == 'CANCEL' and e.d == 'i':
                d = self.dlg.get(m.callid)
                if d is None or all(a.cseq != m.cseq for a in d.attempts):
                    early.add((m.callid, m.cseq))
            d = self.dlg.get(m.callid)
            if d is None:
                if m.is_req and m.method == 'INVITE' and m.to_tag is None:
                    d = Dialog('A' if e.d == 'i' else 'B', m.callid)
                    d.peer = e.peer
                    self.dlg[m.callid] = d
                    self.order.append(d)
                    if d.side == 'A':
                        d.call = w.bycid.get(m.callid)
                    else:
                        self._assoc(d, m)
                else:
                    continue
            d.evs.append(e)
            if m.is_req:
                if m.method == 'INVITE' and m.to_tag is None and e.d == ('i' if d.side == 'A' else 'o'):
                    for a in d.attempts:
                        if a.cseq == m.cseq:
                            a.copies.append(e)
                            break
                    else:
                        a = Attempt(d.side, e)
                        a.call, a.route, a.dlg = d.call, d.route, d
                        d.attempts.append(a)
                elif m.method in ('CANCEL', 'ACK'):
                    for a in d.attempts:
                        if m.method == 'CANCEL' and (m.callid, m.cseq) in early:
                            continue
                        if a.cseq == m.cseq:
                            (a.cancels if m.method == 'CANCEL' else a.acks).append(e)
            elif m.cmethod == 'INVITE':
                for a in d.attempts:
                    if a.cseq == m.cseq and e.d == ('o' if d.side == 'A' else 'i'):
                        (a.finals if m.code >= 200 else a.provs).append(e)

    def _assoc(self, d, m):
        mm = re.match(r'd(\d+)(?:r(\d+))?$', user_of(m.uri) or '')
        if mm is None:
            return
        n = int(mm.group(1))
        if n < len(self.w.calls):
            d.call = self.w.calls[n]
            d.route = int(mm.group(2)) if mm.group(2) else 0

    def A(self):
        return [d for d in self.order if d.side == 'A']

    def B(self, call=None):
        return [d for d in self.order if d.side == 'B' and (call is None or d.call is call)]

    def pairs(self):
        """(A dialog, [B dialogs in order])"""
        return [(a, self.B(a.call) if a.call is not None else []) for a in self.A()]
