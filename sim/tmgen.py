"""Workloads for TMWorld."""
from . import gen
from .tmworld import TMWorld

DEL = (0.0, 0.02, 0.1, 0.49, 0.5, 0.51, 1.0, 1.5, 3.0, 7.4, 12.0, 20.0, 31.0, 31.9, 32.0, 33.0, 45.0)
FIN = (200, 200, 200, 486, 404, 302, 500, 603, 401, 408, 202)


def client_plan(ch, method):
    p = {}
    t = 0.0
    ans = []
    if ch.flip('c.silent', 0.12):
        p['answers'] = []
    else:
        for i in range(ch.pick('c.nprov', 4) if method == 'INVITE' or ch.flip('c.nip', 0.3) else 0):
            t += ch.choice('c.pd', DEL[:12])
            ans.append((t + ch.real('c.pj', 0.0, 0.02), ch.choice('c.pc', (100, 180, 183, 180, 181))))
        if not ch.flip('c.nofin', 0.12):
            t += ch.choice('c.fd', DEL)
            ans.append((t + ch.real('c.fj', 0.0, 0.02), ch.choice('c.fc', FIN)))
            if ch.flip('c.early', 0.1):
                # a final that overtakes the provisional answers
                ans[-1] = (ch.choice('c.fe', (0.02, 0.3)), ans[-1][1])
        p['answers'] = ans
    if method == 'INVITE':
        if ch.flip('c.exp', 0.4):
            p['expires'] = ch.choice('c.expv', (5, 20, 40, 120, 1, 0))
        if ch.flip('c.canc', 0.3):
            p['cancel'] = ch.choice('c.cd', (0.0, 0.02, 0.3, 0.6, 2.0, 8.0, 31.0, 40.0)) + ch.real('c.cj', 0.0, 0.02)
            p['on_cancel'] = ch.choice('c.oc', ('487', '487', 'ignore'))
            p['cancel_lag'] = ch.choice('c.cl', (0.0, 0.02, 1.0))
        if ch.flip('c.nobody', 0.3):
            p['body'] = False
            if ch.flip('c.uack', 0.7):
                p['uack'] = ch.choice('c.ud', (0.0, 0.05, 0.6, 3.0, 20.0, 31.0))
        if ch.flip('c.rr', 0.2):
            p['rr'] = ['sip:10.4.200.%d:5060;lr' % (1 + i) for i in range(1 + ch.pick('c.nrr', 2))]
        if ch.flip('c.rep', 0.2):
            p['repeat_anyway'] = True
    if ch.flip('c.ifv', 0.5):
        p['ifver'] = 2
    if ch.flip('c.nocb', 0.05):
        p['nocb'] = True
    return p


def server_plan(ch, method):
    p = {}
    t = 0.0
    ans = []
    if ch.flip('s.sync', 0.35):
        if ch.flip('s.sync1', 0.5) and method == 'INVITE':
            ans.append((0.0, ch.choice('s.pc', (100, 180, 183))))
        else:
            ans.append((0.0, ch.choice('s.fc', FIN)))
        if ch.flip('s.own', 0.3):
            p['own_send'] = True
    if not ans or ans[0][1] < 200:
        for i in range(ch.pick('s.np', 3) if method == 'INVITE' else 0):
            t += ch.choice('s.pd', DEL[1:12])
            ans.append((t, ch.choice('s.pc', (100, 180, 183))))
        if not ch.flip('s.nofin', 0.1):
            t += ch.choice('s.fd', DEL[1:]) + ch.real('s.fj', 0.0, 0.02)
            ans.append((t, ch.choice('s.fc', FIN)))
    p['answers'] = ans
    if method == 'INVITE':
        p['ack'] = None if ch.flip('s.noack', 0.2) else ch.choice('s.ack', (0.0, 0.02, 0.4, 0.5, 2.0, 15.0))
        p['acklose'] = ch.choice('s.al', (0, 0, 0, 1, 2, 4))
        if ch.flip('s.exp', 0.4):
            p['expires'] = ch.choice('s.expv', (5, 20, 40, 120, 1, 0))
        if ch.flip('s.canc', 0.3):
            p['cancel'] = ch.choice('s.cd', (0.0, 0.02, 0.3, 0.6, 2.0, 8.0, 31.0)) + ch.real('s.cj', 0.0, 0.02)
            p['canceldups'] = [ch.choice('s.cdd', (0.0, 0.5, 1.5)) for _ in range(ch.pick('s.ncd', 3))]
    lim = (ans[-1][0] if ans else 0.0) + 20.0
    if method != 'INVITE' and not ans:
        lim = 100.0
    if method == 'INVITE':
        # repeats stop well before the answer is forgotten
        lim = min([x + 20.0 for x in [p.get('expires') or 300.0, p.get('cancel', 300.0)] + ([ans[-1][0]] if ans else [])])
    d = []
    for i in range(ch.pick('s.nd', 7)):
        x = ch.choice('s.dd', (0.0, 0.001, 0.05, 0.5, 1.5, 3.5, 7.5, 15.5, 31.5, 33.0, 63.0)) + ch.real('s.dj', 0.0, 0.05)
        if x <= lim:
            d.append(x)
    if ans and ch.flip('s.dat', 0.4):
        d.append(min(lim, max(0.0, ans[ch.pick('s.dati', len(ans))][0] + ch.real('s.datj', -0.05, 0.05))))
    p['dups'] = d
    if ch.flip('s.indlg', 0.3):
        p['indlg'] = True
    if ch.flip('s.via2', 0.2):
        p['via2'] = True
    return p


def run(sim, ch, side, oracle_list):
    gen.loop_knobs(sim, ch)
    w = TMWorld(sim, ch, gen.netcfg(sim, ch))
    w.stall_log = []
    orig = sim.stall

    def stall(d):
        w.stall_log.append((sim.t(), sim.t() + d))
        orig(d)
    sim.stall = stall
    n = 1 + ch.pick('n', 6)
    last = 0.0
    end = 0.0
    for i in range(n):
        last += ch.choice('gap', (0.0, 0.01, 0.3, 2.0, 10.0, 32.0))
        cl = ch.flip('mix', 0.85 if side == 'client' else 0.15)
        method = ch.choice('meth', ('INVITE', 'INVITE', 'BYE', 'INFO', 'OPTIONS', 'REGISTER'))
        if cl:
            p = client_plan(ch, method)
            w.add_client(1.0 + last, method, p)
            for k, u in enumerate(p.get('rr', ())):
                w.net.ends[('10.4.200.%d' % (1 + k), 5060)] = lambda data, src, dst: any(
                    w.peer_in(r, data, src, dst) for r in w.creqs if ('out%d\r' % r.n).encode() in data)
        else:
            p = server_plan(ch, method)
            r = w.add_server(1.0 + last, method, p)
            if ch.flip('stray', 0.05) and method == 'INVITE':
                p['stray'] = True
        life = max([a[0] for a in p.get('answers', ())] or [0.0]) + 70.0
        if method == 'INVITE':
            e = p.get('expires')
            if not any(a[1] >= 200 for a in p.get('answers', ())) and p.get('answers'):
                life += e or 300
            elif not cl and not p.get('answers'):
                life += e or 300
        end = max(end, last + life)
    gen.stalls(sim, ch, last + 30.0, 2, 2.0)
    if ch.flip('regc', 0.3):
        def reg(gc):
            for r in w.sreqs:
                if r.plan.get('indlg'):
                    w.tm.regConsumer(w, r.callid)
        w.on_start = reg
    w.start(end + 5.0)
    for o in oracle_list:
        for k, det in o(w):
            sim.violate(k, det)
    return {'nontrivial': bool(w.ev), 'client': len(w.creqs), 'server': len(w.sreqs), 'wire_events': len(w.ev),
            'outcomes': sum(len(r.cbs) for r in w.creqs), 'answered': sum(1 for r in w.sreqs if r.answered),
            'sample': {'client': [(r.t, r.method, r.plan) for r in w.creqs][:3],
                       'server': [(r.t, r.method, r.plan) for r in w.sreqs][:3],
                       'history': [repr(e) for e in w.ev[:25]]}}
