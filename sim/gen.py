"""Workload generation: seeded mixes of calls, callee behaviours, routes and
faults. Every check draws from these with its own profile."""
from .net import NetCfg

T_SHORT = (0.0, 0.01, 0.05, 0.2, 0.5, 1.0, 2.0, 4.0, 8.0)
T_TALK = (0.05, 1.0, 3.0, 10.0, 35.0, 70.0)
FAILCODES = (486, 404, 403, 480, 500, 503, 603, 488, 408, 481)


def tm(ch, kind, base=T_SHORT, jit=0.03):
    b = ch.choice(kind, base)
    j = ch.real(kind + '.j', 0.0, jit)
    return round(b + j, 4)


def netcfg(sim, ch, loss=0.12, dup=0.1, slow=0.08, slow_max=3.0, until=None, lat=(0.001, 0.02)):
    """Fault rates of this run (swarm: each kind is on in some of the runs)."""
    c = NetCfg()
    c.lat_min, c.lat_max = lat
    if sim.calm:
        return c
    if loss and ch.pick('sw.loss', 3):
        c.loss = ch.real('sw.lossr', 0.01, loss)
    if dup and ch.pick('sw.dup', 3):
        c.dup = ch.real('sw.dupr', 0.01, dup)
    if slow and ch.pick('sw.slow', 3):
        c.slow = ch.real('sw.slowr', 0.01, slow)
        c.slow_max = slow_max
    c.fault_until = until
    return c


def loop_knobs(sim, ch):
    """How the event loop and the threads are scheduled in this run."""
    sim.tick = (0, 10000000)[ch.pick('kn.tick', 2)]
    if not sim.calm:
        sim.preempt_p = (0.0, 0.02, 0.1, 0.3)[ch.pick('kn.pre', 4)]
        sim.sched_p = (0.0, 0.1, 0.5)[ch.pick('kn.sched', 3)]
        sim.herd = ch.pick('kn.herd', 2) == 1


def stalls(sim, ch, horizon, n=3, maxd=3.0):
    if sim.calm:
        return
    for i in range(ch.pick('stall.n', n + 1)):
        sim.at(ch.real('stall.at', 0.0, horizon), sim.stall, ch.logreal('stall.d', 0.05, maxd))


def clock_steps(sim, ch, horizon, n=3):
    """Steps of the wall clock (NTP, operator); the monotonic clock is unaffected."""
    if sim.calm:
        return
    def step(d):
        sim.fault('clock_step')
        sim.wall_off += int(d * 1e9)
    for i in range(ch.pick('clk.n', n + 1)):
        d = ch.choice('clk.d', (-5.0, 5.0, -3600.0, 3600.0, 0.7, -0.7, 86400.0, -86400.0))
        sim.at(ch.real('clk.at', 0.0, horizon), step, d)


# -- callees ---------------------------------------------------------------
def callee(ch, p, k='b'):
    """p: profile dict. Returns a callee plan."""
    w = p.get('outcomes', (('answer', 5), ('reject', 3), ('noanswer', 1), ('silent', 1), ('redirect', 0), ('slow', 1)))
    kind = w[ch.weighted(k + '.kind', [x[1] for x in w])][0]
    plan = {'kind': kind}
    steps = []
    if kind == 'silent':
        plan['silent'] = True
        return plan
    if ch.flip(k + '.100', 0.3):
        steps.append((tm(ch, k + '.t100', p.get('t100', (0.0, 0.05, 0.4))), 100, False))
    if ch.flip(k + '.ring', 0.7) or kind == 'noanswer':
        steps.append((tm(ch, k + '.tring', p.get('tring', T_SHORT)), (180, 183)[ch.pick(k + '.rc', 2)], ch.flip(k + '.early', 0.3)))
        if ch.flip(k + '.ring2', 0.2):
            steps.append((tm(ch, k + '.tring2'), (180, 183)[ch.pick(k + '.rc2', 2)], ch.flip(k + '.early2', 0.3)))
    if kind == 'answer':
        steps.append((tm(ch, k + '.tans', p.get('t_ans', T_SHORT)), 200, True))
    elif kind == 'slow':
        steps.append((tm(ch, k + '.tslow', (15.0, 31.5, 33.0, 70.0, 130.0)), (200, 486)[ch.pick(k + '.slc', 2)], True))
    elif kind == 'reject':
        steps.append((tm(ch, k + '.trej'), ch.choice(k + '.code', p.get('codes', FAILCODES)), False))
    elif kind == 'redirect':
        steps.append((tm(ch, k + '.tred'), ch.choice(k + '.rcode', (302, 301)), False))
    plan['steps'] = steps
    if p.get('b_talk', 0.4) and kind in ('answer', 'slow') and ch.flip(k + '.hang', p.get('b_talk', 0.4)):
        plan['talk'] = tm(ch, k + '.talk', p.get('t_talk', T_TALK))
    oc = p.get('on_cancel', (('487', 8), ('200late', 1), ('ignore', 1)))
    plan['on_cancel'] = oc[ch.weighted(k + '.oc', [x[1] for x in oc])][0]
    plan['cancel_lag'] = ch.choice(k + '.clag', (0.0, 0.1, 2.0))
    if p.get('challenge') and ch.flip(k + '.chal', p['challenge']):
        plan['challenge'] = (ch.choice(k + '.chc', (401, 407)), 'gwuser', 'gwpass', ch.choice(k + '.chd', (0.02, 0.5)))
    if p.get('silent_after') and ch.flip(k + '.sil', p['silent_after']):
        plan['silent_after'] = tm(ch, k + '.silt', (0.2, 5.0, 20.0))
    return plan


def route_params(ch, p, k='r'):
    out = []
    if p.get('expires') and ch.flip(k + '.exp', p['expires']):
        out.append('expires=%d' % ch.choice(k + '.expv', p.get('expires_v', (5, 12, 40, 1, 0))))
    if p.get('np') and ch.flip(k + '.np', p['np']):
        out.append('np_expires=%d' % ch.choice(k + '.npv', p.get('np_v', (3, 8, 20))))
    if p.get('nr') and ch.flip(k + '.nr', p['nr']):
        out.append('nr_expires=%d' % ch.choice(k + '.nrv', p.get('nr_v', (2, 6, 15))))
    if p.get('hs') and ch.flip(k + '.hs', p['hs']):
        out.append('hs_scodes=%s' % ch.choice(k + '.hsv', ('486', '486,404', '503,480,603', '408')))
    if p.get('credit') and ch.flip(k + '.cr', p['credit']):
        out.append('credit-time=%d' % ch.choice(k + '.crv', p.get('credit_v', (20, 5, 60, 0, 1))))
    if p.get('fof') and ch.flip(k + '.fof', p['fof']):
        out.append('forward_on_fail=1')
    if p.get('gt') and ch.flip(k + '.gt', p['gt']):
        out.append('gt=%d,%d' % (ch.choice(k + '.gtv', (3, 7, 15, 1)), 1 + ch.pick(k + '.gts', 4)))
    return out


def caller(ch, p, k='a'):
    plan = {}
    if p.get('cancel') and ch.flip(k + '.canc', p['cancel']):
        if ch.flip(k + '.cprov', 0.3):
            plan['cancel'] = ('prov', tm(ch, k + '.ct', (0.0, 0.05, 0.5, 2.0)))
        else:
            plan['cancel'] = ('t', tm(ch, k + '.ct', T_SHORT + (20.0, 31.9, 40.0)))
        plan['eager_cancel'] = ch.flip(k + '.eager', 0.2)
    if p.get('ebye') and 'cancel' not in plan and ch.flip(k + '.ebye', p['ebye']):
        plan['ebye'] = (tm(ch, k + '.ebyet', (0.0, 0.05, 0.5, 2.0)),)
    plan['talk'] = tm(ch, k + '.talk', p.get('t_talk', T_TALK))
    if p.get('a_stays') and ch.flip(k + '.stay', p['a_stays']):
        plan['talk'] = None
    if p.get('expires_hdr') and ch.flip(k + '.exp', p['expires_hdr']):
        plan['expires'] = ch.choice(k + '.expv', (10, 30, 3, 60))
    if p.get('noack') and ch.flip(k + '.noack', p['noack']):
        plan['noack'] = True
    if p.get('nosdp') and ch.flip(k + '.nosdp', p['nosdp']):
        plan['sdp'] = False
    if p.get('silent_after') and ch.flip(k + '.sil', p['silent_after']):
        plan['silent_after'] = tm(ch, k + '.silt', (0.2, 5.0, 20.0))
    return plan


def auth(ch, p, k='u'):
    a = {'delay': tm(ch, k + '.d', p.get('auth_d', (0.0, 0.01, 0.1, 1.0)), 0.01)}
    if p.get('reject_auth') and ch.flip(k + '.rej', p['reject_auth']):
        a['mode'] = 'reject'
    return a


UTF = 'h\u00e9\u20ac\U0001f4de\u0416\u5b57'


def mid_call(ch, p, plan, k):
    """re-INVITEs and INFOs an endpoint issues once established."""
    if p.get('reinv'):
        n = ch.pick(k + '.rin', p['reinv'] + 1)
        kinds = p.get('reinv_kinds', ('new',))
        plan['reinv'] = [(tm(ch, k + '.rit', p.get('rit', (0.05, 0.5, 1.0, 2.0, 4.0))), ch.choice(k + '.rik', kinds)) for _ in range(n)]
    if p.get('info'):
        n = ch.pick(k + '.inn', p['info'] + 1)
        plan['info'] = [(tm(ch, k + '.int', (0.05, 0.1, 0.5, 1.0, 2.0)), 'Signal=%d\r\nX=%s%d%s\r\n' % (i, k, i, ch.choice(k + '.inx', ('', '', UTF)))) for i in range(n)]
        if n > 1 and ch.flip(k + '.inr', 0.3):
            # the same key again and again
            plan['info'] = [(t, 'Signal=5\r\n') for t, b in plan['info']]
    if p.get('utf') and ch.flip(k + '.utf', p['utf']):
        plan['sdpx'] = '-' + UTF
    if p.get('on_reinvite'):
        acts = p['on_reinvite']
        plan['on_reinvite'] = [acts[ch.weighted(k + '.ora', [x[1] for x in acts])][0] for _ in range(6)]


COLL = (('peer-bye', 3), ('own-bye', 3), ('peer-reinv', 3), ('again', 1), ('own-info', 2), ('peer-info', 2), ('cancel', 1),
        ('own-refer', 1), ('peer-refer', 1), ('credit', 1), ('own-silent', 1), ('own-options', 1), ('peer-options', 1), ('none', 1))


def collide(ch, c, p):
    """a re-negotiation and something else that happens in the middle of it"""
    own = ch.pick('co.own', 2)             # 0 the caller starts it, 1 the callee
    t = tm(ch, 'co.t', (0.05, 0.3, 1.0, 2.5))
    d = ch.choice('co.d', (0.0, 0.003, 0.3, 1.0, 4.0)) + ch.real('co.j', -0.004, 0.02)
    kinds = p.get('coll', COLL)
    kind = kinds[ch.weighted('co.k', [x[1] for x in kinds])][0]
    react = ch.choice('co.r', (('ok', 0.01), ('ok', 0.5), ('ok', 3.0), ('prov', 0.5), ('prov', 6.0), ('none',), ('rej', 0.3, 488), ('rej', 0.02, 481),
                               ('rej', 0.2, 408), ('rej', 0.1, 302, 'sip:other@10.2.9.9'), ('rej', 0.1, 300, 'sip:other@10.2.9.9'), ('rej', 0.1, 302)))
    body = ch.choice('co.b', ('new', 'new', 'new', None, 'same'))
    for r, (ip, params, b) in enumerate(c.routes):
        pair = (c.caller, b)
        me, peer = pair[own], pair[1 - own]
        peer['on_reinvite'] = [react] + list(peer.get('on_reinvite', ()))
        if own == 0 and r > 0:
            me = {}
        t2 = max(0.0, t + d)
        if kind == 'credit':
            n = int(t + d) + 1
            t1 = n - max(d, 0.0)
            params = ';'.join([x for x in params.split(';') if x and not x.startswith('credit-time')] + ['credit-time=%d' % n])
            c.routes[r] = (ip, params, b)
        else:
            t1 = t
        refer = ('simple', 'REFER') + ((('refer-to', '<sip:x@10.2.9.9>'),) if ch.pick('co.rt', 6) else ())
        me.setdefault('acts', []).append((t1, 'reinvite', body))
        # (callers share their plan between the routes)
        who = me if kind.startswith('own') or kind in ('again', 'cancel') else peer
        if who is c.caller and r > 0:
            continue
        act = {'bye': ('bye',), 'reinv': ('reinvite', 'new'), 'again': ('reinvite_again',), 'cancel': ('cancel_reinv',),
               'info': ('info', 'Signal=*\r\nX=%s%s\r\n' % (kind[:3], 'ab'[who is b])), 'refer': refer, 'silent': ('go_silent',),
               'options': ('simple', 'OPTIONS')}.get(kind.split('-')[-1])
        if act:
            who.setdefault('acts', []).append((t2,) + act)


def calls(w, ch, p):
    n = 1 + ch.pick('g.n', p.get('ncalls', 3))
    start = p.get('t0', 1.0)
    w.nat = p.get('nat')
    for i in range(n):
        start += tm(ch, 'g.t', p.get('gaps', (0.0, 0.02, 0.5, 3.0, 10.0)))
        a = caller(ch, p)
        if w.nat and ch.flip('g.nata', 0.7):
            a['ip'] = '203.0.113.%d' % (1 + i % 3)
        nr = 1 + ch.pick('g.nr', p.get('nroutes', 3)) if w.static is None else 1
        routes = []
        for k in range(nr):
            b = callee(ch, p)
            mid_call(ch, p, b, 'b')
            rp = route_params(ch, p)
            if b.get('challenge') and ch.flip('r.auth', 0.75):
                rp.append('auth=gwuser:gwpass')
            ip = '10.2.0.%d' % (1 + (i * 4 + k) % 6) if w.static is None else w.static.split(';')[0].split('@')[-1]
            if w.nat and w.static is None and ch.flip('g.natb', 0.6):
                ip = ip.replace('10.2.0.', '198.51.100.')
            if w.static is not None:
                rp = w.static.split(';')[1:]
            elif ch.flip('r.sipua', p.get('sipua', 0.06)):
                ip = 'sip-ua'         # back to where the call came from
            routes.append((ip, ';'.join(rp), b))
        mid_call(ch, p, a, 'a')
        au = auth(ch, p)
        if p.get('credit') and ch.flip('g.crad', p['credit']):
            au.setdefault('attrs', []).append(('h323-credit-time', str(ch.choice('g.cradv', p.get('credit_v', (20, 5, 60, 1))))))
        c = w.add_call(start, a, routes, au)
        if p.get('collide') and ch.flip('g.co', p['collide']):
            collide(ch, c, p)
        if p.get('tweak'):
            p['tweak'](ch, c)
    return start


def media_policy(ch, prof, kw, p=0.12):
    """-F: offers and answers without an allowed payload type get refused"""
    if not ch.flip('mp', p):
        return prof
    kw['opts'] = kw.get('opts', []) + ['-F', ch.choice('mp.l', ('0,8', '0', '8,101', '18'))]
    prof = dict(prof)
    t0 = prof.get('tweak')

    def tweak(ch, c):
        if t0:
            t0(ch, c)
        pts = ('0 8', '18', '0 18', '8')
        c.caller['pts'] = ch.choice('mp.a', pts)
        for ip, params, plan in c.routes:
            plan['pts'] = ch.choice('mp.b', pts)
    prof['tweak'] = tweak
    return prof
