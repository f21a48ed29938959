"""C23 dead peers are detected, live ones are never hung up on (keep-alives, -k)."""
from sim import base, oracles, ka
from checks.c01 import preload  # noqa

RUNS = {'quick': 2000, 'thorough': 20000}
ACTS = ((('ok', 0.05), 10), (('ok', 1.0), 2), (('rej', 0.05, 488), 1), (('rej', 0.5, 500), 1), (('prov', 0.5), 1), (('rej', 0.1, 491), 1),
        (('ok', 20.0), 1), (('rej', 0.05, 403), 1), (('rej', 0.05, 481), 1), (('rej', 0.05, 486), 1), (('chal', 0.05, 401, 'gwuser', 'gwpass'), 1),
        (('chal', 0.3, 407, 'gwuser', 'gwpass'), 1), (('rej', 0.1, 405), 1), (('rej', 0.1, 302), 1))
PROF = dict(ncalls=3, nroutes=2, cancel=0.02, auth_d=(0.01,), b_talk=0.3, a_stays=0.6, noack=0.03, reinv=2, reinv_kinds=('new', 'new', 'same'),
            rit=(1.0, 31.9, 32.0, 32.05, 33.0, 64.0, 64.1, 100.0), t_talk=(3.0, 31.9, 32.0, 33.0, 63.0, 64.5, 150.0, 400.0, 1500.0), t_ans=(0.0, 0.5, 1.4),
            challenge=0.1, on_reinvite=ACTS, info=1, net=dict(loss=0.2),
            outcomes=(('answer', 12), ('reject', 1)))


def tweak(ch, c):
    for plan in [c.caller] + [r[2] for r in c.routes]:
        if ch.flip('ka.sil', 0.3):
            plan['silent_after'] = ch.choice('ka.silt', (0.5, 20.0, 31.9, 32.0, 33.0, 63.9, 64.0, 64.2, 100.0, 200.0, 700.0)) + ch.real('ka.silj', 0.0, 0.1)
        # mostly well-behaved: the odd answers come anywhere in the sequence
        n = ch.pick('ka.lead', 6)
        acts = plan.get('on_reinvite') or []
        if ch.flip('ka.good', 0.4):
            acts = []
        plan['on_reinvite'] = [('ok', 0.05)] * n + acts


PROF['tweak'] = tweak


def run(sim, ch, tier):
    kw = dict(opts=['-k', str(1 + ch.pick('c23.k', 3))])
    return base.run_b2b(sim, ch, PROF, [ka.c23, oracles.c01, oracles.c02, oracles.alive], kw, tail=1700.0, horizon=200.0)
