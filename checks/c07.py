"""C07 a prepaid call is cut off when its credit runs out, not before."""
from sim import base, oracles
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
CV = (20, 5, 60, 1, 300, 3600, 3)
PROF = dict(nosdp=0.12, ncalls=3, nroutes=2, cancel=0.05, auth_d=(0.01, 0.1), credit=0.5, credit_v=CV, b_talk=0.25, a_stays=0.75, reinv=2, info=1, clock=4,
            t_talk=(1.0, 10.0, 35.0, 70.0, 400.0, 5000.0), t_ans=(0.0, 0.5, 1.4, 4.0, 8.0, 29.0), stalls=3, stall_max=4.0,
            expires=0.3, expires_v=(5, 12, 40), np=0.2, nr=0.1,
            net=dict(loss=0.08),
            outcomes=(('answer', 9), ('reject', 2)))


def run(sim, ch, tier):
    kw = dict(opts=[])
    if ch.flip('c07.max', 0.4):
        kw['opts'] += ['-m', str(ch.choice('c07.mv', (10, 40, 1000)))]
    return base.run_b2b(sim, ch, PROF, [oracles.c07, oracles.alive], kw, tail=3800.0, horizon=120.0)
