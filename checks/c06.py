"""C06 billed duration equals real connected time, whatever the clock does."""
from sim import base, oracles, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(nosdp=0.12, ncalls=3, nroutes=2, cancel=0.15, noack=0.05, expires=0.2, np=0.1, nr=0.1,
            hs=0.1, auth_d=(0.01, 0.1, 1.0), credit=0.2, b_talk=0.5, reinv=1, clock=4,
            t_talk=(0.05, 1.0, 3.4, 10.0, 35.6, 70.0, 400.0), t_ans=(0.0, 0.5, 1.4, 4.0, 8.0, 29.0),
            on_cancel=(('487', 5), ('200late', 3), ('ignore', 2)),
            outcomes=(('answer', 9), ('reject', 2), ('noanswer', 1), ('slow', 1)))


def run(sim, ch, tier):
    kw = dict(start_acct=ch.flip('c06.start', 0.3), radius_workers=5, opts=[])
    al = ch.choice('c06.alive', (None, 3, 7, 30))
    if al:
        kw['opts'].append('--alive_acct_int=%d' % al)
    if ch.flip('c06.prec', 0.3):
        kw['opts'].append('--precise_acct=on')
    prof, setup = extras.plan(sim, ch, PROF, kw)
    return base.run_b2b(sim, ch, prof, [oracles.c06, oracles.alive], kw, setup)
