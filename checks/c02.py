"""C02 the two legs of a call end together."""
from sim import base, oracles, gen, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1200, 'thorough': 20000}
PROF = dict(ebye=0.12, collide=0.5, ncalls=4, nroutes=2, cancel=0.4, expires_hdr=0.2, noack=0.1, nosdp=0.1, expires=0.3, np=0.2, nr=0.2,
            hs=0.2, challenge=0.1, reject_auth=0.05, auth_d=(0.01, 0.1, 1.0), credit=0.2, b_talk=0.5, reinv=1, info=1,
            silent_after=0.05, on_cancel=(('487', 5), ('200late', 3), ('ignore', 2)),
            outcomes=(('answer', 7), ('reject', 2), ('noanswer', 1), ('silent', 1), ('redirect', 1), ('slow', 1)))


def run(sim, ch, tier):
    kw = {}
    prof = gen.media_policy(ch, PROF, kw)
    prof, setup = extras.plan(sim, ch, prof, kw)
    return base.run_b2b(sim, ch, prof, [oracles.c02, oracles.served, oracles.alive], kw, setup)
