"""C03 at most one live outbound attempt per call; no ghost ringing."""
from sim import base, oracles, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1200, 'thorough': 20000}
PROF = dict(ebye=0.12, utf=0.2, ncalls=3, nroutes=3, cancel=0.5, expires_hdr=0.3, nosdp=0.1, expires=0.5, np=0.4, nr=0.4,
            hs=0.2, challenge=0.2, reject_auth=0.05, auth_d=(0.01, 0.1, 1.0), b_talk=0.3,
            on_cancel=(('487', 5), ('200late', 3), ('ignore', 2)),
            outcomes=(('answer', 3), ('reject', 3), ('noanswer', 3), ('silent', 1), ('redirect', 1), ('slow', 2)))


def run(sim, ch, tier):
    kw = {}
    prof, setup = extras.plan(sim, ch, PROF, kw, ('hup', 'console', 'relay', 'nat'))
    return base.run_b2b(sim, ch, prof, [oracles.c03, oracles.alive], kw, setup)
