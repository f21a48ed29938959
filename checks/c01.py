"""C01 every call attempt is answered exactly once, in bounded time."""
from sim import base, oracles, extras

RUNS = {'quick': 1200, 'thorough': 20000}
PROF = dict(ebye=0.12, utf=0.2, ncalls=4, nroutes=3, cancel=0.45, expires_hdr=0.25, noack=0.08, nosdp=0.05, expires=0.4, np=0.25, nr=0.25,
            hs=0.2, challenge=0.12, reject_auth=0.1, auth_d=(0.01, 0.1, 1.0, 5.0),
            outcomes=(('answer', 4), ('reject', 3), ('noanswer', 2), ('silent', 1), ('redirect', 1), ('slow', 1)))


def preload():
    import sippy.b2bua  # noqa


def run(sim, ch, tier):
    kw = {}
    prof, setup = extras.plan(sim, ch, PROF, kw, ('hup', 'console', 'relay', 'nat'))
    return base.run_b2b(sim, ch, prof, [oracles.c01, oracles.alive], kw, setup)
