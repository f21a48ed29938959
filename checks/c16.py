"""C16 no outbound call is placed without authorisation."""
from sim import base, oracles, aaa
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(ncalls=6, nroutes=2, gaps=(0.0, 0.01, 0.1, 0.5, 3.0), cancel=0.15, expires_hdr=0.1, b_talk=0.5, t_talk=(0.05, 1.0),
            outcomes=(('answer', 6), ('reject', 3), ('noanswer', 1)), t_ans=(0.05, 0.5, 2.0), tweak=None)


def run(sim, ch, tier):
    kw = dict(radius_workers=1 + ch.pick('kn.rw', 4), digest=not ch.flip('c16.nodig', 0.2))
    only = kw['digest'] and ch.flip('c16.only', 0.2)
    if only:
        kw['opts'] = ['--digest_auth_only=on']
    p = dict(PROF)
    p['tweak'] = lambda ch, c: aaa.plan(ch, p, c)

    def setup(w, ch):
        w.digest_only = only
        aaa.Backend(w, ch)
    return base.run_b2b(sim, ch, p, [aaa.c16, oracles.alive], kw, setup, tail=340.0)
