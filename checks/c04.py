"""C04 failover follows the route order, stops where told, relays the last failure."""
from sim import base, oracles
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(ncalls=3, nroutes=4, cancel=0.12, expires_hdr=0.1, expires=0.3, expires_v=(5, 12, 40, 1, 0, 0), np=0.15, nr=0.15,
            hs=0.5, credit=0.25, credit_v=(20, 5, 60, 0, 0), challenge=0.15, reject_auth=0.05, auth_d=(0.01, 0.1, 1.0), b_talk=0.3,
            t_talk=(0.05, 1.0, 3.0), codes=(486, 404, 403, 480, 500, 503, 603, 488, 408, 481, 487, 401, 407, 491),
            outcomes=(('answer', 2), ('reject', 8), ('noanswer', 1), ('silent', 1), ('redirect', 1), ('slow', 1)))


def run(sim, ch, tier):
    kw = {}
    if ch.flip('c04.static', 0.15):
        kw['static'] = '10.2.0.1' + ch.choice('c04.sp', ('', ';expires=12', ';hs_scodes=486', ';auth=gwuser:gwpass', ';expires=0', ';credit-time=0'))
        if ch.flip('c04.noauth', 0.5):
            kw['auth'] = False
    return base.run_b2b(sim, ch, PROF, [oracles.c04, oracles.alive], kw)
