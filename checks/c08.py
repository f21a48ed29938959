"""C08 per-route time limits fire when documented, and only then."""
from sim import base, oracles
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
TR = (0.0, 0.5, 1.5, 2.5, 4.0, 7.0, 10.0, 18.0)
PROF = dict(ncalls=3, nroutes=4, cancel=0.05, auth_d=(0.01, 0.1), b_talk=0.2, t_talk=(0.05, 1.0), t_ans=TR, gt=0.35,
            expires=0.5, expires_v=(5, 12, 40, 1, 3), np=0.5, np_v=(3, 8, 20, 2), nr=0.5, nr_v=(2, 6, 15, 1), tring=TR, t100=(0.0, 0.5, 1.5, 4.0, 8.0),
            on_cancel=(('487', 5), ('200late', 1), ('ignore', 2)),
            outcomes=(('answer', 4), ('reject', 4), ('noanswer', 4), ('silent', 2), ('slow', 2)))


def run(sim, ch, tier):
    return base.run_b2b(sim, ch, PROF, [oracles.c08, oracles.alive])
