"""C13 INFO (key presses and the like) crosses the call once, in order."""
from sim import base, oracles, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(collide=0.4, utf=0.2, ncalls=3, nroutes=2, cancel=0.02, auth_d=(0.01,), b_talk=0.3, reinv=1, info=6, t_talk=(3.0, 10.0, 35.0, 70.0), t_ans=(0.0, 0.5, 1.4),
            on_reinvite=((('ok', 0.05), 6), (('ok', 1.0), 2), (('rej', 0.05, 488), 2)),
            outcomes=(('answer', 12), ('reject', 1)))


def run(sim, ch, tier):
    kw = {}
    prof, setup = extras.plan(sim, ch, PROF, kw, ('keepalive', 'relay', 'nat'))
    return base.run_b2b(sim, ch, prof, [oracles.c13, oracles.served, oracles.alive], kw, setup, tail=400.0)
