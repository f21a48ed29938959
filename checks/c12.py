"""C12 mid-call re-negotiation is relayed faithfully and never wedges the call."""
from sim import base, oracles
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(collide=0.5, utf=0.2, ncalls=2, nroutes=2, cancel=0.02, auth_d=(0.01,), b_talk=0.3, reinv=4, nosdp=0.12, reinv_kinds=('new', 'new', 'new', 'same', None),
            rit=(0.05, 0.5, 0.52, 1.0, 2.0, 4.0, 8.0, 33.0), info=1, t_talk=(3.0, 10.0, 35.0, 70.0, 400.0), t_ans=(0.0, 0.5, 1.4),
            on_reinvite=((('ok', 0.05), 6), (('ok', 1.0), 2), (('rej', 0.05, 488), 2), (('rej', 0.5, 500), 1), (('prov', 0.5), 1), (('rej', 0.1, 491), 1),
                         (('ok', 20.0), 1), (('rej', 0.05, 403), 1), (('rej', 0.3, 302), 1)),
            outcomes=(('answer', 12), ('reject', 1)))


def run(sim, ch, tier):
    return base.run_b2b(sim, ch, PROF, [oracles.c12, oracles.served, oracles.alive], tail=800.0)
