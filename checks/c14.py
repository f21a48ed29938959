"""C14 each dialog speaks consistent SIP for its whole life."""
from sim import base, oracles, dlgoracle, extras
from checks import c02
from checks.c01 import preload  # noqa

RUNS = {'quick': 1200, 'thorough': 20000}


def tweak(ch, c):
    for leg in [c.caller] + [r[2] for r in c.routes]:
        if ch.flip('d.move', 0.4):
            leg['move'] = True
        if ch.flip('d.rr', 0.35):
            leg['rr'] = [ch.choice('d.rrk', ('lr', 'lr', 'lr', 'strict')) for _ in range(1 + ch.pick('d.nrr', 3))]
            leg['rr2'] = ch.flip('d.rr2', 0.5)


PROF = dict(c02.PROF, utf=0.2, ncalls=3, reinv=3, reinv_kinds=('new', 'new', 'same', None), info=2, challenge=0.25, tweak=tweak, t_talk=(0.05, 1.0, 5.0, 10.0),
            rit=(0.05, 0.5, 0.52, 1.0, 2.0, 4.0), on_reinvite=((('ok', 0.05), 6), (('rej', 0.05, 488), 2), (('ok', 1.0), 2), (('prov', 0.5), 1)))


def run(sim, ch, tier):
    kw = {}
    prof, setup = extras.plan(sim, ch, PROF, kw, p=0.4)
    return base.run_b2b(sim, ch, prof, [dlgoracle.c14, oracles.served, oracles.alive], kw, setup)
