"""C10 client transactions: reliable sending, one outcome, prompt failure."""
from sim import base, oracles, tmgen, tmoracles
from sim.tmworld import TMWorld
from checks import c02
from checks.c01 import preload  # noqa

RUNS = {'quick': 2500, 'thorough': 40000}


def run(sim, ch, tier):
    if ch.pick('mode', 4) == 3:
        # the same wire rules over the whole server
        return base.run_b2b(sim, ch, c02.PROF, [tmoracles.client_wire, oracles.alive])
    return tmgen.run(sim, ch, 'client', [tmoracles.client_wire, tmoracles.c10_cb, oracles.alive])
