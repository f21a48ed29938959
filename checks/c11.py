"""C11 server transactions: duplicates are never acted on twice."""
from sim import base, oracles, tmgen, tmoracles
from checks import c02
from checks.c01 import preload  # noqa

RUNS = {'quick': 2500, 'thorough': 40000}
PROF = dict(c02.PROF, noack=0.25)


def run(sim, ch, tier):
    if ch.pick('mode', 4) == 3:
        return base.run_b2b(sim, ch, PROF, [tmoracles.server_wire, oracles.c11_noack, oracles.alive])
    return tmgen.run(sim, ch, 'server', [tmoracles.server_wire, tmoracles.c11_cb, oracles.alive])
