"""C15 calls are isolated; bad input harms nobody else."""
from sim import base, oracles, noise, leaks, dlgoracle, console
from checks.c01 import preload  # noqa

RUNS = {'quick': 4000, 'thorough': 25000}
PROF = dict(ncalls=6, nroutes=2, gaps=(0.0, 0.02, 0.5, 3.0, 8.0), cancel=0.12, auth_d=(0.01, 0.1, 1.0), b_talk=0.4, expires=0.1, np=0.1, hs=0.1,
            t_talk=(0.05, 1.0, 5.0, 20.0), reinv=1, info=2, challenge=0.1, reject_auth=0.05, nosdp=0.05, credit=0.15, credit_v=(20, 5, 60),
            outcomes=(('answer', 10), ('reject', 2), ('noanswer', 1), ('silent', 1), ('redirect', 1)),
            on_cancel=(('487', 6), ('200late', 1)))


def run(sim, ch, tier):
    kw = dict(start_acct=ch.flip('c15.start', 0.3), opts=[])
    if ch.flip('c15.proxy', 0.2):
        kw['opts'] += ['--sip_proxy=10.4.0.1']
    if ch.flip('c15.nat', 0.2):
        kw['opts'] += ['--nat_traversal=on']
    if ch.flip('c15.hdrs', 0.2):
        kw['opts'] += ['-h', 'x-foo', '-h', 'subject']

    def setup(w, ch):
        leaks.hook_gc_stats(w)
        w.no_credit = True
        w.acked = lambda A: bool([1 for a in A.attempts for e in a.acks if e.d == 'i'])
        w.noise = None

        def go():
            w.noise = noise.Noise(w, 3 + ch.pick('nz.n', 60), 60.0)
        sim.at(ch.choice('nz.t0', (0.95, 1.0, 2.0)), go)
        # a plain call when all that is over
        w.add_call(120.0, dict(talk=5.0), [('10.2.0.1', '', dict(kind='answer', steps=[(0.1, 180, False), (0.5, 200, True)]))])
    hl = noise.harmless
    orc = [oracles.alive, hl(noise.served)] + [hl(o) for o in (oracles.c01, oracles.c02, oracles.c03, oracles.c04, oracles.c05, oracles.c07, oracles.c13, dlgoracle.c14)]
    return base.run_b2b(sim, ch, PROF, orc, kw, setup, tail=300.0)
