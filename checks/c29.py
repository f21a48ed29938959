"""C29 the stateful relay forwards each request and its answers exactly once."""
from sim import base, oracles, relayreq
from checks.c01 import preload  # noqa

RUNS = {'quick': 2500, 'thorough': 40000}
RULE = ('one run = one B2BUA with --sip_proxy relaying 1-6 REGISTER/SUBSCRIBE requests of 3 requesters to a scripted next hop over a lossy network, '
        'with up to 2 calls going on beside')
PROF = dict(ncalls=2, nroutes=1, auth_d=(0.01,), t_talk=(1.0, 5.0), net=dict(loss=0.2, dup=0.2),
            outcomes=(('answer', 4), ('reject', 1)))


def run(sim, ch, tier):
    return base.run_b2b(sim, ch, PROF, [relayreq.c29, oracles.c01, oracles.c02, oracles.alive], dict(opts=['--sip_proxy=%s:%d' % relayreq.NH]),
                        setup=relayreq.setup, tail=150.0)
