"""C28 a registration never lapses while the registrar is reachable."""
from sim import regworld

RUNS = {'quick': 2500, 'thorough': 40000}
RULE = ('one run = 1-3 registration agents on one real transaction manager, each against a scripted registrar (grants, challenges, refusals, outages, '
        'delays) over a lossy network, for up to 4000 s of simulated time')
REAL = ['sippy/SipRegistrationAgent.py', 'sippy/SipTransactionManager.py', 'sippy/SipWWWAuthenticate.py', 'sippy/SipAuthorization.py', 'sippy/Udp_server.py',
        'sippy/Core/EventDispatcher.py', 'SIP parsers']
STUB = ['sockets and network', 'clocks and randomness', 'thread scheduler', 'the registrar (harness)']
CALM_EVERY = 10


def preload():
    import sippy.SipRegistrationAgent  # noqa
    import sippy.SipTransactionManager  # noqa
    import sippy.SipProxyAuthenticate  # noqa


def run(sim, ch, tier):
    return regworld.run(sim, ch, tier)
