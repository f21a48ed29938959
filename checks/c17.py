"""C17 digest challenges are fresh, single-purpose and time-limited."""
from sim import authworld

RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('one run = one SIP server (real transaction manager, real challenge generator and verifier) and 1-5 clients answering its challenges '
        'rightly, wrongly, late or with tampered ones over a lossy network while the wall clock is stepped')
REAL = ['sippy/Security/SipNonce.py', 'sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/SipProxyAuth*.py',
        'sippy/SipTransactionManager.py', 'sippy/Udp_server.py', 'sippy/Core/EventDispatcher.py', 'SIP parsers']
STUB = ['sockets and network', 'clocks and randomness', 'thread scheduler', 'the application that challenges and verifies (harness)']
CALM_EVERY = 10


def preload():
    import sippy.SipTransactionManager  # noqa
    import sippy.SipProxyAuthenticate  # noqa


def run(sim, ch, tier):
    return authworld.run(sim, ch, tier)
