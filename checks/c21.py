"""C21 the stream media-relay channel keeps commands and answers paired."""
from sim import rtppstream

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = 'one run = one relay client with 1-3 worker threads, up to 22 commands over a byte stream that is cut, stalled, broken and re-established'
REAL = ['sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/Client/stream.py', 'sippy/Rtp_proxy/Client/Worker/external.py', 'sippy/Core/EventDispatcher.py']
STUB = ['media relay (model answering commands)', 'stream sockets', 'clocks', 'thread scheduler']


def preload():
    import sippy.Rtp_proxy.client  # noqa


def run(sim, ch, tier):
    return rtppstream.run(sim, ch, tier)
