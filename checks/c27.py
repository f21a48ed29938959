"""C27 the datagram server neither reorders, duplicates nor dies."""
from sim import udpworld

RUNS = {'quick': 5000, 'thorough': 100000}
RULE = 'one run = one datagram server with 1-3 sender/receiver threads, up to 31 datagrams each way, under seeded thread schedules and socket faults'
REAL = ['sippy/Udp_server.py', 'sippy/Network_server.py', 'sippy/Core/EventDispatcher.py']
STUB = ['sockets, name resolution and network', 'clocks', 'thread scheduler']


def preload():
    import sippy.Udp_server  # noqa


def run(sim, ch, tier):
    return udpworld.run(sim, ch, tier)
