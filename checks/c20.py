"""C20 media relay commands over the datagram channel complete exactly once."""
from sim import gen, unit
from sim.rtppworld import RtppWorld, c20

RUNS = {'quick': 2000, 'thorough': 40000}
REAL = ['sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/Client/udp.py', 'sippy/Udp_server.py', 'sippy/Core/EventDispatcher.py',
        'sippy/Time/Timeout.py', 'sippy/Math/recfilter.py']
STUB = ['media relay (model answering commands)', 'sockets and network', 'clocks', 'thread scheduler']


def preload():
    import sippy.Rtp_proxy.client, sippy.Udp_server   # noqa


def run(sim, ch, tier):
    horizon = 420.0
    gen.loop_knobs(sim, ch)
    cfg = gen.netcfg(sim, ch, loss=0.3, until=horizon - 160)
    w = RtppWorld(sim, ch, cfg)
    w.plan(3 + ch.pick('njobs', 14), horizon - 5)
    w.start(horizon)
    return unit.judge(w, [c20], {})
