"""C30 the media end point sends queued audio once, in order and on time, and shuts down cleanly at any moment."""
from sim import mediaworld

RUNS = {'quick': 4000, 'thorough': 40000}
RULE = 'one run = 1-3 RTP end points with audio producers, re-targeting, an inbound packet stream with loss, duplication and reordering, and shutdown or garbage collection, under seeded thread schedules (line level in half of the runs); non-trivial if packets or audio flowed'
REAL = ['sippy/Rtp/EPoint.py', 'sippy/Rtp/OutputWorker.py', 'sippy/Rtp/Ingest.py', 'sippy/Rtp/Singletons.py', 'sippy/Rtp/Params.py', 'sippy/Rtp/Codecs', 'sippy/Rtp/Core/AudioChunk.py', 'sippy/Network_server.py RTP_port_allocator']
STUB = ['rtpsynth (not installed): pacing thread, network thread, packet writer, jitter buffer, mu-law, resampler', 'G722 (not installed)', 'clocks', 'thread scheduler']


def preload():
    from sim import rtpstub
    rtpstub.install()
    import sippy.Rtp.EPoint  # noqa
    import sippy.Rtp.Conf  # noqa


def run(sim, ch, tier):
    return mediaworld.run(sim, ch, tier)
