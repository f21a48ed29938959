"""C26 the asynchronous log keeps order and loses nothing it accepted unless overloaded."""
from sim import logworld

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = 'one run = one SipLogger with 1-4 writing threads, rotations, overload, failing or slow file calls and shutdown, under seeded thread schedules (line level in half of the runs)'
REAL = ['sippy/SipLogger.py', 'sippy/Signal.py', 'sippy/Core/EventDispatcher.py', "Python's text and buffered io layers"]
STUB = ['raw file, file locks, syslog', 'clocks', 'thread scheduler']


def preload():
    import sippy.SipLogger  # noqa


def run(sim, ch, tier):
    return logworld.run(sim, ch, tier)
