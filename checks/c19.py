"""C19 timers fire on time, in order, the right number of times."""
from sim import timerworld

RUNS = {'quick': 4000, 'thorough': 60000}
RULE = 'one run = 1-60 timers, cross-thread calls and signals on one event loop, under seeded loop quanta, stalls, clock steps and call-back actions'
REAL = ['sippy.Core.EventDispatcher (timer heap, signals, cross-thread calls)', 'sippy.Time.Timeout', 'sippy.Time.MonoTime']
STUB = ['event-loop back end (ElPeriodic)', 'clocks', 'thread scheduler', 'signal delivery']


def preload():
    import sippy.Time.Timeout, sippy.Core.EventDispatcher  # noqa


def run(sim, ch, tier):
    return timerworld.run(sim, ch, tier)
