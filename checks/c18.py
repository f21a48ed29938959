"""C18 external helper pool: each job answered once, with its own answer."""
from sim import extworld

RUNS = {'quick': 4000, 'thorough': 60000}
RULE = 'one run = one pool of 1-4 worker threads serving 1-20 jobs under seeded thread schedules and helper faults'
REAL = ['sippy.External_command (pool, worker threads, work items)', 'sippy.Core.EventDispatcher']
STUB = ['helper processes and their pipes', 'thread scheduler, clock', 'event-loop back end (ElPeriodic)']


def preload():
    import sippy.External_command  # noqa


def run(sim, ch, tier):
    return extworld.run(sim, ch, tier)
