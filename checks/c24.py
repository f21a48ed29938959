"""C24 graceful stop and restart lose no call and strand no peer."""
import signal
from sim import base, oracles, ctl
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(ncalls=5, nroutes=2, gaps=(0.0, 0.02, 0.5, 3.0, 8.0), cancel=0.2, auth_d=(0.01, 0.1, 1.0, 5.0), b_talk=0.4, t_talk=(0.05, 1.0, 5.0, 20.0, 90.0),
            reinv=1, outcomes=(('answer', 8), ('reject', 2), ('noanswer', 1), ('silent', 1), ('slow', 1)), reject_auth=0.05,
            on_cancel=(('487', 6), ('200late', 1), ('ignore', 1)))
SETS = ((signal.SIGTERM,), (signal.SIGPROF,), (signal.SIGHUP,), (signal.SIGHUP, signal.SIGHUP), (signal.SIGPROF, signal.SIGPROF),
        (signal.SIGHUP, signal.SIGPROF), (signal.SIGPROF, signal.SIGHUP), (signal.SIGHUP, signal.SIGTERM), (signal.SIGPROF, signal.SIGTERM),
        (signal.SIGTERM, signal.SIGTERM), (signal.SIGUSR2, signal.SIGPROF), (signal.SIGUSR2, signal.SIGUSR2))


def run(sim, ch, tier):
    kw = {}
    if ch.flip('c24.noauth', 0.15):
        kw['static'], kw['auth'] = '10.2.0.1', False
    kind = SETS[ch.pick('c24.set', len(SETS))]

    prof = dict(PROF)
    if ch.flip('c24.gc', 0.35):
        # calls and signals around the minute at which the server looks whether it may restart
        prof.update(t0=ch.real('c24.t0', 40.0, 59.9), gaps=(0.0, 0.02, 0.5), auth_d=(0.1, 5.0, 25.0))

    def setup(w, ch):
        t = prof.get('t0', 0.0) - ch.choice('c24.dt', (0.0, 2.0, 12.0)) if 't0' in prof else 0.0
        for s in kind:
            t += ch.choice('c24.t', (1.0, 1.2, 2.0, 4.0, 9.0, 15.0, 30.0)) + ch.real('c24.tj', 0.0, 1.0)
            sim.fault('signal_%d' % s)
            sim.at(t, w.signal, s)
    orc = [ctl.c24, oracles.alive, oracles.c01, oracles.c02, oracles.c03]
    if signal.SIGHUP not in kind and signal.SIGTERM not in kind:
        orc.append(oracles.c04)
    return base.run_b2b(sim, ch, prof, orc, kw, setup, tail=480.0)
