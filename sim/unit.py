"""Base of the worlds that simulate one component of the stack (real code, real
event loop and threads under the simulator) with the harness as its user."""
import traceback
from .core import NS, SimStop, SimDeadlock, StepBudget
from .seams import S, SimExec
from .net import Net, NetCfg
from . import gen
from .base import tracebacks


class LoopWorld(object):
    def __init__(self, sim, ch, netcfg=None):
        self.sim, self.ch = sim, ch
        self.net = S.net = Net(sim, netcfg or NetCfg())
        self.result = None
        self.exc = None
        self.exit_t = None
        self.stall_log = []
        orig = sim.stall

        def stall(d):
            self.stall_log.append((sim.t(), sim.t() + d))
            orig(d)
        sim.stall = stall

    def main(self):
        """create the component (runs in the event-loop thread)"""

    def loop(self):
        from sippy.Core.EventDispatcher import ED2
        ED2.loop()

    def start(self, until):
        sim = self.sim
        sim.stop_at = sim.t0 + int(until * NS)
        try:
            self.main()
            self.loop()
            self.result = 'return'
        except SimStop:
            self.result = 'stop' if sim.aborted is None else 'aborted'
        except SimExec:
            self.result = 'exec'
        except SystemExit as e:
            self.result, self.exc = 'sysexit', e
        except (SimDeadlock, StepBudget) as e:
            self.result, self.exc = 'deadlock', e
        except BaseException as e:
            self.result, self.exc = 'exception', e
            self.exc_tb = traceback.format_exc()
        self.exit_t = sim.t()
        if sim.harness_error:
            raise RuntimeError('harness error: %s' % sim.aborted)
        return self.result

    def onloop(self, t, fn, *a):
        """Run fn inside the event loop at simulated time t."""
        from sippy.Core.EventDispatcher import ED2
        return self.sim.at(t, lambda: ED2.callFromThread(fn, *a))

    def crashed(self):
        if self.result == 'exception':
            return 'event loop ended by exception: ' + self.exc_tb[-1500:]
        if self.result == 'deadlock':
            return 'event loop blocked: %s' % self.exc
        if self.result == 'aborted':
            return 'run aborted: %s' % self.sim.aborted
        if self.result == 'sysexit':
            return 'loop exited: %r' % self.exc
        return None

    def stalled(self, t0, t1):
        return sum(max(0.0, min(b, t1) - max(a, t0)) for a, b in self.stall_log)

    def due(self, t, d=0.0):
        """latest instant at which something due at t must have been done"""
        return t + d + 0.05 + self.stalled(t - 5, t + d + 60)


def judge(w, oracle_list, info):
    for o in oracle_list:
        for k, det in o(w):
            w.sim.violate(k, det)
    for l in tracebacks():
        w.sim.probe('tb:' + l)
    info.setdefault('nontrivial', True)
    return info
