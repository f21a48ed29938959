"""C19: the event loop's timers, cross-thread calls and signals, driven by the
harness as their user, against a list of what was scheduled."""
import signal
from .unit import LoopWorld, judge
from .core import NS
from . import gen, seams

EPS = 2e-6
IVALS = (0.0, 0.001, 0.01, 0.05, 0.2, 0.5, 1.0, 2.0, 7.0)


class Tm(object):
    def __init__(self, n, kind, ival, nticks):
        self.n, self.kind, self.ival, self.nticks = n, kind, ival, nticks
        self.made = None
        self.cancelled = None
        self.fires = []           # (order, t, pending dues)
        self.acts = []
        self.el = None
        self.spread = None

    def due(self, k):
        """when the k-th run (from 0) is due"""
        if self.kind == 'abs':
            return self.ival
        return self.made + self.ival * (k + 1)


class TimerWorld(LoopWorld):
    def __init__(self, sim, ch):
        LoopWorld.__init__(self, sim, ch)
        self.tms = []
        self.order = 0
        self.busy = []            # (from, to) the loop was inside a slow call-back
        self.calls = []
        self.sigs = []
        self.loops = 0
        self.reloop = False
        self.quit = False

    def new(self, depth=0):
        ch = self.ch
        k = ('once', 'periodic', 'n', 'abs')[ch.weighted('t.kind', (5, 2, 2, 2))]
        iv = ch.choice('t.iv', IVALS) + (ch.real('t.ivj', 0, 0.02) if ch.flip('t.j', 0.5) else 0)
        if k in ('periodic', 'n') and iv < 0.05:
            iv = 0.05
        t = Tm(len(self.tms), k, iv, {'once': 1, 'abs': 1, 'periodic': -1, 'n': 1 + ch.pick('t.nt', 5)}[k])
        self.tms.append(t)
        if k == 'periodic' and ch.flip('t.spr', 0.2):
            t.spread = 0.1
        if depth < 3:
            for i in range(ch.pick('t.na', 3) if ch.flip('t.acts', 0.45) else 0):
                a = ('cancel', 'new', 'raise', 'slow', 'self', 'break', 'sync')[ch.weighted('t.act', (4, 3, 1, 1, 2, 1, 1))]
                if a == 'new':
                    t.acts.append((a, self.new(depth + 1)))
                elif a == 'cancel':
                    t.acts.append((a, ch.pick('t.cn', max(1, len(self.tms)))))
                elif a == 'slow':
                    t.acts.append((a, ch.choice('t.slow', (0.001, 0.02, 0.3, 1.5))))
                else:
                    t.acts.append((a,))
        return t

    def arm(self, t):
        from sippy.Time.Timeout import Timeout, TimeoutAbsMono, TimeoutInact
        from sippy.Time.MonoTime import MonoTime
        if t.made is not None:
            return
        t.made = self.sim.t()
        self.sim.log('ARM', t.n, t.kind, t.ival, t.nticks)
        self.sim.mark('a%d' % t.n)
        if t.kind == 'abs':
            off, t.ival = t.ival - 0.05, t.made + t.ival - 0.05      # may be in the past
            t.el = TimeoutAbsMono(self.fire, MonoTime().getOffsetCopy(off), t, 'p%d' % t.n)
        elif t.spread:
            t.el = TimeoutInact(self.fire, t.ival, t.nticks, t, 'p%d' % t.n)
            t.el.spread_runs(t.spread)
            t.el.go()
        else:
            t.el = Timeout(self.fire, t.ival, t.nticks, t, 'p%d' % t.n)

    def cancel(self, t):
        if t.el is None:
            return
        self.sim.log('CANCEL', t.n)
        self.sim.mark('c%d' % t.n)
        t.el.cancel()
        if t.cancelled is None:
            t.cancelled = (self.sim.t(), self.order)

    def fire(self, t, tag):
        sim = self.sim
        self.order += 1
        t.fires.append((self.order, sim.t(), tag == 'p%d' % t.n and sim.cur is sim.main))
        sim.log('FIRE', t.n)
        sim.mark('f%d' % t.n)
        exc = False
        for a in list(t.acts):
            if a[0] == 'cancel':
                self.cancel(self.tms[a[1]])
            elif a[0] == 'new':
                self.arm(a[1])
            elif a[0] == 'self':
                self.cancel(t)
            elif a[0] == 'slow':
                self.busy_for(a[1])
            elif a[0] == 'raise':
                exc = True
            elif a[0] == 'break':
                self.brk()
        if exc:
            raise RuntimeError('call-back fails')

    def busy_for(self, d):
        self.sim.fault('slow_callback')
        t0 = self.sim.t()
        self.sim.sleep(d)
        self.stall_log.append((t0, self.sim.t()))

    def brk(self):
        from sippy.Core.EventDispatcher import ED2
        if self.loops < 4:
            self.sim.log('BREAK')
            ED2.breakLoop('x%d' % self.loops)

    def main(self):
        for t in self.tms0:
            self.arm(t)

    def loop(self):
        from sippy.Core.EventDispatcher import ED2
        while True:
            to = None
            r = ED2.loop(to)
            self.loops += 1
            if self.loops > 6:
                break

    # -- calls from other threads
    def thread(self, n, ops):
        from sippy.Core.EventDispatcher import ED2
        import time
        for i, (d, sync, exc) in enumerate(ops):
            if d:
                time.sleep(d)
            c = dict(th=n, i=i, sync=sync, exc=exc, sent=self.sim.t(), ran=[], ret=None)
            self.calls.append(c)
            if not sync:
                ED2.callFromThread(self.called, c)
                continue
            try:
                r = ED2.callFromThreadSync(self.called, c)
                c['ret'] = ('val', r)
            except KeyError as e:
                c['ret'] = ('exc', e.args[0])
            c['rt'] = self.sim.t()

    def called(self, c):
        self.order += 1
        c['ran'].append((self.order, self.sim.t(), self.sim.cur is self.sim.main))
        self.sim.mark('x%d.%d' % (c['th'], c['i']))
        if c['exc']:
            raise KeyError('%d.%d' % (c['th'], c['i']))
        return (c['th'], c['i'])

    # -- signals
    def setup_signals(self):
        from sippy.Core.EventDispatcher import ED2
        self.sl = [ED2.regSignal(signal.SIGUSR1, self.on_sig, i) for i in range(2)]

    def on_sig(self, i):
        self.sigs.append((self.sim.t(), i))

    def raise_sig(self):
        self.sigsent.append(self.sim.t())
        seams.raise_signal(signal.SIGUSR1)
        if self.sim.main.blocked == 'loop' and not self.sim.main.ready:
            self.sim._mkready(self.sim.main)


def oracle(w):
    c = w.crashed()
    if c:
        yield ('loop-died', c)
        return
    if w.result == 'return':
        yield ('loop-left', 'ED2.loop() returned %d times, asked to %d times' % (w.loops, w.loops))
        return
    end = w.exit_t
    fires = []
    for t in w.tms:
        if t.made is None:
            continue
        ctime, corder = t.cancelled or (float('inf'), float('inf'))
        n = len(t.fires)
        lim = float('inf') if t.nticks == -1 else t.nticks
        if n > lim:
            yield ('too-often', 'timer %d (%s, %s runs) ran %d times' % (t.n, t.kind, t.nticks, n))
            n = lim
        late = [f for f in t.fires if f[0] > corder]
        if late:
            yield ('ran-cancelled', 'timer %d cancelled at %.6f ran at %.6f' % (t.n, ctime, late[0][1]))
        for k, (o, ft, ok) in enumerate(t.fires):
            if not ok:
                yield ('wrong-context', 'timer %d ran with foreign parameters or in another thread' % t.n)
            if t.spread:
                continue
            d = t.due(k)
            if ft < d - EPS:
                yield ('early', 'timer %d run %d due at %.6f ran at %.6f' % (t.n, k, d, ft))
            if ft > late_lim(w, d, t, k):
                yield ('late', 'timer %d run %d due at %.6f ran at %.6f' % (t.n, k, d, ft))
            fires.append((o, d, ft, t, k))
        if t.spread:
            prev = t.made
            for k, (o, ft, ok) in enumerate(t.fires):
                # every interval within the spread, counted from the previous due time
                lo, hi = t.made + t.ival * 0.9 * (k + 1), t.made + t.ival * 1.1 * (k + 1)
                if ft < lo - EPS or ft > late_lim(w, hi, t, k):
                    yield ('spread', 'timer %d run %d at %.3f outside [%.3f, %.3f]' % (t.n, k, ft, lo, hi))
            continue
        # runs that should have happened
        k = len(t.fires)
        if k < lim:
            d = t.due(k)
            if d < ctime - EPS and late_lim(w, d, t, k) < min(end, ctime) - EPS:
                yield ('missed', 'timer %d run %d due at %.6f never ran (cancelled %s, end %.3f)' % (t.n, k, d, t.cancelled, end))
    fires.sort(key=lambda f: f[0])
    best = None
    for o, d, ft, t, k in fires:
        if best is not None and d < best[1] - EPS and t.made is not None:
            # was it already armed when the one due later ran?
            if armed_before(t, k, best):
                yield ('order', 'timer %d run %d (due %.6f) ran after timer %d run %d (due %.6f)' % (
                    t.n, k, d, best[3].n, best[4], best[1]))
        if best is None or d > best[1]:
            best = (o, d, ft, t, k)
    # cross-thread calls
    per = {}
    for c in w.calls:
        if len(c['ran']) > 1:
            yield ('call-twice', 'call %d.%d ran %d times' % (c['th'], c['i'], len(c['ran'])))
        if not c['ran']:
            if end > w.due(c['sent'], 0.1):
                yield ('call-lost', 'call %d.%d handed over at %.3f never ran' % (c['th'], c['i'], c['sent']))
            continue
        o, rt, main = c['ran'][0]
        if not main:
            yield ('call-context', 'call %d.%d ran outside the event loop' % (c['th'], c['i']))
        if rt > w.due(c['sent'], 0.05):
            yield ('call-late', 'call %d.%d handed over at %.3f ran at %.3f' % (c['th'], c['i'], c['sent'], rt))
        if o < per.get(c['th'], 0):
            yield ('call-order', 'call %d.%d overtook an earlier one of its thread' % (c['th'], c['i']))
        per[c['th']] = o
        if c['sync']:
            want = ('exc', '%d.%d' % (c['th'], c['i'])) if c['exc'] else ('val', (c['th'], c['i']))
            if c['ret'] is None and end > w.due(rt, 0.1):
                yield ('sync-hangs', 'synchronous call %d.%d never returned' % (c['th'], c['i']))
            elif c['ret'] is not None and c['ret'] != want:
                yield ('sync-result', 'synchronous call %d.%d returned %r' % (c['th'], c['i'], c['ret']))
    for t in w.sigsent:
        if end > w.due(t, 0.1):
            for i in range(2):
                if not [x for x in w.sigs if x[1] == i and t <= x[0] <= w.due(t, 0.1)]:
                    yield ('signal-lost', 'signal sent at %.3f not dispatched to listener %d' % (t, i))


def late_lim(w, d, t, k):
    # one quantum, the loop's stalls and what busy call-backs took, and the runs it had to catch up with
    base = max(d, t.made)
    x = w.stalled(base - 10, base + 60)
    return base + (0.0201 if x else 0.0101) + EPS + x


def armed_before(t, k, b):
    """t's run k was armed before b ran (in execution order)"""
    if k > 0:
        return t.fires[k - 1][0] < b[0]
    return t.armed_order < b[0]


def run(sim, ch, tier):
    gen.loop_knobs(sim, ch)
    w = TimerWorld(sim, ch)
    w.sigsent = []
    orig_arm = w.arm

    def arm(t):
        if t.made is None:
            t.armed_order = w.order
        orig_arm(t)
    w.arm = arm
    n = 1 + ch.pick('g.n', (6, 40)[ch.pick('g.big', 2)])
    w.tms0 = []
    for i in range(n):
        t = w.new()
        if ch.flip('g.first', 0.6):
            w.tms0.append(t)
        else:
            w.onloop(ch.choice('g.at', (0.0, 0.1, 0.5, 1.0, 3.0)), w.arm, t)
        if ch.flip('g.canc', 0.35):
            w.onloop(ch.choice('g.cat', (0.001, 0.05, 0.2, 0.5, 1.0, 2.0, 4.0)), w.cancel, t)
            if ch.flip('g.canc2', 0.2):
                w.onloop(ch.choice('g.cat2', (0.3, 5.0)), w.cancel, t)
    if ch.flip('g.thr', 0.4):
        from threading import Thread
        for k in range(1 + ch.pick('g.nth', 3)):
            ops = [(ch.choice('h.d', (0.0, 0.0, 0.05, 0.5)), ch.flip('h.s', 0.5), ch.flip('h.e', 0.25)) for _ in range(1 + ch.pick('h.n', 6))]
            sim.at(0.01, lambda k=k, ops=ops: sim.spawn('user%d' % k, lambda: w.thread(k, ops)))
    if ch.flip('g.sig', 0.3):
        w.setup_signals()
        for i in range(1 + ch.pick('g.nsig', 3)):
            sim.at(ch.real('g.sigt', 0.05, 6.0), w.raise_sig)
    gen.stalls(sim, ch, 6.0, 3, 2.0)
    gen.clock_steps(sim, ch, 6.0, 3)
    w.start(14.0)
    return judge(w, [oracle], {'timers': len(w.tms), 'fires': sum(len(t.fires) for t in w.tms), 'calls': len(w.calls),
                               'sample': [(t.n, t.kind, t.ival, t.nticks, [repr(a[0]) for a in t.acts], [f[1] for f in t.fires][:5]) for t in w.tms[:6]]})
