"""Deterministic simulation core: choice source, virtual clock, discrete-event
queue, co-operative threads.  One Sim instance is one run; a run is a pure
function of (code under test, scenario, choices)."""
import heapq, random as _random, hashlib, sys
import _thread

_orig_get_ident = _thread.get_ident
_alloc_lock = _thread.allocate_lock

NS = 1000000000


class SimStop(BaseException):
    """Raised inside code under test to end a run (never caught by it)."""


class Chooser:
    """Every decision of a run. Each `kind` is an independent stream, so that
    removing one decision while minimising does not shift the others.
    The value 0 always means the simplest alternative / no fault."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rec = {}
        self._rng = {}
        self.n = 0

    def _raw(self, kind, gen):
        r = self.rec.get(kind)
        if r is None:
            r = self.rec[kind] = []
        i = len(r)
        if self.replay is not None:
            s = self.replay.get(kind)
            v = s[i] if s is not None and i < len(s) else 0
        else:
            g = self._rng.get(kind)
            if g is None:
                g = self._rng[kind] = _random.Random('%s/%s' % (self.seed, kind))
            v = gen(g)
        r.append(v)
        self.n += 1
        return v

    def pick(self, kind, n):
        if n <= 1:
            return 0
        v = self._raw(kind, lambda g: g.randrange(n))
        return v if 0 <= v < n else 0

    def flip(self, kind, p):
        if p <= 0:
            return False
        return bool(self._raw(kind, lambda g: 1 if g.random() < p else 0))

    def weighted(self, kind, weights):
        """weights: list of numbers; index 0 should be the simplest."""
        tot = float(sum(weights))
        def gen(g):
            x = g.random() * tot
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return len(weights) - 1
        v = self._raw(kind, gen)
        return v if 0 <= v < len(weights) else 0

    def choice(self, kind, seq):
        return seq[self.pick(kind, len(seq))]

    def real(self, kind, lo, hi, steps=1000):
        v = self._raw(kind, lambda g: g.randrange(steps + 1))
        v = min(max(v, 0), steps)
        return lo + (hi - lo) * (v / steps)

    def logreal(self, kind, lo, hi, steps=200):
        v = self._raw(kind, lambda g: g.randrange(steps + 1))
        v = min(max(v, 0), steps)
        return lo * (hi / lo) ** (v / steps)

    def export(self):
        out = {}
        for k, v in self.rec.items():
            j = len(v)
            while j > 0 and v[j - 1] == 0:
                j -= 1
            if j:
                out[k] = v[:j]
        return out


class SimDeadlock(BaseException):
    pass


class StepBudget(BaseException):
    pass


def _rkey(t):
    return t.rseq


class _T:
    """Control block of one simulated thread (or of the main thread)."""
    __slots__ = ('name', 'gate', 'ready', 'done', 'main', 'ident', 'blocked', 'started', 'exc', 'killed',
                 'wake_result', 'rseq', 'wseq', 'joiners', 'local')

    def __init__(self, name, main=False):
        self.name = name
        self.gate = _alloc_lock()
        self.gate.acquire()
        self.ready = False
        self.done = False
        self.main = main
        self.ident = None
        self.blocked = None
        self.started = False
        self.exc = None
        self.killed = False
        self.wake_result = None
        self.rseq = 0
        self.wseq = 0
        self.joiners = []


class Sim:
    def __init__(self, chooser, step_budget=2000000, wall0=1700000000.0, mono0=1000.0):
        self.ch = chooser
        self.now = int(mono0 * NS)            # monotonic, ns
        self.wall_off = int((wall0 - mono0) * NS)
        self.t0 = self.now
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.step_budget = step_budget
        self.events = []                      # event log (strings), for replays/determinism
        self.hash = hashlib.sha256()
        self.sig = hashlib.sha256()           # interleaving signature (no times)
        self.nsig = 0
        self.faults = {}
        self.probes = {}
        self.violations = []
        self.keep_trace = False
        # main-loop model
        self.callq = []
        self.tick = 0                         # poll quantum in ns, 0 = exact
        self.main = _T('main', True)
        self.main.ident = _orig_get_ident()
        self.threads = [self.main]
        self.cur = self.main
        self.by_ident = {self.main.ident: self.main}
        self.stopping = False
        self.stop_at = None
        self.next_timer = lambda: None        # -> ns or None; installed by the seam
        self.main_blocked = False
        self.stall_until = 0
        self.preempt_p = 0.0
        self.herd = False
        self.sched_p = 0.0                    # chance of a non-FIFO scheduling decision
        self.deadlock = None
        self.dead_threads = []
        self.aborted = None
        self.harness_error = False
        self.on_exec = None                   # observer of calls executed by the event loop
        self.on_advance = []
        self.rtick = 0
        self.in_event = False

    # -- time -----------------------------------------------------------
    def mono(self):
        return self.now / NS

    def t(self):
        return (self.now - self.t0) / NS

    def wall_ns(self):
        return self.now + self.wall_off

    # -- log ------------------------------------------------------------
    def log(self, *parts):
        s = '%.6f %s' % (self.t(), ' '.join(str(p) for p in parts))
        self.hash.update(s.encode('utf-8', 'backslashreplace'))
        if self.keep_trace:
            self.events.append(s)

    def mark(self, s):
        """Contribute to the interleaving signature."""
        self.sig.update(s.encode() + b'\n')
        self.nsig += 1

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, key, detail):
        self.violations.append({'key': key, 'detail': detail, 't': round(self.t(), 6)})

    # -- events ---------------------------------------------------------
    def at(self, delay, fn, *args):
        """Schedule fn after `delay` seconds of simulated time."""
        d = int(delay * NS)
        if d < 0:
            d = 0
        self.seq += 1
        ev = [self.now + d, self.seq, fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    @staticmethod
    def cancel(ev):
        if ev is not None:
            ev[2] = None

    def post(self, fn, *args):
        """Queue a call for the event-loop thread (call_from_thread)."""
        self.callq.append((fn, args))
        self._arm_main()

    def _arm_main(self):
        if not self.main.ready and self.main.blocked == 'loop':
            t = self._main_time(self.now)
            if t <= self.now:
                self._mkready(self.main)
            else:
                self.seq += 1
                heapq.heappush(self.heap, [t, self.seq, self._ready_main, ()])

    def _ready_main(self):
        if self.main.blocked == 'loop':
            self._mkready(self.main)

    def _main_time(self, t):
        if t < self.stall_until:
            t = self.stall_until
        if self.tick:
            q = (t - self.t0 + self.tick - 1) // self.tick
            t = self.t0 + q * self.tick
        return t

    def stall(self, dur):
        """The event loop does not get the CPU for `dur` seconds."""
        self.fault('loop_stall')
        self.stall_until = max(self.stall_until, self.now + int(dur * NS))

    def advance(self):
        """Nothing is runnable: jump to the next instant something happens.
        Returns False when nothing ever will."""
        self.steps += 1
        if self.steps > self.step_budget:
            self.abort('step budget exceeded')
            return True
        nt = None
        if self.main.blocked == 'loop' and not self.main.ready:
            x = self.next_timer()
            if x is not None:
                nt = self._main_time(max(x, self.now))
        while self.heap and self.heap[0][2] is None:
            heapq.heappop(self.heap)
        ht = self.heap[0][0] if self.heap else None
        if nt is None and ht is None:
            return False
        t = nt if ht is None or (nt is not None and nt < ht) else ht
        if self.stop_at is not None and t > self.stop_at:
            self.now = max(self.now, self.stop_at)
            self.stopping = True
            self._mkready(self.main)
            return True
        if t > self.now:
            self.now = t
        if nt is not None and nt <= self.now:
            self._mkready(self.main)
        while self.heap and self.heap[0][0] <= self.now:
            ev = heapq.heappop(self.heap)
            fn = ev[2]
            if fn is None:
                continue
            self.in_event = True
            try:
                fn(*ev[3])
            except Exception as e:
                import traceback
                self.abort('harness: ' + ''.join(traceback.format_exception(e)))
                self.harness_error = True
            self.in_event = False
            if self.main.blocked == 'loop' and self.callq and not self.main.ready:
                self._arm_main()
            if self.cur is not self.main or self._any_ready():
                if self.herd and self.heap and self.heap[0][0] <= self.now and self.heap[0][2] == self.wake_if:
                    continue        # threads that wake at one instant compete
                break
        for f in self.on_advance:
            f()
        return True

    def abort(self, why):
        if self.aborted is None:
            self.aborted = why
        self.stopping = True
        if self.main.blocked not in ('loop', None):
            self.main.exc = SimDeadlock(why)
        if self.main.blocked is not None:
            self._mkready(self.main)

    def _mkready(self, t):
        if not t.ready:
            self.seq += 1
            t.rseq = self.seq
            t.ready = True

    def _any_ready(self):
        for t in self.threads:
            if t.ready:
                return True
        return False

    # -- threads --------------------------------------------------------
    def current(self):
        return self.by_ident.get(_orig_get_ident(), self.cur)

    def reschedule(self):
        """The current thread has recorded its state (ready or blocked):
        decide who runs next. Returns when the current thread is resumed."""
        me = self.cur
        while True:
            R = [t for t in self.threads if t.ready and not t.done]
            if R:
                if len(R) > 1:
                    R.sort(key=_rkey)
                    if self.sched_p and self.ch.flip('schedr', self.sched_p):
                        nxt = R[self.ch.pick('sched', len(R))]
                    else:
                        nxt = R[0]
                else:
                    nxt = R[0]
                break
            if not self.advance():
                # full quiescence
                self.stopping = True
                self._mkready(self.main)
                if self.main.blocked not in ('loop', None):
                    self.deadlock = 'main thread blocked forever: %s' % (self.main.blocked,)
                    self.main.exc = SimDeadlock(self.deadlock)
        if nxt is not me:
            self._switch(me, nxt)
        me.ready = False
        if me.exc is not None:
            e, me.exc = me.exc, None
            raise e

    def _switch(self, me, nxt):
        self.cur = nxt
        nxt.gate.release()
        if not me.done:
            me.gate.acquire()
            if me.killed:
                raise SimStop()

    def wait(self, why):
        """Block the current thread until someone calls wake() on it."""
        me = self.cur
        me.ready = False
        me.blocked = why
        me.wseq += 1
        self.reschedule()
        me.blocked = None
        me.wseq += 1
        r, me.wake_result = me.wake_result, None
        return r

    def wake_token(self):
        """Token of the wait() the current thread is about to enter."""
        return (self.cur, self.cur.wseq + 1)

    def wake_if(self, token, result=None):
        t, w = token
        if t.wseq == w:
            self.wake(t, result)

    def wait_timeout(self, why, timeout):
        """wait() with a time limit; returns False on timeout."""
        if timeout is None:
            self.wait(why)
            return True
        ev = self.at(max(timeout, 0), self.wake_if, self.wake_token(), 'timeout')
        r = self.wait(why)
        self.cancel(ev)
        return r != 'timeout'

    def wake(self, t, result=None):
        if not t.done and not t.ready:
            self._mkready(t)
            t.wake_result = result

    def maybe_switch(self):
        """A potential preemption point."""
        me = self.cur
        if me.blocked is not None or self.in_event:
            return
        if len(self.threads) < 2:
            return
        if self.ch.flip('preempt', self.preempt_p):
            self.yield_()

    def yield_(self):
        me = self.cur
        self._mkready(me)
        self.reschedule()

    def sleep(self, secs):
        me = self.cur
        if me.main and me.blocked == 'loop':
            return
        self.at(max(secs, 0), self.wake_if, self.wake_token())
        self.wait('sleep')

    def spawn(self, name, target):
        t = _T(name)
        self._mkready(t)
        self.threads.append(t)
        sim = self
        def boot():
            t.gate.acquire()
            t.ident = _orig_get_ident()
            sim.by_ident[t.ident] = t
            t.ready = False
            try:
                if not t.killed:
                    target()
            except SimStop:
                return
            except BaseException as e:
                sim.thread_died(t, e)
            t.done = True
            t.ready = False
            try:
                sim.threads.remove(t)
            except ValueError:
                pass
            for w in t.joiners:
                sim.wake(w)
            if t.ident in sim.by_ident:
                del sim.by_ident[t.ident]
            try:
                sim.reschedule()
            except SimStop:
                return
        _thread.start_new_thread(boot, ())
        return t

    def thread_died(self, t, e):
        import traceback
        self.probe('thread_exception')
        self.dead_threads.append((t.name, ''.join(traceback.format_exception(e))))
        self.log('THREAD-EXC', t.name, type(e).__name__, e)
        if self.keep_trace:
            self.events.append(''.join(traceback.format_exception(e)))

    # -- the event loop's idle call --------------------------------------
    def procrastinate(self):
        me = self.main
        if self.stopping:
            raise SimStop()
        me.blocked = 'loop'
        if self.callq and self._main_time(self.now) <= self.now:
            self._mkready(me)
        else:
            me.ready = False
            if self.callq:
                self._arm_main()
        x = self.next_timer()
        if x is not None and self._main_time(max(x, self.now)) <= self.now:
            self._mkready(me)
        self.reschedule()
        me.blocked = None
        if self.stopping:
            raise SimStop()
        q, self.callq = self.callq, []
        for fn, args in q:
            self.steps += 1
            if self.on_exec is not None:
                self.on_exec(fn, args)
            fn(*args)
        if self.steps > self.step_budget:
            self.abort('step budget exceeded')
            raise SimStop()
