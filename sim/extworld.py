"""C18: the real External_command pool, its worker threads and simulated helper
processes."""
import errno
from .unit import LoopWorld, judge
from .seams import S, ChildModel
from . import gen
from .gen import tm


class Helper(ChildModel):
    def __init__(self, popen, args, w):
        ChildModel.__init__(self, popen, args)
        self.w = w
        self.id = len(w.helpers)
        self.cur = []
        self.job = None
        self.q = []
        self.stdin_closed = False
        self.errs = 0
        w.helpers.append(self)

    def on_line(self, line):
        if line.strip() != b'':
            self.cur.append(line)
            return
        lines, self.cur = self.cur, []
        self.q.append(lines)
        self.next()

    def on_stdin_closed(self):
        self.stdin_closed = True
        if self.job is None:
            self.w.sim.at(0.01, self.die, 0)

    def next(self):
        w = self.w
        if self.job is not None or not self.q or self.dead:
            return
        lines = self.q.pop(0)
        j = w.got(self, lines)
        if j is None:
            self.emit(b'?\n\n')
            self.next()
            return
        self.job = j
        if j.err:
            # complaints on standard error; nobody may be reading them
            w.sim.fault('stderr_noise')
            self.errs += j.err
            if self.errs > 65536 and self.popen.kw.get('stderr') == -1:
                w.sim.fault('stderr_full')
                return              # blocked in write(2)
        for d, b in j.pieces:
            w.sim.at(d, self.piece, j, b)

    def piece(self, j, b):
        if self.dead or self.job is not j:
            return
        w = self.w
        if b is None:
            w.sim.fault('helper_died')
            j.broken = w.sim.t()
            self.job = None
            self.die(-9)
            w.freed(self, j)
        elif b == 'eof':
            w.sim.fault('helper_closed')
            j.broken = w.sim.t()
            self.job = None
            self.closed = True
            self.popen.stdout.feed_eof()
            w.freed(self, j)
        elif b == 'done':
            j.answered = w.sim.t()
            self.job = None
            w.freed(self, j)
            if self.stdin_closed or j.kind == 'dieafter' and not self.q:
                if not self.stdin_closed:
                    w.sim.fault('helper_died_idle')
                self.die(0)
            else:
                self.next()
        else:
            self.emit(b)


class Job(object):
    def __init__(self, n, t):
        self.n, self.t = n, t
        self.sub = None
        self.seen = []            # (t, helper)
        self.done = []            # (t, result, thread is main)
        self.cancelled = None
        self.broken = self.answered = None
        self.err = 0
        self.wi = None
        self.acts = []


class ExtWorld(LoopWorld):
    def __init__(self, sim, ch, workers):
        LoopWorld.__init__(self, sim, ch)
        self.helpers = []
        self.jobs = []
        self.workers = workers
        self.ec = None
        self.shut = None
        self.popen_fail = []        # (from, to)
        self.stray = []
        self.flight = []            # (t, n in flight)
        self.nfl = 0
        S.popen = self._popen

    def _popen(self, p, args):
        t = self.sim.t()
        for a, b in self.popen_fail:
            if a <= t < b:
                self.sim.fault('spawn_failed')
                raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
        return Helper(p, args, self)

    def main(self):
        from sippy.External_command import External_command
        self.ec = External_command(('/simfs/helper', '-s'), max_workers=self.workers)

    def add(self, t):
        ch = self.ch
        j = Job(len(self.jobs), t)
        self.jobs.append(j)
        j.data = ['job %d' % j.n] + ['line %d \u00e9 %s' % (i, 'x' * ch.pick('j.len', 30)) for i in range(ch.pick('j.lines', 3))]
        j.kind = ('ok', 'die', 'diemid', 'eof', 'dieafter')[ch.weighted('j.kind', (12, 1, 1, 1, 1))] if not self.sim.calm else 'ok'
        j.out = [b'answer %d' % j.n] + [b'part %d of %d' % (i, j.n) for i in range(ch.pick('j.out', 4))]
        if ch.flip('j.bin', 0.1):
            j.out.append(b'\xff\xfe\x00')
        d = tm(ch, 'j.d', (0.0, 0.001, 0.05, 0.5, 3.0), 0.01)
        if ch.flip('j.noout', 0.08):
            j.out = []
        text = b'\n'.join(j.out + [b'', b'']) if j.out else b'\n'
        if ch.flip('j.err', 0.15):
            j.err = ch.choice('j.errn', (40, 3000, 30000, 70000))
        pieces = []
        t1 = d
        while text:
            k = len(text) if ch.flip('j.whole', 0.6) else 1 + ch.pick('j.cut', len(text))
            pieces.append((t1, text[:k]))
            text = text[k:]
            t1 += ch.choice('j.gap', (0.0, 0.01, 0.3))
        if j.kind == 'die':
            pieces = [(d, None)]
        elif j.kind == 'diemid':
            last = pieces[-1]
            pieces = pieces[:-1] + [(last[0], last[1][:-1]), (last[0] + 0.01, None)]
        elif j.kind == 'eof':
            pieces = pieces[:-1] + [(pieces[-1][0], 'eof')]
        else:
            pieces.append((pieces[-1][0], 'done'))
        j.pieces = pieces
        j.time = max(p[0] for p in pieces)
        j.thread = ch.flip('j.thr', 0.15)
        if ch.flip('j.cancel', 0.15):
            j.cancel_at = ch.choice('j.cat', (0.0, 0.001, 0.02, 0.5, 2.0))
        else:
            j.cancel_at = None
        j.raises = ch.flip('j.exc', 0.06)
        j.nocb = False
        if t is not None:
            self.onloop(t, self.submit, j)
        return j

    def submit(self, j):
        if self.shut is not None:
            j.sub = None
            return
        j.sub = self.sim.t()
        self.sim.mark('s%d' % j.n)
        self.sim.log('SUBMIT', j.n)
        j.wi = self.ec.process_command(list(j.data), self.result_cb, j, 'x%d' % j.n)
        if j.cancel_at is not None:
            self.sim.at(j.cancel_at, self.cancel, j)

    def cancel(self, j):
        if j.cancelled is None and j.wi is not None:
            j.cancelled = self.sim.t()
            self.sim.log('CANCEL', j.n)
            self.sim.mark('c%d' % j.n)
            # from the event-loop thread or from a thread of the user's
            j.wi.cancelled_lock  # (touch)
            self.onloop(0, self._cancel, j)

    def _cancel(self, j):
        j.cancel_done = self.sim.t()
        j.was_done = len(j.done)
        j.was_seen = len(j.seen)
        j.wi.cancel()
        j.cancel_end = self.sim.t()

    def got(self, h, lines):
        t = self.sim.t()
        for j in self.jobs:
            if lines and lines[0] == b'job %d' % j.n:
                want = [x.encode() for x in j.data]
                if lines != want:
                    self.stray.append((t, 'job %d reached the helper as %r' % (j.n, lines)))
                j.seen.append((t, h.id))
                self.sim.log('HELPER', h.id, 'job', j.n)
                self.sim.mark('h%d:%d' % (h.id, j.n))
                self.nfl += 1
                self.flight.append((t, self.nfl))
                return j
        self.stray.append((t, 'helper got %r' % (lines,)))
        return None

    def freed(self, h, j):
        self.nfl -= 1
        self.flight.append((self.sim.t(), self.nfl))

    def result_cb(self, result, j, tag):
        sim = self.sim
        j.done.append((sim.t(), result, sim.cur is sim.main and tag == 'x%d' % j.n))
        sim.log('RESULT', j.n, result)
        sim.mark('r%d' % j.n)
        for a in j.acts:
            if a[0] == 'submit' and self.shut is None:
                self.submit(a[1])
            elif a[0] == 'cancel' and a[1].wi is not None and a[1].cancelled is None:
                a[1].cancelled = sim.t()
                self._cancel(a[1])
            elif a[0] == 'shutdown':
                self.shutdown()
        if j.raises:
            raise ValueError('user call-back fails')

    def shutdown(self):
        if self.shut is None:
            self.shut = self.sim.t()
            self.sim.log('SHUTDOWN')
            self.ec.shutdown()
            self.ec = None


def oracle(w):
    c = w.crashed()
    if c:
        yield ('loop-died', c)
    for t, s in w.stray:
        yield ('garbled-job', '%s at %.3f' % (s, t))
    end = w.exit_t
    total = sum(j.time for j in w.jobs)
    for j in w.jobs:
        if j.sub is None:
            if j.done or j.seen:
                yield ('unasked', 'job %d completed without being submitted' % j.n)
            continue
        if len(j.done) > 1:
            yield ('twice', 'job %d completed %d times' % (j.n, len(j.done)))
        if len(j.seen) > 1:
            yield ('ran-twice', 'job %d was given to helpers %r' % (j.n, j.seen))
        if j.cancelled is None and not j.done:
            lim = w.due(j.sub, total + 1.0)
            if end > lim:
                yield ('lost', 'job %d submitted at %.3f (%s, given to a helper: %s) never completed' % (j.n, j.sub, j.kind, j.seen))
        for t, r, main in j.done:
            if not main:
                yield ('wrong-context', 'job %d completed outside the event loop or with wrong parameters' % j.n)
            own = tuple(x.strip() for x in j.out)
            if j.answered is not None and j.answered <= t:
                if tuple(r) != own:
                    yield ('wrong-answer', 'job %d completed with %r, its helper said %r' % (j.n, r, own))
                if t > w.due(j.answered, 0.05):
                    yield ('late', 'job %d answered at %.3f, completed at %.3f' % (j.n, j.answered, t))
            elif tuple(r) != ():
                yield ('wrong-answer', 'job %d (%s) completed with %r at %.3f, its helper had not answered' % (j.n, j.kind, r, t))
            elif j.broken is None and not (j.seen == [] and any(a <= t and b >= j.sub for a, b in w.popen_fail)):
                yield ('false-failure', 'job %d reported failed at %.3f although its helper was fine (seen %r)' % (j.n, t, j.seen))
            elif j.broken is not None and t > w.due(j.broken, 0.05):
                yield ('late', 'helper of job %d failed at %.3f, completed at %.3f' % (j.n, j.broken, t))
        if j.cancelled is not None and getattr(j, 'cancel_end', None) is not None:
            late = [t for t, h in j.seen if t > j.cancel_end + 1e-6]
            if late:
                yield ('cancelled-ran', 'job %d cancelled at %.3f was given to a helper at %.3f' % (j.n, j.cancel_end, late[0]))
        # work conservation: a waiting job while some worker is idle
        upto = j.seen[0][0] if j.seen else (j.done[0][0] if j.done else None)
        if upto is None and j.cancelled is not None:
            continue
        if upto is None:
            upto = end
        free = idle_in(w, w.due(j.sub, 0.01), upto)
        if free is not None and not w.popen_fail:
            yield ('idle-worker', 'job %d submitted at %.3f waited till %.3f though a worker was free at %.3f' % (j.n, j.sub, upto, free))
    if w.shut is not None and end > w.due(w.shut, total + 1.5):
        left = [t.name for t in w.sim.threads if not t.main and not t.done]
        if left:
            yield ('worker-left', 'threads %r still there after shutdown at %.3f' % (left, w.shut))
        alive = [h.id for h in w.helpers if not h.dead and not h.stdin_closed]
        if alive:
            yield ('helper-left', 'helpers %r still running after shutdown at %.3f' % (alive, w.shut))
    elif w.shut is None and len(w.sim.dead_threads):
        yield ('worker-died', 'a worker thread ended: %s' % w.sim.dead_threads[0][1][-600:])


def idle_in(w, a, b):
    """first instant in [a, b] at which fewer jobs than workers were in flight"""
    if a >= b:
        return None
    cur, t0 = 0, 0.0
    for t, n in w.flight + [(w.exit_t, None)]:
        lo, hi = max(a, t0), min(b, t)
        if hi - lo > 0.05 and cur < w.workers:
            return lo
        cur, t0 = n, t
        if t > b:
            break
    return None


def run(sim, ch, tier):
    gen.loop_knobs(sim, ch)
    w = ExtWorld(sim, ch, 1 + ch.pick('x.w', 4))
    n = 1 + ch.pick('x.n', 14)
    t = 0.0
    for i in range(n):
        t += ch.choice('x.t', (0.0, 0.0, 0.001, 0.05, 0.5, 3.0))
        w.add(t)
    js = list(w.jobs)
    for j in js:
        if ch.flip('x.act', 0.15):
            k = ch.pick('x.actk', 2)
            if k == 0:
                j.acts.append(('submit', w.add(None)))
            else:
                j.acts.append(('cancel', js[ch.pick('x.actc', len(js))]))
    total = sum(j.time for j in w.jobs)
    if not sim.calm and ch.flip('x.pf', 0.15):
        a = ch.real('x.pfa', 0.0, 5.0)
        w.popen_fail.append((a, a + ch.choice('x.pfd', (0.1, 1.0, 4.0))))
    if ch.flip('x.shut', 0.5):
        if ch.flip('x.shutin', 0.3) and js:
            js[ch.pick('x.shutj', len(js))].acts.append(('shutdown',))
        else:
            w.onloop(ch.choice('x.shutt', (t + total + 1.0, t, t * 0.5, t + 0.01)), w.shutdown)
    gen.stalls(sim, ch, t + 5, 2, 2.0)
    w.start(t + total + 12.0)
    return judge(w, [oracle], {'jobs': len(w.jobs), 'helpers': len(w.helpers), 'workers': w.workers,
                               'sample': [(j.t, j.kind, j.data, [repr(p) for p in j.pieces]) for j in w.jobs[:4]]})
