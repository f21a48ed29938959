"""C26: the real SipLogger and its logging thread over a simulated file (or
syslog), with several writing threads, rotation, overload and shutdown."""
import bisect
import errno
import os
import re
from .unit import LoopWorld, judge
from .seams import S, raise_signal
from .simfs import SimFS
from . import gen
from .gen import tm

INF = float('inf')
PATH = '/simfs/sip.log'
LIMIT = 1000


class Rec(object):
    __slots__ = ('w', 'n', 'a', 'b', 'sa', 'sb', 'pad', 'lvl', 'cid', 'pos', 'exc', 'ntok')


class LogWorld(LoopWorld):
    def __init__(self, sim, ch):
        LoopWorld.__init__(self, sim, ch)
        self.log = None
        self.fs = S.fs = SimFS(sim, self.hook)
        self.recs = []
        self.seq = 0
        self.errs = []              # (t, op, errno) of injected failures
        self.shut = self.shut_done = None
        self.shut_seq = None
        self.rot = []               # (t, seq after which the new file is due, inode count)
        self.io = 0                 # calls made on files
        self.slow_log = []
        self.sys = []               # syslog records (t, text)
        self.sysopen = 0
        self.syslog = ch.flip('l.sys', 0.15)
        self.nolock = ch.choice('l.nolock', (0, 0, 0, errno.EOPNOTSUPP, errno.ENOLCK))
        if sim.calm:
            self.nolock = 0
        self.p_err = 0 if sim.calm else ch.choice('l.perr', (0, 0, 0, 0.01, 0.05, 0.2))
        self.p_short = 0 if sim.calm else ch.choice('l.pshort', (0, 0, 0.1))
        self.p_slow = 0 if sim.calm else ch.choice('l.pslow', (0, 0.02, 0.1, 0.5))
        self.full = []              # disk full from, to
        self.lvl = ch.choice('l.lvl', ('INFO', 'DBUG', 'WARN'))
        self.slow_left = 25.0
        self.hang = None

    # -- seams
    def hook(self, op, arg):
        ch, sim = self.ch, self.sim
        self.io += 1
        sim.mark(op)
        sim.log('IO', op, arg)
        if sim.stopping:
            return arg
        if self.p_slow and ch.flip('h.slow', self.p_slow):
            d = ch.logreal('h.slowd', 0.001, 0.5)
            if self.slow_left > d:
                self.slow_left -= d
                sim.fault('slow_io')
                sim.sleep(d)
        elif ch.flip('h.yield', 0.2):
            sim.maybe_switch()
        t = sim.t()
        if op == 'flock' and self.nolock and arg == 2:
            sim.fault('no_locking')
            if self.nolock == errno.ENOLCK:
                self.errs.append((t, op, errno.ENOLCK))
            raise OSError(self.nolock, 'locks')
        if op == 'write' and any(a <= t < b for a, b in self.full):
            self.errs.append((t, op, errno.ENOSPC))
            sim.fault('disk_full')
            k = ch.pick('h.part', 3)
            if k and arg > 1 and not getattr(self, 'wasfull', False):
                self.wasfull = True
                return max(1, arg // (k + 1))
            raise OSError(errno.ENOSPC, 'No space left on device')
        self.wasfull = False
        if self.p_err and ch.flip('h.err.' + op, self.p_err):
            e = ch.choice('h.errno', (errno.EIO, errno.EINTR) if op != 'open' else (errno.EMFILE, errno.EACCES, errno.ENOENT))
            if op == 'flock':
                e = ch.choice('h.errnof', (errno.EINTR, errno.ENOLCK))
            if op == 'write' and e == errno.EINTR:
                e = errno.EDQUOT
            sim.log('ERR', op, e)
            self.errs.append((t, op, e))
            sim.fault('%s_error' % op)
            raise OSError(e, op)
        if op == 'write' and self.p_short and arg > 1 and ch.flip('h.short', self.p_short):
            sim.fault('short_write')
            return 1 + ch.pick('h.shortn', arg - 1)
        return arg

    def main(self):
        import syslog
        from sippy import SipLogger as M
        os.environ['SIPLOG_BEND'] = 'syslog' if self.syslog else 'file'
        os.environ['SIPLOG_LOGFILE_FILE'] = PATH
        os.environ['SIPLOG_LVL'] = self.lvl
        if self.ch.flip('l.rel', 0.2):
            os.environ['SIPLOG_TFORM'] = 'rel'
        syslog.openlog = self._openlog
        syslog.closelog = self._closelog
        syslog.syslog = self._syslog
        self.M = M
        # the harness's registration record goes through the queue as well
        n0 = len(self.sim.threads)
        self.log = M.SipLogger('app', logfile=PATH)
        self.mine = self.sim.threads[n0:]
        self.ready_t = self.sim.t()

    def _openlog(self, *a):
        self.hook('sysopen', 0)
        self.sysopen += 1

    def _closelog(self):
        self.sysopen -= 1

    def _syslog(self, prio, text):
        self.hook('syslog', 0)
        self.sys.append((self.sim.t(), text))

    # -- writers
    def write(self, w, n, size, lvl, nargs):
        if self.shut is not None or self.log is None:
            return
        r = Rec()
        r.w, r.n, r.lvl = w, n, lvl
        r.cid = 'c%d.%d' % (w, n)
        r.pad = 'x' * size
        if size % 7 == 3:
            r.pad = '\u00e9\n\u20ac' * (size // 4)
        r.exc = None
        self.seq += 1
        r.sa = self.seq
        r.a = self.sim.t()
        txt = '<<%d.%dZ:' % (w, n) + r.pad + ':%d.%d>>' % (w, n)
        args = [txt] if nargs < 2 else [txt[:len(txt) // 2], txt[len(txt) // 2:]]
        kw = {'call_id': r.cid}
        if n % 6 == 4:
            r.cid, kw = 'GLOBAL', {}
        if lvl != 1:
            kw['level'] = lvl
        self.recs.append(r)
        self.sim.log('LOG', w, n)
        self.sim.mark('w%d' % w)
        try:
            self.log.write(*args, **kw)
        except Exception as e:
            r.exc = e
        self.seq += 1
        r.sb = self.seq
        r.b = self.sim.t()

    def writer(self, w, plan):
        for t, n, size, lvl, nargs in plan:
            d = t - self.sim.t()
            if d > 0:
                self.sim.sleep(d)
            if self.sim.stopping:
                return
            self.write(w, n, size, lvl, nargs)

    def rotate(self, how):
        self.fs.rename(PATH, PATH + '.%d' % len(self.rot))
        self.sim.log('ROTATE', how)
        self.sim.fault('rotation')
        self.sim.at(self.ch.choice('r.gap', (0.0, 0.0, 0.01, 0.5)), self._reopen, how, len(self.fs.inodes))

    def _reopen(self, how, nino):
        if self.shut is not None or self.log is None:
            return
        if how == 'signal':
            raise_signal(10)
            self.rot.append((self.sim.t() + 0.05 + self.stalled(self.sim.t() - 3, self.sim.t() + 5), None, nino))
        else:
            self.sim.spawn('rot', lambda: self._reopen2(nino))

    def _reopen2(self, nino):
        if self.shut is not None:
            return
        self.log.reopen()
        self.seq += 1
        self.rot.append((self.sim.t(), self.seq, nino))

    def shutdown(self):
        if self.shut is not None or self.log is None:
            return
        self.seq += 1
        self.shut_seq = self.seq
        self.shut = self.sim.t()
        self.sim.log('SHUT')
        self.log.shutdown()
        self.shut_done = self.sim.t()
        self.sim.log('SHUTDONE')
        self.alive_after = [t.name for t in self.mine if not t.done]
        self.handles_after = self.fs.handles
        self.sys_after = self.sysopen

    def plan(self):
        ch, sim = self.ch, self.sim
        nw = 1 + ch.pick('l.nw', 4)
        self.horizon = 8.0
        for w in range(nw):
            plan = []
            t = tm(ch, 'w.t0', (0.0, 0.0, 0.01, 1.0), 0.01)
            n = 0
            for b in range(1 + ch.pick('w.nb', 5)):
                k = 1 + ch.pick('w.k', 12)
                if ch.flip('w.burst', 0.12):
                    k = ch.choice('w.bk', (300, 900, 1100, 1600))
                sz = ch.choice('w.sz', (10, 0, 60, 300, 2000, 9000))
                for i in range(k):
                    lv = 1 if ch.pick('w.lv', 8) or k > 12 else ch.choice('w.lvv', (0, 2, 3, 4))
                    plan.append((t, n, sz if k <= 12 else min(sz, 60), lv, 1 if k > 12 else 1 + ch.pick('w.na', 2)))
                    n += 1
                    if k <= 12 and ch.flip('w.gap', 0.3):
                        t += ch.choice('w.gapd', (0.001, 0.05, 0.3))
                t += ch.choice('w.pause', (0.0, 0.01, 0.2, 1.0))
            if w == 0 and ch.flip('w.loop', 0.4):
                for p in plan:
                    self.onloop(p[0], self.write, 0, *p[1:])
            else:
                sim.spawn('writer%d' % w, lambda w=w, plan=plan: self.writer(w, plan))
        if not self.syslog:
            for i in range(ch.pick('l.nrot', 4)):
                t = ch.choice('l.rt', (0.01, 0.02, 0.3, 1.0, 2.0)) + ch.real('l.rtj', 0, 0.3)
                sim.at(t, self.rotate, ch.choice('l.rhow', ('reopen', 'signal')))
        if not sim.calm and ch.flip('l.full', 0.15):
            t = ch.real('l.fullt', 0.0, 2.0)
            self.full.append((t, t + ch.choice('l.fulld', (0.05, 0.5, 3.0))))
        if ch.flip('l.shut', 0.7):
            t = ch.choice('l.st', (0.02, 0.3, 1.0, 3.0, 6.0)) + ch.real('l.stj', 0, 0.1)
            if ch.flip('l.sth', 0.5):
                sim.at(t, lambda: sim.spawn('stopper', self.shutdown))
            else:
                self.onloop(t, self.shutdown)
        gen.stalls(sim, ch, 4.0, maxd=1.0)


HDR = re.compile(r'(\d\d:\d\d:\d\d\.\d{3}|\d\d [A-Z][a-z]{2} \d\d:\d\d:\d\d\.\d{3})/([^/\n]*)(/app)?: <<$')


def c26(w):
    c = w.crashed()
    if c:
        yield ('crash', c)
        return
    for n, tb in w.sim.dead_threads:
        yield ('thread-died', 'thread %s died: %s' % (n, tb[-600:]))
    end = max(w.exit_t, 0)
    # what is in the log: (inode, position of the start, time it was written, record key, text between the marks)
    by = dict(((r.w, r.n), r) for r in w.recs)
    found = {}
    order = []
    for ino in w.fs.inodes:
        text = bytes(ino.data).decode('utf-8', 'replace')
        offs = [o for t, o in ino.writes]
        bpos = 0
        cur = 0
        for m in re.finditer(r'<<(\d+)\.(\d+)Z:', text):
            bpos += len(text[cur:m.start()].encode('utf-8', 'replace'))
            cur = m.start()
            k = (int(m.group(1)), int(m.group(2)))
            i = bisect.bisect_right(offs, bpos)
            t = ino.writes[i][0] if i < len(ino.writes) else end
            r = by.get(k)
            if r is None:
                yield ('invented', 'record %s was never logged' % (k,))
                continue
            body = r.pad + ':%d.%d>>\n' % k
            whole = text.startswith(body, m.end())
            h = HDR.search(text, max(0, m.start() - 60), m.start() + 2)
            cidok = h is not None and h.group(2) == r.cid and h.group(3)
            order.append((ino.no, m.start(), t, k, whole, cidok))
    for i, (t, text) in enumerate(w.sys):
        m = re.search(r'<<(\d+)\.(\d+)Z:', text)
        if m is None:
            continue
        k = (int(m.group(1)), int(m.group(2)))
        r = by.get(k)
        if r is None:
            yield ('invented', 'record %s was never logged' % (k,))
            continue
        h = HDR.search(text[:m.start() + 2])
        order.append((0, i, t, k, text.endswith(r.pad + ':%d.%d>>\n' % k), h is not None and h.group(2) == r.cid))
    errs = w.errs

    def err(a, b):
        return any(a - 1e-9 <= t <= b + 1e-9 for t, op, e in errs)
    for j, (ino, pos, t, k, whole, cidok) in enumerate(order):
        r = by[k]
        if k in found:
            yield ('twice', 'record %s is in the log twice' % (k,))
            continue
        found[k] = (ino, pos, t)
        nt = order[j + 1][2] if j + 1 < len(order) else end
        if not whole and not err(r.a, nt):
            yield ('torn', 'record %s is not whole in the log' % (k,))
        if whole and not cidok and not err(0, nt):
            yield ('header', 'record %s carries a wrong header' % (k,))
        if r.lvl < {'DBUG': 0, 'INFO': 1, 'WARN': 2}[w.lvl]:
            yield ('below-level', 'record %s of level %d logged, level is %s' % (k, r.lvl, w.lvl))
    # in the order logged
    hi = None
    for ino, pos, t, k, whole, cidok in order:
        r = by[k]
        if hi is not None and r.sb < hi.sa:
            yield ('reordered', 'record %s logged before %s comes after it' % ((r.w, r.n), (hi.w, hi.n)))
            break
        if hi is None or r.sa > hi.sa:
            hi = r
    # nothing missing
    acc = [r for r in w.recs if r.exc is None and r.lvl >= {'DBUG': 0, 'INFO': 1, 'WARN': 2}[w.lvl] and hasattr(r, 'sb') and
           (w.shut_seq is None or r.sb < w.shut_seq)]
    for r in w.recs:
        if r.exc is not None:
            yield ('write-raised', 'logging record %s raised %r' % ((r.w, r.n), r.exc))
        elif getattr(r, 'b', r.a) > r.a + 1e-6 and not w.stalled(r.a - 1, r.b):
            yield ('writer-held-up', 'logging record %s took %.6f s' % ((r.w, r.n), r.b - r.a))
    if w.shut is None or w.shut_done is not None:
        live = [x for x in found]
        # survivors in order of acceptance
        surv = sorted([by[k] for k in found], key=lambda r: r.sb)
        sbs = [r.sb for r in surv]
        sas = sorted(r.sa for r in w.recs)
        for r in acc:
            k = (r.w, r.n)
            if k in found:
                continue
            i = bisect.bisect_left(sbs, r.sb)
            # the next survivor surely logged after it, and the one before
            nxt = None
            for s in surv[i:]:
                if s.sa > r.sb:
                    nxt = s
                    break
            prv = None
            for s in reversed(surv[:i]):
                if s.sb < r.sa:
                    prv = s
                    break
            tp = found[(prv.w, prv.n)][2] if prv is not None else 0.0
            tn = found[(nxt.w, nxt.n)][2] if nxt is not None else (w.shut_done if w.shut_done is not None else end)
            # (the one before may itself have been written late, out of the buffer)
            if err(tp if prv is None else prv.a, tn):
                continue
            # how many were logged after it before the next survivor went out
            after = sum(1 for x in w.recs if x.sa > r.sb and x.a <= tn)
            if after >= LIMIT - 6:
                continue
            if w.shut is None and nxt is None:
                # the logging thread may still be at it
                if w.sim.callq or r.a + 30 > end:
                    pass
            yield ('lost', 'record %s logged at %.3f is not in the log (%d logged after it until the next one written at %.3f)' % (k, r.a, after, tn))
            break
    # rotation
    for t, seq, nino in w.rot:
        if err(0, end) and any(op == 'open' for tt, op, e in errs):
            continue
        for k, (ino, pos, tw) in found.items():
            r = by[k]
            if ino < nino and ((seq is not None and r.sa > seq) or (seq is None and r.a > t)):
                yield ('old-file', 'record %s logged at %.3f, after the file was to be re-opened (%.3f), went to the old file' % (k, r.a, t))
                break
    if w.shut is not None:
        if w.shut_done is None:
            if w.shut + 30 < end or w.result == 'stop':
                yield ('shutdown-hangs', 'shutdown called at %.3f never returned (%s)' % (w.shut, w.result))
        else:
            if w.alive_after:
                yield ('thread-left', 'after shutdown still running: %s' % w.alive_after)
            if w.handles_after:
                yield ('file-left-open', '%d files still open after shutdown' % w.handles_after)
            if w.syslog and w.sys_after > 0 and not w.errs:
                yield ('file-left-open', 'syslog still open after shutdown')


def run(sim, ch, tier):
    gen.loop_knobs(sim, ch)
    w = LogWorld(sim, ch)
    if ch.flip('l.trace', 0.5) and not sim.calm:
        import sippy.SipLogger as M
        S.trace_files = (M.__file__,)
    import sys
    from . import seams
    tr = bool(S.trace_files)
    w.plan()
    if tr:
        sys.settrace(seams._tracer)
    try:
        w.start(120.0)
    finally:
        sys.settrace(None)
    return judge(w, [c26], {'records': len(w.recs), 'sample': {'syslog': w.syslog, 'level': w.lvl, 'rotations': len(w.rot), 'shutdown': w.shut,
                                                               'head': bytes(w.fs.inodes[0].data[:400]).decode('utf-8', 'replace') if w.fs.inodes else ''}})
