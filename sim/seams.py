"""The seams: every source of nondeterminism of the process is replaced here,
before any sippy module is imported. With no Sim attached (S.sim is None) the
replacements behave as inert stand-ins, good enough for importing modules."""
import sys, os, io
import time as _time, random as _random, select as _select, signal as _signal
import socket as _socket, threading as _threading, queue as _queue
import subprocess as _subprocess, fcntl as _fcntl, builtins as _builtins, errno
import _thread

from .core import NS, SimStop

REPO = os.environ.get('VERIF_REPO', '/repo')


class S:
    """Process-wide simulator state."""
    sim = None
    rng = _random.Random(0)
    out = None
    net = None            # object with .udp_send, .dgram sockets etc.
    popen = None          # factory(argv) -> child model
    fs = None             # SimFS
    signals = {}
    execs = []
    trace_files = ()
    dns = None            # callable(host) -> ip or raises


# originals the harness may use
orig = dict(time=_time.time, monotonic=_time.monotonic, sleep=_time.sleep, open=_builtins.open,
            perf_counter=_time.perf_counter, stdout=sys.stdout, stderr=sys.stderr,
            urandom=os.urandom, read=os.read, write=os.write, close=os.close, pipe=os.pipe,
            remove=os.remove, Thread=_threading.Thread, Lock=_threading.Lock, socket=_socket.socket,
            Popen=_subprocess.Popen, start_new_thread=_thread.start_new_thread)


# -- clocks -------------------------------------------------------------
def _mono_ns():
    s = S.sim
    return s.now if s is not None else 1000 * NS


def _wall_ns():
    s = S.sim
    return s.now + s.wall_off if s is not None else 1700000000 * NS


def _sim_sleep(secs):
    s = S.sim
    if s is None:
        return
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    s.sleep(secs)


def _clock_gettime_ns(clk):
    return _wall_ns() if clk == 0 else _mono_ns()


# -- randomness ---------------------------------------------------------
def _urandom(n):
    return S.rng.randbytes(n)


# -- ElPeriodic ---------------------------------------------------------
class SimElp(object):
    def __init__(self, freq=100.0, *a):
        self.freq = freq
        self.nbands = 1

    def procrastinate(self):
        S.sim.procrastinate()

    def call_from_thread(self, fn, *args):
        s = S.sim
        s.maybe_switch()
        s.post(fn, *args)
        s.maybe_switch()

    def addband(self, freq):
        self.nbands += 1
        return self.nbands - 1

    def useband(self, n):
        pass

    def CFT_enable(self, signum):
        pass

    def __getattr__(self, name):
        raise AttributeError('SimElp: %s' % name)


# -- locks --------------------------------------------------------------
class SimLock(object):
    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = S.sim
        if s is None:
            if self._locked:
                return False
            self._locked = True
            return True
        s.maybe_switch()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + int(timeout * NS)
        while self._locked:
            me = s.cur
            self._waiters.append(me)
            if deadline is None:
                s.wait('lock')
            else:
                if not s.wait_timeout('lock', (deadline - s.now) / NS):
                    if me in self._waiters:
                        self._waiters.remove(me)
                    if self._locked:
                        return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s = S.sim
        if s is None:
            return
        w, self._waiters = self._waiters, []
        for t in w:
            s.wake(t)
        s.maybe_switch()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


class SimRLock(object):
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _me(self):
        s = S.sim
        return 'main' if s is None else id(s.cur)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._block.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        self._block.release()
        return c

    def _acquire_restore(self, c):
        self._block.acquire()
        self._count = c
        self._owner = self._me()

    def _is_owned(self):
        return self._owner == self._me()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimCondition(object):
    def __init__(self, lock=None):
        if lock is None:
            lock = SimRLock()
        self._lock = lock
        self.acquire = lock.acquire
        self.release = lock.release
        self._cw = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def _owned(self):
        if hasattr(self._lock, '_is_owned'):
            return self._lock._is_owned()
        return self._lock.locked()

    def wait(self, timeout=None):
        if not self._owned():
            raise RuntimeError('cannot wait on un-acquired lock')
        s = S.sim
        cell = [s.cur, False]
        self._cw.append(cell)
        if hasattr(self._lock, '_release_save'):
            saved = self._lock._release_save()
        else:
            saved = None
            self._lock.release()
        # a notify may already have happened inside release()
        deadline = None if timeout is None else s.now + int(timeout * NS)
        ok = True
        while not cell[1]:
            if deadline is None:
                s.wait('cond')
            elif not s.wait_timeout('cond', (deadline - s.now) / NS):
                if not cell[1]:
                    ok = False
                    if cell in self._cw:
                        self._cw.remove(cell)
                    break
        if saved is not None:
            self._lock._acquire_restore(saved)
        else:
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        s = S.sim
        end = None if timeout is None else s.now + int(timeout * NS)
        r = predicate()
        while not r:
            if end is not None:
                left = (end - s.now) / NS
                if left <= 0:
                    break
                self.wait(left)
            else:
                self.wait()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._owned():
            raise RuntimeError('cannot notify on un-acquired lock')
        s = S.sim
        while n > 0 and self._cw:
            cell = self._cw.pop(0)
            cell[1] = True
            n -= 1
            if s is not None and cell[0].blocked == 'cond':
                s.wake(cell[0])

    def notify_all(self):
        self.notify(len(self._cw))

    notifyAll = notify_all


class SimEvent(object):
    def __init__(self):
        self._cond = SimCondition(SimLock())
        self._flag = False

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            f = self._flag
            if not f:
                f = self._cond.wait(timeout)
            return f


class SimSemaphore(object):
    def __init__(self, value=1):
        self._cond = SimCondition(SimLock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._value == 0:
                if not blocking:
                    return False
                if not self._cond.wait(timeout) and timeout is not None:
                    return False
            self._value -= 1
            return True
    __enter__ = acquire

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __exit__(self, *a):
        self.release()


# -- threads ------------------------------------------------------------
class SimThread(object):
    _n = 0
    daemon = False
    name = None
    ident = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        if name is not None:
            self.name = name
        else:
            self.name = '%s-%d' % (type(self).__name__, SimThread._n)
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        if daemon is not None:
            self.daemon = daemon
        self._t = None
        self._started_ = False

    def setDaemon(self, v):
        self.daemon = v

    def setName(self, n):
        self.name = n

    def getName(self):
        return self.name

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = S.sim
        if self._started_:
            raise RuntimeError('threads can only be started once')
        self._started_ = True
        if s is None:
            raise RuntimeError('thread started outside a simulation')
        self._t = s.spawn(self.name, self._boot)
        self.ident = id(self._t)
        s.maybe_switch()

    def _boot(self):
        if S.trace_files:
            sys.settrace(_tracer)
        try:
            self.run()
        finally:
            sys.settrace(None)

    def is_alive(self):
        return self._started_ and not self._t.done
    isAlive = is_alive

    def join(self, timeout=None):
        if not self._started_:
            raise RuntimeError('cannot join thread before it is started')
        s = S.sim
        if self._t is s.cur:
            raise RuntimeError('cannot join current thread')
        end = None if timeout is None else s.now + int(max(timeout, 0) * NS)
        while not self._t.done:
            self._t.joiners.append(s.cur)
            if end is None:
                s.wait('join:' + self.name)
            else:
                if not s.wait_timeout('join', (end - s.now) / NS):
                    return


def _tracer(frame, event, arg):
    if frame.f_code.co_filename in S.trace_files:
        return _tracer_l
    return None


def _tracer_l(frame, event, arg):
    if event == 'line' and S.sim is not None:
        S.sim.maybe_switch()
    return _tracer_l


# -- stdout -------------------------------------------------------------
class Capture(io.TextIOBase):
    def __init__(self):
        self.buf = []
        self.size = 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not ' + type(s).__name__)
        if self.size < 4000000:
            self.buf.append(s)
            self.size += len(s)
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        return 1

    def text(self):
        return ''.join(self.buf)

    def reset(self):
        self.buf = []
        self.size = 0


# -- file system / pipes --------------------------------------------------
SIMFS = '/simfs/'
FD0 = 1000000


class SimPipe(object):
    def __init__(self):
        self.buf = b''
        self.rclosed = self.wclosed = False
        self.watch = []


class FDTab(object):
    def __init__(self):
        self.tab = {}
        self.next = FD0

    def add(self, obj):
        fd = self.next
        self.next += 1
        self.tab[fd] = obj
        return fd


def _notify(obj):
    w, obj.watch = obj.watch, []
    for t in w:
        S.sim.wake_if(t)


def _sim_pipe():
    if S.sim is None:
        return orig['pipe']()
    p = SimPipe()
    return (S.sim.fds.add((p, 'r')), S.sim.fds.add((p, 'w')))


def _sim_read(fd, n):
    if fd < FD0:
        return orig['read'](fd, n)
    e = S.sim.fds.tab.get(fd)
    if e is None:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    p = e[0]
    while not p.buf and not p.wclosed:
        p.watch.append(S.sim.wake_token())
        S.sim.wait('pipe-read')
    d, p.buf = p.buf[:n], p.buf[n:]
    return d


def _sim_write(fd, data):
    if fd < FD0:
        return orig['write'](fd, data)
    e = S.sim.fds.tab.get(fd)
    if e is None:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    p = e[0]
    if p.rclosed:
        raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
    p.buf += bytes(data)
    _notify(p)
    S.sim.maybe_switch()
    return len(data)


def _sim_close(fd):
    if fd < FD0:
        return orig['close'](fd)
    e = S.sim.fds.tab.pop(fd, None)
    if e is None:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    if isinstance(e, tuple):
        p, m = e
        if m == 'r':
            p.rclosed = True
        else:
            p.wclosed = True
        _notify(p)


def _sim_remove(path):
    if isinstance(path, str) and path.startswith(SIMFS):
        S.sim.unix.pop(path, None)
        if path in S.sim.unix_files:
            S.sim.unix_files.discard(path)
            return
        raise FileNotFoundError(errno.ENOENT, 'No such file', path)
    return orig['remove'](path)


class SimPoll(object):
    def __init__(self):
        self.fds = {}

    def register(self, fd, mask=1 | 2 | 4):
        self.fds[fd if isinstance(fd, int) else fd.fileno()] = mask

    def unregister(self, fd):
        del self.fds[fd if isinstance(fd, int) else fd.fileno()]

    def modify(self, fd, mask):
        self.fds[fd if isinstance(fd, int) else fd.fileno()] = mask

    def _scan(self):
        out = []
        for fd, m in self.fds.items():
            e = S.sim.fds.tab.get(fd)
            if e is None:
                out.append((fd, _select.POLLNVAL))
                continue
            r = 0
            if isinstance(e, tuple):
                p, mode = e
                if mode == 'r' and (p.buf or p.wclosed):
                    r |= _select.POLLIN
                if mode == 'w':
                    r |= _select.POLLOUT
            else:
                if e.readable():
                    r |= _select.POLLIN
                if e.writable():
                    r |= _select.POLLOUT
            r &= m | _select.POLLHUP | _select.POLLERR
            if r:
                out.append((fd, r))
        return out

    def poll(self, timeout=None):
        s = S.sim
        s.maybe_switch()
        end = None if timeout is None or timeout < 0 else s.now + int(timeout * 1000000)
        while True:
            r = self._scan()
            if r or (end is not None and s.now >= end):
                return r
            tok = s.wake_token()
            for fd in self.fds:
                e = s.fds.tab.get(fd)
                if e is not None:
                    (e[0] if isinstance(e, tuple) else e).watch.append(tok)
            if end is None:
                s.wait('poll')
            else:
                s.wait_timeout('poll', (end - s.now) / NS)


# -- sockets -------------------------------------------------------------
AF_INET, AF_INET6, AF_UNIX = _socket.AF_INET, _socket.AF_INET6, _socket.AF_UNIX


class SimSocket(object):
    """UDP and stream sockets of the code under test. The far ends live in the
    harness: UDP datagrams go to S.net.udp_send(src, dst, data); stream peers
    are SimStreamPeer objects."""

    def __init__(self, family=AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.family = family
        self.type = type
        self.proto = proto
        self.laddr = None
        self.raddr = None
        self.rx = []
        self.closed = False
        self.shut = False
        self.listening = False
        self.watch = []
        self.opts = {}
        self.peer = None
        self.rbuf = b''
        self.reof = False
        self.rerr = None
        self.timeout = None
        self.fd = None
        if S.sim is not None:
            self.fd = S.sim.fds.add(self)
            S.sim.sockets.append(self)
            if S.net is not None:
                S.net.socket_created(self)

    # generic
    def fileno(self):
        return self.fd if not self.closed else -1

    def setsockopt(self, *a):
        self.opts[a[:2]] = a[2]

    def getsockopt(self, *a):
        return self.opts.get(a[:2], 0)

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, b):
        self.timeout = None if b else 0

    def gettimeout(self):
        return self.timeout

    def getsockname(self):
        if self.laddr is None:
            if self.family == AF_INET6:
                return ('::', 0, 0, 0)
            return ('0.0.0.0', 0)
        return self.laddr

    def getpeername(self):
        return self.raddr

    def readable(self):
        return bool(self.rx) or bool(self.rbuf) or self.reof or self.rerr is not None

    def writable(self):
        return True

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def _fault(self, op):
        if S.net is not None:
            e = S.net.sock_fault(self, op)
            if e is not None:
                raise e

    # setup
    def bind(self, addr):
        self._check()
        if self.family == AF_UNIX:
            if S.sim is not None:
                if addr in S.sim.unix_files:
                    raise OSError(errno.EADDRINUSE, 'Address already in use')
                S.sim.unix_files.add(addr)
                S.sim.unix[addr] = self
            self.laddr = addr
            return
        if S.net is not None:
            addr = S.net.bind(self, addr)
        self.laddr = addr

    def connect(self, addr):
        self._check()
        if self.type == _socket.SOCK_DGRAM:
            self.raddr = addr
            if self.laddr is None and S.net is not None:
                self.laddr = S.net.local_for(self, addr)
            return
        s = S.sim
        s.maybe_switch()
        self._fault('connect')
        S.net.stream_connect(self, addr)      # may raise, may block
        self.raddr = addr

    def listen(self, n=16):
        self._check()
        self.listening = True
        if self.family != AF_UNIX and S.net is not None:
            S.net.listen(self)

    def accept(self):
        s = S.sim
        self._check()
        self._fault('accept')
        while not self.rx:
            if self.closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if self.shut:
                raise OSError(errno.EINVAL, 'Invalid argument')
            self.watch.append(s.wake_token())
            s.wait('accept')
        c, addr = self.rx.pop(0)
        return c, addr

    # datagrams
    def sendto(self, data, *a):
        addr = a[-1]
        s = S.sim
        s.maybe_switch()
        self._check()
        self._fault('sendto')
        if self.shut:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if not 0 <= addr[1] <= 65535:
            raise OverflowError('sendto(): port must be 0-65535.')
        if self.laddr is None:
            self.laddr = S.net.bind(self, ('0.0.0.0', 0))
        S.net.udp_send(self, addr, bytes(data))
        return len(data)

    def recvfrom(self, n, *a):
        s = S.sim
        self._check()
        self._fault('recvfrom')
        end = None if self.timeout is None else s.now + int(self.timeout * NS)
        while not self.rx:
            if self.closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if self.shut:
                return (b'', None)
            self.watch.append(s.wake_token())
            if end is None:
                s.wait('recvfrom')
            elif not s.wait_timeout('recvfrom', (end - s.now) / NS):
                raise _socket.timeout('timed out')
            if self.rerr is not None:
                e, self.rerr = self.rerr, None
                raise e
        d, addr = self.rx.pop(0)
        return d[:n] if len(d) > n else d, addr

    def deliver(self, data, addr):
        """(harness) one datagram arrives"""
        if self.closed or self.shut:
            return
        self.rx.append((data, addr))
        _notify(self)

    # streams
    def send(self, data, *a):
        s = S.sim
        s.maybe_switch()
        self._check()
        self._fault('send')
        if self.type == _socket.SOCK_DGRAM:
            return self.sendto(data, self.raddr)
        if self.shut:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        return self.peer.on_send(self, bytes(data))

    def sendall(self, data, *a):
        data = bytes(data)
        while data:
            n = self.send(data)
            data = data[n:]

    def recv(self, n, *a):
        s = S.sim
        self._check()
        self._fault('recv')
        if self.type == _socket.SOCK_DGRAM:
            return self.recvfrom(n)[0]
        end = None if self.timeout is None else s.now + int(self.timeout * NS)
        while not self.rbuf:
            if self.rerr is not None:
                e, self.rerr = self.rerr, None
                raise e
            if self.closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if self.reof or self.shut:
                return b''
            self.watch.append(s.wake_token())
            if end is None:
                s.wait('recv')
            elif not s.wait_timeout('recv', (end - s.now) / NS):
                raise _socket.timeout('timed out')
        k = n
        if S.net is not None:
            k = S.net.recv_chunk(self, min(n, len(self.rbuf)))
        d, self.rbuf = self.rbuf[:k], self.rbuf[k:]
        return d

    def feed(self, data):
        """(harness) stream bytes arrive"""
        self.rbuf += data
        _notify(self)

    def feed_eof(self, err=None):
        if err is not None:
            self.rerr = err
        self.reof = True
        _notify(self)

    def shutdown(self, how):
        self._check()
        if self.type != _socket.SOCK_DGRAM and self.peer is None and not self.listening:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self.shut = True
        _notify(self)
        if self.peer is not None:
            self.peer.on_close(self)
        if self.type == _socket.SOCK_DGRAM and self.raddr is None:
            # Linux reports ENOTCONN for an unconnected UDP socket, but wakes
            # blocked receivers all the same
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')

    def close(self):
        if self.closed:
            return
        self.closed = True
        if S.sim is not None and self.fd is not None:
            S.sim.fds.tab.pop(self.fd, None)
        if S.net is not None:
            S.net.socket_closed(self)
        _notify_opt(self)
        if self.peer is not None:
            self.peer.on_close(self)

    def detach(self):
        return self.fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _notify_opt(obj):
    if S.sim is not None:
        _notify(obj)


def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    s = S.sim
    ip = host
    if S.dns is not None:
        ip = S.dns(host)
    elif host is None:
        ip = '0.0.0.0'
    else:
        import ipaddress
        try:
            ipaddress.ip_address(host)
        except ValueError:
            if host == 'localhost':
                ip = '127.0.0.1'
            else:
                raise _socket.gaierror(_socket.EAI_NONAME, 'Name or service not known')
    p = 0 if port is None else port
    v6 = ':' in ip
    if v6 and family == AF_INET or not v6 and family == AF_INET6:
        raise _socket.gaierror(_socket.EAI_ADDRFAMILY, 'Address family for hostname not supported')
    if v6:
        return [(AF_INET6, type or 1, proto, '', (ip, p, 0, 0))]
    return [(AF_INET, type or 1, proto, '', (ip, p))]


# -- helper processes ------------------------------------------------------
class _ChildIn(object):
    def __init__(self, p):
        self.p = p
        self.closed = False
        self.b = b''

    def write(self, data):
        self.b += bytes(data)
        return len(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        S.sim.maybe_switch()
        b, self.b = self.b, b''
        if self.p.child.dead or self.closed:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.p.child.on_input(b)
        S.sim.maybe_switch()

    def close(self):
        if not self.closed:
            self.closed = True
            if not self.p.child.dead:
                self.p.child.on_stdin_closed()


class _ChildOut(object):
    def __init__(self, p):
        self.p = p
        self.buf = b''
        self.eof = False
        self.watch = []
        self.closed = False
        self.err = None

    def _wait(self):
        self.watch.append(S.sim.wake_token())
        S.sim.wait('child-read')

    def readline(self, *a):
        S.sim.maybe_switch()
        while True:
            if self.err is not None:
                e, self.err = self.err, None
                raise e
            i = self.buf.find(b'\n')
            if i >= 0:
                l, self.buf = self.buf[:i + 1], self.buf[i + 1:]
                return l
            if self.eof:
                l, self.buf = self.buf, b''
                return l
            self._wait()

    def read(self, n=-1):
        while True:
            if self.eof or (n >= 0 and len(self.buf) >= n):
                if n < 0:
                    n = len(self.buf)
                l, self.buf = self.buf[:n], self.buf[n:]
                return l
            self._wait()

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def close(self):
        self.closed = True

    def feed(self, b):
        self.buf += b
        _notify(self)

    def feed_eof(self):
        self.eof = True
        _notify(self)


class _Pipes(object):
    """What harness and process share of one child (no reference to the
    process's Popen object, whose disposal closes the pipes)."""

    def __init__(self, kw):
        self.kw = kw
        self.stdin = _ChildIn(self)
        self.stdout = _ChildOut(self)
        self.stderr = _ChildOut(self)
        self.child = None
        self.watch = []

    def _exited(self, rc):
        self.stdout.feed_eof()
        self.stderr.feed_eof()
        _notify(self)


class SimPopen(object):
    _pid = 5000

    def __new__(cls, args, *a, **kw):
        if S.sim is None:
            # import time of some module (ctypes.util): no simulation yet
            return orig['Popen'](args, *a, **kw)
        return object.__new__(cls)

    def __init__(self, args, *a, **kw):
        if S.sim is None or S.popen is None:
            raise RuntimeError('Popen outside a simulation: %r' % (args,))
        S.sim.maybe_switch()
        SimPopen._pid += 1
        self.pid = SimPopen._pid
        self.args = args
        self.returncode = None
        c = self.core = _Pipes(kw)
        self.child = c.child = S.popen(c, args)
        self.stdin, self.stdout = c.stdin, c.stdout
        self.stderr = c.stderr if kw.get('stderr') == -1 else None

    def __del__(self):
        # the last reference goes: its pipe ends are closed
        try:
            if S.sim is not None and not S.sim.stopping:
                self.stdin.close()
        except Exception:
            pass

    def poll(self):
        if self.child.dead:
            self.returncode = self.child.rc
        return self.returncode

    def wait(self, timeout=None):
        s = S.sim
        end = None if timeout is None else s.now + int(timeout * NS)
        while not self.child.dead:
            self.core.watch.append(s.wake_token())
            if end is None:
                s.wait('waitpid')
            elif not s.wait_timeout('waitpid', (end - s.now) / NS):
                raise _subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self.child.rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if input:
            self.stdin.write(input)
            self.stdin.flush()
        self.stdin.close()
        out = self.stdout.read()
        self.wait()
        return out, b''

    def kill(self):
        if not self.child.dead:
            self.child.die(-9)

    def terminate(self):
        if not self.child.dead:
            self.child.die(-15)

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stdin.close()
        self.wait()


class ChildModel(object):
    """Base of simulated helper processes (lives in the harness)."""

    def __init__(self, popen, args):
        self.popen = popen
        self.args = args
        self.dead = False
        self.rc = None
        self.inbuf = b''

    def on_input(self, b):
        self.inbuf += b
        while b'\n' in self.inbuf:
            l, self.inbuf = self.inbuf.split(b'\n', 1)
            self.on_line(l)
            if self.dead:
                return

    def on_line(self, line):
        pass

    def on_stdin_closed(self):
        self.die(0)

    def emit(self, b):
        if not self.dead:
            self.popen.stdout.feed(b)

    def die(self, rc=1):
        if not self.dead:
            self.dead = True
            self.rc = rc
            self.popen._exited(rc)


# -- signals -------------------------------------------------------------
def _sim_signal(signum, handler):
    prev = S.signals.get(signum, _signal.SIG_DFL)
    S.signals[signum] = handler
    return prev


def raise_signal(signum):
    """(harness) deliver a signal to the process, in the main thread."""
    h = S.signals.get(signum)
    if callable(h):
        h(signum, None)


class SimExec(BaseException):
    pass


def _sim_execv(path, argv):
    S.execs.append((path, list(argv)))
    raise SimExec('execv')


# -- files under /simfs ----------------------------------------------------
def _sim_open(file, mode='r', *a, **kw):
    if isinstance(file, str) and file.startswith(SIMFS) and S.sim is not None:
        return S.fs.open(file, mode, *a, **kw)
    return orig['open'](file, mode, *a, **kw)


def _sim_flock(f, op):
    if hasattr(f, '_simfile'):
        return f.flock(op)
    return _fcntl_flock(f, op)


_fcntl_flock = _fcntl.flock
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    os.environ['TZ'] = 'UTC'
    _time.tzset()
    sys.argv = ['b2bua']
    S.out = Capture()
    sys.stdout = sys.__stdout__ = S.out
    # stderr is kept for harness diagnostics; sippy's stderr logger uses sys.__stderr__
    sys.__stderr__ = S.out
    _time.time = lambda: _wall_ns() / NS
    _time.monotonic = lambda: _mono_ns() / NS
    _time.perf_counter = lambda: _mono_ns() / NS
    _time.time_ns = _wall_ns
    _time.monotonic_ns = _mono_ns
    _time.perf_counter_ns = _mono_ns
    _time.sleep = _sim_sleep
    _time.clock_gettime = lambda c: _clock_gettime_ns(c) / NS
    _time.clock_gettime_ns = _clock_gettime_ns
    os.urandom = _urandom
    _random._urandom = _urandom
    os.pipe, os.read, os.write, os.close = _sim_pipe, _sim_read, _sim_write, _sim_close
    os.remove = os.unlink = _sim_remove
    os.execv = _sim_execv
    _select.poll = SimPoll
    _signal.signal = _sim_signal
    _fcntl.flock = _sim_flock
    _builtins.open = _sim_open
    _threading.Lock = _threading._allocate_lock = SimLock
    _threading.RLock = SimRLock
    _threading.Condition = SimCondition
    _threading.Event = SimEvent
    _threading.Semaphore = SimSemaphore
    _threading.BoundedSemaphore = SimSemaphore
    _threading.Thread = SimThread
    _queue.time = lambda: _mono_ns() / NS
    _queue.SimpleQueue = _queue.Queue
    _socket.socket = SimSocket
    _socket.getaddrinfo = _getaddrinfo
    _socket.gethostbyname = lambda h: _getaddrinfo(h, None)[0][4][0]
    _socket.gethostname = lambda: 'b2bua.sim'
    _socket.has_ipv6 = False
    _subprocess.Popen = SimPopen
    import elperiodic.ElPeriodic as _E
    _E.ElPeriodic = SimElp
    sys.path.insert(0, REPO)
    import sippy.Time.clock_dtime as cd
    # the monotonic clock id is whatever the module chose; 0 is CLOCK_REALTIME
    def clock_gettime(clk, tsp):
        ts = tsp.contents if hasattr(tsp, 'contents') else tsp
        ns = _wall_ns() if clk == 0 else _mono_ns()
        ts.tv_sec = ns // NS
        ts.tv_nsec = ns % NS
        return 0
    cd.clock_gettime = clock_gettime


def attach(sim, seed):
    """Bind a fresh Sim to the process (in the forked child)."""
    S.sim = sim
    sim.fds = FDTab()
    sim.sockets = []
    sim.children = []
    sim.unix = {}
    sim.unix_files = set()
    S.rng = _random.Random('urandom/%s' % seed)
    _random.seed('random/%s' % seed)
    S.signals = {}
    S.execs = []
    S.out.reset()
    from sippy.Core import EventDispatcher as ED
    from sippy.Time import MonoTime as MT
    ed = ED.ED2
    # state the module created at import time is re-created under the run's clock
    MT.MonoTime.globals = MT.MonoGlobals()
    ed.tlisteners = []
    ed.signals_pending = []
    ed.slisteners = []
    ed.twasted = 0
    ed.last_ts = MT.MonoTime()
    ed.my_ident = _thread.get_ident()
    sim.next_timer = make_next_timer(ed, sim)
    return ed


def make_next_timer(ed, sim):
    def nt():
        try:
            h = ed.tlisteners
            if len(ed.signals_pending):
                return sim.now
            if not h:
                return None
            el = h[0]
            if el.cb_func is None:
                return sim.now
            # the dispatcher fires once its clock has reached etime; allow for
            # float rounding by aiming a microsecond past it
            return int(el.etime.monot * NS) + 1000
        except AttributeError:
            return sim.now + 10000000
    return nt
