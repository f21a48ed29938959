"""C25 operator console."""
import errno
from sim import base, oracles, console
from sim.seams import S, AF_INET
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(ncalls=4, nroutes=2, gaps=(0.0, 0.02, 0.5, 3.0, 8.0), cancel=0.15, auth_d=(0.01, 0.1, 1.0, 5.0), b_talk=0.4,
            t_talk=(0.05, 1.0, 5.0, 20.0, 90.0), outcomes=(('answer', 8), ('reject', 2), ('noanswer', 1), ('silent', 1), ('slow', 1)),
            reject_auth=0.05, on_cancel=(('487', 6), ('200late', 1), ('ignore', 1)))
JUNK = (b'x', b'help', b'd', b'd a b', b'r', b'r 1 2 3', b'r x', b'r 1 y', b'l' * 5000, b'd nosuch@call', b'r 99999', b'r 99999 1', b'd None',
        b'r -1.5', b'D nosuch', b'\t', b'   ', b'r 1x 2', b'dd *', b'%s %d', b'll', b'd **', b'd call', b'd call1@10.1.0.', b'd call0@10.1.0', b'd all0@10.1.0.1', b'd CALL0@10.1.0.1', b'd call0@10.1.0.1-b2b_1')


def plan(ch, w, n):
    """actions of one console"""
    out = []
    k = 1 + ch.pick('con.n', 6)
    for i in range(k):
        d = ch.choice('con.d', (0.0, 0.001, 0.1, 1.0, 4.0, 15.0, 40.0))
        x = ch.weighted('con.k', (6, 6, 2, 2, 4, 1, 1, 1))
        if x == 0:
            out.append((d, 'cmd', ch.choice('con.l', (b'l', b'L', b'l now', b' l '))))
        elif x == 1:
            out.append((d, 'cmd', b'd call%d@10.1.0.%d' % ((lambda i: (i, 1 + i % 3))(ch.pick('con.c', 4)))))
        elif x == 2:
            out.append((d, 'cmd', b'd *'))
        elif x == 3:
            out.append((d, 'cmd', ch.choice('con.lt', (b'lt', b'llt'))))
        elif x == 4:
            out.append((d, 'cmd', ch.choice('con.j', JUNK)))
        elif x == 5:
            out.append((d, 'slow', ch.choice('con.s', (0.1, 5.0, 30.0))))
        elif x == 6:
            out.append((d, 'raw', ch.choice('con.r', (b'l\n' * 30, b'd nosuch', b'\n\n\n', b'\xff\xfe\n', b'l', b'caf\xc3\xa9\n'))))
        else:
            out.append((d, 'cmd', b'q'))
    x = ch.weighted('con.e', (3, 2, 2, 2, 2))
    d = ch.choice('con.ed', (0.0, 0.0, 0.001, 0.5, 5.0))
    if x:
        out.append((d,) + ((('half', None), ('close', None), ('reset', None), ('cmd', b'q'))[x - 1]))
    return out


def run(sim, ch, tier):
    tcp = ch.flip('con.tcp', 0.3)
    kw = {}
    path = '/simfs/b2bua.sock'
    if tcp:
        kw['opts'] = ['-c', 'tcp:10.0.0.1:12345']
        path = ('10.0.0.1', 12345)
    if ch.flip('con.trace', 0.3):
        import sippy.CLIManager as M
        S.trace_files = (M.__file__,)
    accf = ch.flip('con.accf', 0.25)

    def setup(w, ch):
        w.cli_r = None
        w.no_credit = True
        w.net.listeners = {}
        w.net.listen = lambda s: w.net.listeners.__setitem__(s.laddr, s)
        left = [2]

        def acked(A):
            return True
        w.acked = lambda A: bool([1 for a in A.attempts for e in a.acks if e.d == 'i'])
        if accf:
            def faults(sock, op):
                if op == 'accept' and left[0] and ch.flip('con.acc', 0.5):
                    left[0] -= 1
                    e = ch.choice('con.acce', (errno.ECONNABORTED, errno.EMFILE, errno.ENFILE, errno.EINTR, errno.ENOBUFS))
                    sim.fault('accept_error')
                    if e == errno.ECONNABORTED and sock.rx:
                        c = sock.rx.pop(0)[0]
                        c.peer.accepted = False
                        c.peer.gone = (0, 'aborted')
                    return OSError(e, 'injected')
            w.net.sock_faults = faults
        for n in range(1 + ch.pick('con.nn', 3)):
            t = 1.0 + ch.choice('con.t', (0.0, 0.5, 1.5, 4.0, 10.0, 30.0)) + ch.real('con.tj', 0.0, 1.0)
            c = console.Console(w, n, t, plan(ch, w, n), path, ch.flip('con.chunky', 0.4))
            c.accepted = True
        # one more, late and plain: the server still serves consoles
        c = console.Console(w, 9, 200.0, [(0.0, 'cmd', b'l'), (1.0, 'cmd', b'd nosuch@x'), (1.0, 'cmd', b'lt'), (1.0, 'close', None)], path, False)
        c.accepted = True
    return base.run_b2b(sim, ch, PROF, [console.c25, oracles.alive, oracles.c01, oracles.c02, oracles.c03], kw, setup, tail=300.0)
