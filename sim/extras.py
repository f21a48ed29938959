"""One further thing going on in a run of the whole B2BUA, so that calls also
end, and are delayed, for reasons other than what their parties do: an
administrator (console commands, SIGHUP), keep-alives, a media relay; or phones
behind NATs, with and without the server minding them."""
import signal
from . import base, console, relay

KINDS = ('hup', 'console', 'keepalive', 'relay', 'nat')


def plan(sim, ch, prof, kw, kinds=KINDS, p=0.3):
    """Returns (prof, setup) with one extra, or none. Call after everything
    else of the run has been decided but before base.run_b2b()."""
    if not ch.flip('ex', p):
        return prof, None
    k = ch.choice('ex.k', kinds)
    sim.mark('ex-' + k)
    prof = dict(prof)
    t0 = prof.get('t0', 1.0)
    if k == 'hup':
        def setup(w, ch):
            for i in range(1 + ch.pick('ex.n', 2)):
                sim.at(t0 + ch.real('ex.hup', 0.0, 40.0), w.signal, signal.SIGHUP)
        return prof, setup
    if k == 'console':
        def setup(w, ch):
            w.cli_r = None
            w.net.listeners = {}
            w.net.listen = lambda s: w.net.listeners.__setitem__(s.laddr, s)
            acts = []
            for i in range(1 + ch.pick('ex.n', 3)):
                c = ch.pick('ex.c', 5)
                acts.append((ch.choice('ex.d', (0.0, 0.3, 1.0, 4.0, 15.0)), 'cmd', b'd *' if c == 4 else b'd call%d@10.1.0.%d' % (c, 1 + c % 3)))
            acts.append((1.0, 'close', None))
            c = console.Console(w, 0, t0 + ch.real('ex.con', 0.0, 20.0), acts, '/simfs/b2bua.sock', False)
            c.accepted = True
        return prof, setup
    if k == 'keepalive':
        kw['opts'] = kw.get('opts', []) + ['-k', ch.choice('ex.ka', ('1', '2', '3'))]
        prof['t_talk'] = (5.0, 30.0, 40.0, 70.0, 120.0)
        prof['silent_after'] = max(0.1, prof.get('silent_after', 0))
        return prof, None
    if k == 'nat':
        prof['nat'] = ch.choice('ex.nat', ('rport', 'full', 'full'))
        if prof['nat'] == 'full':
            kw['opts'] = kw.get('opts', []) + ['--nat_traversal=on']
        return prof, None
    prof['t0'] = max(3.0, t0)
    horizon = 45.0

    def setup(w, ch):
        relay.attach(w, ch)
        relay.faults(w, ch, prof['t0'], horizon)
    return prof, setup
