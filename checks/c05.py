"""C05 accounting is exactly-once per call and per outbound leg."""
from sim import base, oracles, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(ebye=0.1, nosdp=0.08, ncalls=4, nroutes=3, cancel=0.35, expires_hdr=0.2, noack=0.08, expires=0.25, np=0.2, nr=0.2,
            hs=0.2, challenge=0.1, reject_auth=0.15, auth_d=(0.01, 0.1, 1.0, 4.0), credit=0.2, b_talk=0.5, reinv=1, fof=0.1,
            t_talk=(0.05, 1.0, 3.0, 10.0, 35.0), silent_after=0.03, on_cancel=(('487', 5), ('200late', 3), ('ignore', 2)),
            outcomes=(('answer', 7), ('reject', 3), ('noanswer', 1), ('silent', 1), ('redirect', 1), ('slow', 1)))


def run(sim, ch, tier):
    kw = dict(start_acct=ch.flip('c05.start', 0.5), acct=not ch.flip('c05.off', 0.05))
    if ch.flip('c05.noauth', 0.1):
        kw['static'], kw['auth'] = '10.2.0.1', False
    kw['radius_workers'] = 1 + ch.pick('kn.rw', 3)
    kw['opts'] = ['--alive_acct_int=7'] if ch.flip('c05.alive', 0.3) else []

    def setup(w, ch):
        if ex is not None:
            ex(w, ch)
        w.acct_delay = ch.choice('c05.ad', (0.01, 0.0, 0.3, 2.0))
        mode = ch.pick('c05.acctrc', 3)
        if mode:
            def hook(child, rec):
                if rec['kind'] == 'AUTH':
                    return False
                # the backend refuses or garbles its answer to accounting: the record was still delivered
                sim.at(w.acct_delay, child.reply, (b'1\n\n', b"Reply-Message = 'x'\nfoo\n2\n\n")[mode - 1])
                return True
            w.radius_hook = hook
    prof, ex = extras.plan(sim, ch, PROF, kw)
    return base.run_b2b(sim, ch, prof, [oracles.c05, oracles.alive], kw, setup)
