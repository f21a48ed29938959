"""C09 every finished call gives back all it held."""
from sim import base, oracles, leaks, noise, gen, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}


def tweak(ch, c):
    h = []
    if ch.flip('k9.mf', 0.08):
        h.append(('max-forwards', ch.choice('k9.mfv', ('1', '0', '2'))))
    if h:
        c.caller['headers'] = h


PROF = dict(ebye=0.1, collide=0.5, ncalls=4, nroutes=3, cancel=0.35, expires_hdr=0.2, noack=0.1, nosdp=0.1, expires=0.3, np=0.2, nr=0.2, hs=0.15, challenge=0.15,
            reject_auth=0.1, auth_d=(0.01, 0.1, 1.0, 5.0), credit=0.15, gt=0.1, b_talk=0.5, reinv=2, reinv_kinds=('new', 'same', None), info=1,
            fof=0.1, silent_after=0.06, t_talk=(0.05, 1.0, 3.0, 10.0, 35.0),
            on_reinvite=((('ok', 0.05), 6), (('ok', 1.0), 2), (('rej', 0.05, 488), 2), (('none',), 1), (('prov', 0.5), 1), (('ok', 20.0), 1)),
            on_cancel=(('487', 5), ('200late', 2), ('ignore', 2), ('none', 1)), tweak=tweak,
            outcomes=(('answer', 6), ('reject', 3), ('noanswer', 2), ('silent', 1), ('redirect', 1), ('slow', 1)))


def c09(w):
    # requests that only look like part of a call (wrong tags) end nothing
    w.ev = [e for e in w.ev if not (e.m.branch or '').startswith('z9hG4bKnz')]
    w._view = None
    for x in oracles.c09(w):
        yield x


def run(sim, ch, tier):
    kw = dict(start_acct=ch.flip('c09.start', 0.3), acct=not ch.flip('c09.off', 0.2))
    if ch.flip('c09.noauth', 0.15):
        kw['static'], kw['auth'] = '10.2.0.1', False
    kw['opts'] = ['--alive_acct_int=7'] if ch.flip('c09.alive', 0.3) else []
    prof = gen.media_policy(ch, PROF, kw)
    prof, ex = extras.plan(sim, ch, prof, kw)
    nz = ch.choice('c09.nz', (0, 0, 0, 1, 3, 10))

    def setup(w, ch):
        leaks.hook_gc_stats(w)
        if ex is not None:
            ex(w, ch)
        if nz:
            # what malformed, stray and replayed messages leave behind
            sim.at(ch.choice('nz.t0', (0.95, 1.0, 2.0)), lambda: setattr(w, 'noise', noise.Noise(w, nz, 60.0, own=True)))
    return base.run_b2b(sim, ch, prof, [c09, oracles.alive], kw, setup, tail=1100.0)
