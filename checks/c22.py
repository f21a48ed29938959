"""C22 media relay sessions follow the call and are always released."""
from sim import base, oracles, relay
from checks.c01 import preload  # noqa

RUNS = {'quick': 1200, 'thorough': 20000}
PROF = dict(ncalls=4, nroutes=3, gaps=(0.0, 0.02, 0.5, 3.0, 8.0), cancel=0.25, auth_d=(0.01, 0.1, 1.0), b_talk=0.5,
            t_talk=(0.05, 1.0, 5.0, 20.0), a_stays=0.1, reinv=2, info=2, nosdp=0.12, expires=0.1, np=0.1, reject_auth=0.05, t0=3.0,
            on_reinvite=((('ok', 0.05), 6), (('ok', 1.0), 2), (('rej', 0.05, 488), 2)), credit=0.1, credit_v=(20, 5, 60),
            outcomes=(('answer', 8), ('reject', 3), ('noanswer', 1), ('silent', 1), ('redirect', 1), ('slow', 1)),
            on_cancel=(('487', 6), ('200late', 2), ('ignore', 1)))


# further media of a description, relayed or not
MEDIA = ('m=video 20012 RTP/AVP 34\r\n', 'm=image 20010 udptl t38\r\n', 'm=audio 0 RTP/AVP 0\r\n', 'm=application 20016 TCP/BFCP *\r\n',
         'm=audio 20014 RTP/SAVP 0\r\nc=IN IP4 10.7.7.7\r\n', 'm=video 20018 RTP/AVPF 34\r\nm=application 20020 UDP/BFCP *\r\n')


def tweak(ch, c):
    for k, plan in [('a', c.caller)] + [('b%d' % i, r[2]) for i, r in enumerate(c.routes)]:
        if ch.flip('rl.m%d%s' % (c.n, k), 0.25):
            plan['sdpm'] = ch.choice('rl.mm%d%s' % (c.n, k), MEDIA)
    c.routes = [(ip, ';'.join([x for x in p.split(';') if x] + (['rtpp=0'] if ch.flip('rl.off', 0.12) else [])), plan)
                for ip, p, plan in c.routes]


def run(sim, ch, tier):
    prof = dict(PROF, tweak=tweak)

    def setup(w, ch):
        relay.attach(w, ch)
        relay.faults(w, ch, prof['t0'], 45.0)
    return base.run_b2b(sim, ch, prof, [relay.c22, oracles.alive, oracles.c01, oracles.c02], {}, setup, tail=130.0,
                        extra=lambda w: {'relay_commands': sum(len(r.order) for r in w.relays)})
