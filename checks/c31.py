"""C31 media outside of the payload policy never reaches the other party."""
from sim import base, oracles, extras
from checks.c01 import preload  # noqa

RUNS = {'quick': 1500, 'thorough': 25000}
PROF = dict(collide=0.3, utf=0.05, ncalls=3, nroutes=3, cancel=0.1, noack=0.05, nosdp=0.15, challenge=0.1, auth_d=(0.01, 0.1), b_talk=0.4, reinv=2,
            reinv_kinds=('new', 'new', 'new', 'same', None), info=1, t_talk=(0.5, 3.0, 10.0, 35.0), t_ans=(0.0, 0.5, 1.4, 4.0),
            on_reinvite=((('ok', 0.05), 6), (('ok', 1.0), 2), (('rej', 0.05, 488), 1), (('rej', 0.5, 500), 1)),
            outcomes=(('answer', 9), ('reject', 2), ('redirect', 1), ('slow', 1)))
PTS = ('0 8 101', '18 0', '0 18 101', '8 0 3', '101 8', '0', '8', '18', '3 18')
LISTS = ('0,8', '0', '8,101', '18', '[PCMA/8000]', '0,[G729/8000]', '[telephone-event/8000],8,0', '[PCMA/8000],[H263/90000]', '[H263/90000],0,18')
MEDIA = ('', '', 'm=image 20010 udptl t38\r\n', 'm=video 20012 RTP/AVP 34 0\r\na=rtpmap:34 H263/90000\r\n', 'm=video 20018 RTP/AVPF 34 31\r\n', 'm=audio 20014 RTP/SAVP 0 18\r\n',
         'm=application 20016 TCP/BFCP *\r\n')


def run(sim, ch, tier):
    lst = ch.choice('c31.l', LISTS)
    kw = {'opts': ['-F', lst]}
    prof = dict(PROF)

    def tweak(ch, c):
        for n, plan in [('a', c.caller)] + [('b%d' % i, r[2]) for i, r in enumerate(c.routes)]:
            k = 'c31.%d%s' % (c.n, n)
            plan['ptsv'] = [ch.choice(k, PTS[:6])] + [ch.choice(k, PTS) for i in range(3)] if ch.flip(k + '.v', 0.7) else [ch.choice(k, PTS)]
            if ch.flip(k + '.m', 0.3):
                plan['sdpm'] = ch.choice(k + '.x', MEDIA)
    prof['tweak'] = tweak
    prof, setup = extras.plan(sim, ch, prof, kw, ('relay', 'nat', 'keepalive'))
    return base.run_b2b(sim, ch, prof, [oracles.c31, oracles.alive], kw, setup)
