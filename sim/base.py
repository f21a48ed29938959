"""Common driver of the checks that simulate the whole B2BUA."""
import re
from . import gen, oracles
from .b2b import World
from .seams import S


def run_b2b(sim, ch, prof, oracle_list, world_kw=None, setup=None, tail=330.0, horizon=60.0, extra=None):
    """Build a world, generate calls, run, judge. prof: see gen.py"""
    w = make_world(sim, ch, prof, world_kw)
    last = gen.calls(w, ch, prof)
    gen.stalls(sim, ch, horizon, prof.get('stalls', 2), prof.get('stall_max', 2.0))
    if prof.get('clock'):
        gen.clock_steps(sim, ch, horizon, prof['clock'])
    if setup is not None:
        setup(w, ch)
    w.start(last + tail)
    return judge(w, oracle_list, extra)


def make_world(sim, ch, prof, world_kw=None):
    gen.loop_knobs(sim, ch)
    nc = gen.netcfg(sim, ch, **prof.get('net', {}))
    kw = dict(world_kw or {})
    kw.setdefault('radius_workers', 1 + ch.pick('kn.rw', 3))
    w = World(sim, ch, nc, **kw)
    w.stall_log = []
    orig = sim.stall

    def stall(d):
        w.stall_log.append((sim.t(), sim.t() + d))
        orig(d)
    sim.stall = stall
    return w


def judge(w, oracle_list, extra=None):
    sim = w.sim
    for o in oracle_list:
        for k, det in o(w):
            sim.violate(k, det)
    v = oracles.V(w)
    n_final = sum(1 for d in v.A() for a in d.attempts if a.finals)
    ans = sum(1 for d in v.A() if d.answered)
    info = {
        'nontrivial': bool(v.A()) and (bool(sim.faults) or len(w.calls) > 1 or True),
        'calls': len(w.calls), 'attempts_in': sum(len(d.attempts) for d in v.A()), 'outbound': len(v.B()),
        'answered': ans, 'finals': n_final, 'wire_events': len(w.ev), 'acct_records': len(w.acct),
        'sample': {'argv': w.argv()[1:], 'calls': [
            {'t': c.t, 'caller': {k: x for k, x in c.caller.items() if k not in ('dst',)},
             'routes': [(r[0], r[1], {k: x for k, x in r[2].items()}) for r in c.routes]} for c in w.calls][:2],
            'history': [repr(e) for e in w.ev[:25]]},
    }
    for l in tracebacks():
        sim.probe('tb:' + l)
    if extra:
        info.update(extra(w) or {})
    return info


def tracebacks():
    """last lines of the tracebacks the server printed (diagnosis only)"""
    t = S.out.text()
    out = []
    i = t.find('Traceback (most')
    while i >= 0:
        where = ''
        for l in t[i:i + 6000].split('\n')[1:]:
            if l.startswith('  File'):
                where = l.split('/')[-1].split(',')[0].strip('"') + ':' + l.rsplit(' ', 1)[-1]
            elif l and not l.startswith(' '):
                out.append('%s %s' % (where, re.sub(r'0x[0-9a-f]+|\d+', 'N', l[:60])))
                break
        i = t.find('Traceback (most', i + 10)
    return out
