"""Scripted scenarios over the real code in the current directory (the
repository), in simulated time. sim.zip holds the simulator used as the bench:
virtual clock, in-memory network and helper processes; no random choice is made
here, each scenario is fixed."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = os.environ.get('VERIF_REPO') or os.getcwd()
if os.environ.get('DEMO_EXEC') != '1':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', SIPLOG_BEND='none', DEMO_EXEC='1')
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execv(py, [py, '-W', 'ignore'] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'sim.zip') if os.path.exists(os.path.join(HERE, 'sim.zip')) else os.path.join(HERE, '../..'))
from sim import seams
seams.install()
from sim.core import Sim, Chooser, SimStop, NS
from sim.seams import S, orig
from sim.net import NetCfg
from sim.sipmsg import parse, sdp_mark, sdp_media


def newsim(tick=0):
    ch = Chooser(1, {})
    sim = Sim(ch, step_budget=3000000)
    sim.calm = True
    sim.tick = tick
    seams.attach(sim, 1)
    return sim, ch


def world(**kw):
    import sippy.b2bua
    from sim.b2b import World
    sim, ch = newsim()
    c = NetCfg()
    c.lat_min = c.lat_max = 0.002
    return World(sim, ch, c, **kw)


def netfilter(w, f):
    """f(src, dst, m, data) -> None: as usual; False: lose it; a number or list of numbers: extra delay(s), one copy each"""
    orig_carry = w.net._carry

    def carry(src, dst, data, inbound):
        try:
            m = parse(data)
        except Exception:
            m = None
        r = f(src, dst, m, data)
        if r is None:
            return orig_carry(src, dst, data, inbound)
        if r is False:
            return
        for d in (r if isinstance(r, (list, tuple)) else (r,)):
            w.sim.at(0.002 + d, w.net._arrive, src, dst, bytes(bytearray(data)))
    w.net._carry = carry


def callee(*steps, **kw):
    """steps: (delay, code[, with_sdp])"""
    kw['steps'] = [(s[0], s[1], s[2] if len(s) > 2 else 200 <= s[1] < 300) for s in steps]
    return kw


def evs(w, d=None, peer=None, method=None, code=None, cm=None, callid=None):
    out = []
    for e in w.ev:
        if d and e.d != d or peer and e.peer[0] != peer:
            continue
        m = e.m
        if callid and m.callid != callid:
            continue
        if method and m.method != method:
            continue
        if code is not None and m.code != code:
            continue
        if cm and m.cmethod != cm:
            continue
        out.append(e)
    return out


_fails = []


def expect(cond, text):
    print(('ok   ' if cond else 'FAIL ') + text, file=sys.stderr)
    if not cond:
        _fails.append(text)


def show(w):
    if os.environ.get('DEMO_SHOW'):
        for e in w.ev:
            print(repr(e), e.m.callid, file=sys.stderr)
        for a in w.acct:
            print('ACCT', a['t'], a['status'], a['origin'], a['callid'], file=sys.stderr)
        print(w.result, w.crashed(), file=sys.stderr)
        if os.environ['DEMO_SHOW'] == '2':
            print(S.out.text(), file=sys.stderr)


def done():
    sys.stderr.flush()
    os._exit(1 if _fails else 0)
