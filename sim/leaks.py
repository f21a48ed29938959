"""What the server still holds: call table, transaction tables, request routing
entries, timers, live objects of calls."""
import gc
from collections import Counter


def timers():
    from sippy.Core.EventDispatcher import ED2
    c = Counter()
    for el in ED2.tlisteners:
        f = el.cb_func
        if f is None:
            continue
        c[getattr(f, '__qualname__', None) or getattr(getattr(f, 'func', f), '__qualname__', repr(type(f)))] += 1
    return c


def snapshot(w):
    gc.collect()
    objs = Counter()
    names = {'CallController', 'UA', 'SipTransaction', 'RadiusAccounting', 'Rtp_proxy_session', 'Rtp_proxy_session_default'}
    for o in gc.get_objects():
        n = type(o).__name__
        if n in names and type(o).__module__.startswith('sippy'):
            objs[n] += 1
    gcf = w.global_config or {}
    tm = gcf['_sip_tm'] if gcf and '_sip_tm' in gcf else None
    cm = gcf['_cmap'] if gcf and '_cmap' in gcf else None
    r = {'timers': timers(), 'objs': objs}
    if tm is not None and tm.tclient is not None:
        r['tclient'] = ['%s %s' % (t.method, t.state.__name__) for t in tm.tclient.values()]
        r['tserver'] = ['%s %s' % (t.method, t.state.__name__) for t in tm.tserver.values()]
        r['consumers'] = sorted(k for k, v in tm.req_consumers.items() if v)
        r['consumers0'] = sorted(k for k, v in tm.req_consumers.items() if not v)
    if cm is not None:
        r['calls'] = sorted('%s %s %s/%s' % (cc.cId, cc.state.sname if cc.state else None,
                                             cc.uaA.state, cc.uaO.state if cc.uaO else None) for cc in cm.ccmap)
    return r


def hook_gc_stats(w):
    """snapshot before the first call, to compare with"""
    def snap():
        w.leak0 = timers()
    w.sim.at(0.9, snap)
