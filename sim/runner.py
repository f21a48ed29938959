"""Runs a check: many seeded simulated executions in forked children, over all
cores; minimises and confirms violations; writes evidence."""
import fnmatch, gc, hashlib, importlib, json, os, resource, select, signal, sys, time, traceback
from . import seams
from .core import Sim, Chooser, SimStop
from .seams import S, orig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 40
_sig = signal.signal          # originals, kept before the seams are installed
_select = select.select
_mono = time.monotonic


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


class Result(dict):
    __getattr__ = dict.get


def execute(check, seed, calm, tier, replay=None, trace=False, out=None):
    """One simulated run in this (child) process -> dict."""
    ch = Chooser(seed, replay)
    wall0 = 1700000000.0
    sim = Sim(ch, step_budget=getattr(check, 'STEPS', 3000000), wall0=wall0)
    sim.keep_trace = trace
    sim.calm = calm
    seams.attach(sim, seed)
    gc.collect()
    gc.freeze()
    gc.disable()
    t = orig['perf_counter']()
    hang = {}

    def on_xcpu(signum, frame):
        stacks = []
        for ident, fr in sys._current_frames().items():
            st = sim.by_ident.get(ident)
            if st is not None and st is sim.cur:
                stacks.append(''.join(traceback.format_stack(fr)[-12:]))
        r = dict(seed=seed, calm=calm, hang='\n'.join(stacks), choices=ch.export())
        os_write(out, r)
        os._exit(0)
    if out is not None:
        _sig(signal.SIGXCPU, on_xcpu)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 10))
    info = check.run(sim, ch, tier) or {}
    viol = sim.violations
    r = dict(seed=seed, calm=calm, violations=viol, faults=sim.faults, probes=sim.probes, sig=sim.sig.hexdigest()[:16],
             hash=sim.hash.hexdigest()[:24], steps=sim.steps, simtime=sim.t(), nsig=sim.nsig, decisions=ch.n,
             info=info, wall=orig['perf_counter']() - t)
    if viol and replay is None and os.environ.get('VERIF_DUMPV'):
        with open(os.environ['VERIF_DUMPV'], 'a') as f:
            f.write('##RUN %s\n%s\n%s\n' % (seed, json.dumps(viol, default=repr)[:1500], S.out.text()))
    if viol or replay is not None or trace:
        r['choices'] = ch.export()
    if trace:
        r['trace'] = sim.events
        r['stdout'] = S.out.text()[-6000:]
    return r


def os_write(fd, obj):
    d = (json.dumps(obj, default=repr) + '\n').encode()
    while d:
        n = orig['write'](fd, d[:65536])
        d = d[n:]


def fork_run(check, seed, calm, tier, replay=None, trace=False):
    """Fork a child for one run; returns (pid, read fd)."""
    r, w = orig['pipe']()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            orig['close'](r)
            res = execute(check, seed, calm, tier, replay, trace, w)
            os_write(w, res)
        except BaseException as e:
            try:
                os_write(w, dict(seed=seed, calm=calm, error=''.join(traceback.format_exception(e))))
            except BaseException:
                pass
            code = 3
        os._exit(code)
    orig['close'](w)
    return pid, r


class Pool(object):
    def __init__(self, check, tier, width):
        self.check, self.tier, self.width = check, tier, width
        self.live = {}

    def submit(self, tag, seed, calm, replay=None, trace=False):
        pid, fd = fork_run(self.check, seed, calm, self.tier, replay, trace)
        self.live[fd] = [pid, tag, [], seed, calm]

    def full(self):
        return len(self.live) >= self.width

    def reap(self, timeout=None):
        """-> list of (tag, result)"""
        if not self.live:
            return []
        out = []
        R, _, _ = _select(list(self.live), [], [], timeout)
        for fd in R:
            d = orig['read'](fd, 1 << 20)
            if d:
                self.live[fd][2].append(d)
                continue
            pid, tag, buf, seed, calm = self.live.pop(fd)
            orig['close'](fd)
            _, st = os.waitpid(pid, 0)
            raw = b''.join(buf).split(b'\n')[0]
            try:
                res = json.loads(raw)
            except ValueError:
                res = dict(seed=seed, calm=calm, error='child died, status %r' % st)
            out.append((tag, res))
        return out

    def kill(self):
        for fd, (pid, *_x) in self.live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            orig['close'](fd)
        self.live = {}


def batch(check, tier, jobs, width=8):
    """Run replay jobs [(seed, calm, choices)] -> results in order."""
    pool = Pool(check, tier, width)
    res = {}
    todo = list(enumerate(jobs))
    while todo or pool.live:
        while todo and not pool.full():
            i, (seed, calm, choices) = todo.pop(0)
            pool.submit(i, seed, calm, replay=choices)
        for tag, r in pool.reap():
            res[tag] = r
    return [res[i] for i in range(len(jobs))]


def vkeys(r):
    ks = [v['key'] for v in r.get('violations', ())]
    if r.get('hang') is not None:
        ks.append('hang')
    return ks


def size(c):
    return (sum(1 for v in c.values() for x in v if x), sum(len(v) for v in c.values()), sum(x for v in c.values() for x in v if isinstance(x, int)))


def shrink(check, tier, seed, calm, choices, key, budget):
    """Delta-debug the choice streams while the same violation key persists."""
    end = _mono_real() + budget
    best = choices
    tries = 0

    def attempt(cands):
        nonlocal best, tries
        cands = [c for c in cands if size(c) < size(best)]
        i = 0
        while i < len(cands) and _mono_real() < end:
            part = cands[i:i + 8]
            i += 8
            tries += len(part)
            rs = batch(check, tier, [(seed, calm, c) for c in part])
            good = [c for c, r in zip(part, rs) if key in vkeys(r)]
            if good:
                # re-export drops decisions that are no longer reached
                g = min(good, key=size)
                r = [r for c, r in zip(part, rs) if c is g][0]
                e = r.get('choices') or g
                best = e if size(e) < size(best) else g
                return True
        return False

    def wo(c, k, v):
        d = dict(c)
        if v:
            d[k] = v
        else:
            d.pop(k, None)
        return d
    progress = True
    while progress and _mono_real() < end:
        progress = False
        # whole kinds
        while attempt([wo(best, k, []) for k in sorted(best, key=lambda k: -len(best[k]))]):
            progress = True
            if _mono_real() >= end:
                break
        # chunks of one kind set to zero / truncated
        for k in sorted(best):
            n = len(best.get(k, ()))
            step = max(n // 2, 1)
            while step >= 1 and _mono_real() < end and k in best:
                v = best[k]
                c = []
                for i in range(0, len(v), step):
                    if any(v[i:i + step]):
                        c.append(wo(best, k, _trim(v[:i] + [0] * len(v[i:i + step]) + v[i + step:])))
                if attempt(c):
                    progress = True
                    continue
                if step == 1:
                    break
                step = max(step // 2, 1)
        # smaller values
        c = []
        for k in sorted(best):
            for i, x in enumerate(best[k]):
                if isinstance(x, int) and x > 1:
                    for y in (1, x // 2, x - 1):
                        if y < x:
                            v = list(best[k])
                            v[i] = y
                            c.append(wo(best, k, v))
        if c and attempt(c[:200]):
            progress = True
    return best, tries


def _trim(v):
    j = len(v)
    while j and v[j - 1] == 0:
        j -= 1
    return v[:j]


def _mono_real():
    return orig['monotonic']()


def known_findings(pid):
    out = []
    try:
        with orig['open'](os.path.join(VERIF, 'known_findings.jsonl')) as f:
            for l in f:
                l = l.strip()
                if not l:
                    continue
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(key, kf):
    for d in kf:
        if fnmatch.fnmatchcase(key, d['key']):
            return d
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--one')              # debugging: run one seed with trace
    ap.add_argument('--calm', type=int, default=None)
    ap.add_argument('--width', type=int, default=8)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--hashes')           # determinism: dump per-run hashes
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--fast', action='store_true')   # stop at the first violation, no replay file
    a = ap.parse_args(argv)
    seams.install()
    pid = a.pid.upper()
    check = load(pid)
    if hasattr(check, 'preload'):
        check.preload()
    if a.replay:
        return do_replay(check, pid, a.replay)
    if a.one is not None:
        res = one(check, a.tier, a.one, a.calm)
        pr('\n'.join(res.get('trace', [])))
        pr(res.get('stdout', ''))
        res.pop('trace', None); res.pop('stdout', None)
        ch = res.pop('choices', None)
        pr(res.get('error') or '')
        pr(json.dumps({k: v for k, v in res.items() if k != 'error'}, indent=1)[:6000])
        return 0
    return explore(check, pid, a)


def pr(s):
    orig['stdout'].write(s + '\n')
    orig['stdout'].flush()


def one(check, tier, seed, calm):
    i = int(seed.rsplit('-', 1)[-1]) if '-' in seed else 0
    if calm is None:
        calm = is_calm(check, i)
    pool = Pool(check, tier, 1)
    pool.submit(0, seed, bool(calm), trace=True)
    while True:
        r = pool.reap()
        if r:
            return r[0][1]


def is_calm(check, i):
    return i % getattr(check, 'CALM_EVERY', 5) == 0


def do_replay(check, pid, path):
    with orig['open'](path) as f:
        rp = json.load(f)
    pool = Pool(check, rp['tier'], 1)
    pool.submit(0, rp['seed'], rp['calm'], replay=rp['choices'], trace=True)
    res = None
    while res is None:
        for _, r in pool.reap():
            res = r
    ks = vkeys(res)
    pr('replay %s seed=%s' % (path, rp['seed']))
    for l in res.get('trace', ()):
        pr(l)
    if res.get('error'):
        pr(res['error'])
        return 2
    same = rp['key'] in ks
    exact = res.get('hash') == rp.get('hash')
    for v in res.get('violations', ()):
        pr('violated: %s at t=%s: %s' % (v['key'], v['t'], v['detail']))
    if res.get('hang') is not None:
        pr('violated: hang: ' + res['hang'])
    if same:
        pr('reproduced %s' % ('exactly' if exact else '(same violation, history differs: code changed?)'))
        pr('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    pr('NOT reproduced (keys %s)' % ks)
    return 0


def explore(check, pid, a):
    t0 = _mono_real()
    tier = a.tier
    runs = a.runs or check.RUNS[tier]
    cap = a.secs or {'quick': 60, 'thorough': 600}[tier]
    kf = known_findings(pid)
    pool = Pool(check, tier, a.width)
    i = 0
    done = 0
    errors = []
    firsts = {}
    hits = {}
    sigs = set()
    allsig = set()
    nontriv = 0
    faults, probes = {}, {}
    simtime = 0.0
    steps = decisions = 0
    calm_n = 0
    samples = []
    hashes = {}
    infos = {}
    stop = False
    pr('%s tier=%s VERIF_SEED=%d runs=%d' % (pid, tier, a.seed, runs))
    while (i < runs and not stop) or pool.live:
        while i < runs and not stop and not pool.full():
            pool.submit(i, '%s-%d-%d' % (pid, a.seed, i), is_calm(check, i))
            i += 1
        for tag, r in pool.reap(1.0):
            done += 1
            if r.get('error'):
                errors.append(r)
                if len(errors) >= 5:
                    stop = True
                continue
            if r.get('hang') is not None:
                k = 'hang'
                hits[k] = hits.get(k, 0) + 1
                if k not in firsts or tag < firsts[k][0]:
                    firsts[k] = (tag, r, r['hang'])
                stop = True
                continue
            hashes[tag] = r['hash']
            for k, v in r['faults'].items():
                faults[k] = faults.get(k, 0) + v
            for k, v in r['probes'].items():
                probes[k] = probes.get(k, 0) + v
            simtime += r['simtime']
            steps += r['steps']
            decisions += r['decisions']
            calm_n += bool(r['calm'])
            allsig.add(r['sig'])
            inf = r['info']
            for k, v in inf.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    infos[k] = infos.get(k, 0) + v
            if inf.get('nontrivial', True) and r['nsig'] > 0:
                if r['sig'] not in sigs:
                    sigs.add(r['sig'])
            if len(samples) < 3 and inf.get('sample') and not r['calm']:
                samples.append({'seed': r['seed'], 'faults': r['faults'], 'case': inf['sample']})
            for v in r['violations']:
                k = v['key']
                hits[k] = hits.get(k, 0) + 1
                if k not in firsts or tag < firsts[k][0]:
                    firsts[k] = (tag, r, v['detail'])
        if _mono_real() - t0 > cap:
            stop = True
        unk = [k for k in firsts if is_known(k, kf) is None]
        if unk and a.fast:
            pool.kill()
            pr('VIOLATION property=%s replay=none' % pid)
            pr('keys %s' % unk)
            return 1
        if unk and (tier == 'quick' or len(unk) >= 3) and not a.runs:
            stop = True
    pool.kill()
    wall_explore = _mono_real() - t0
    if a.hashes:
        with orig['open'](a.hashes, 'w') as f:
            json.dump({str(k): hashes[k] for k in sorted(hashes)}, f)
    rc = 0
    nviol = 0
    for k in sorted(firsts):
        d = is_known(k, kf)
        if d is not None:
            pr('KNOWN-FINDING: property=%s %s (%d runs) [%s]' % (pid, d['what'], hits[k], k))
    unk = sorted((k for k in firsts if is_known(k, kf) is None), key=lambda k: firsts[k][0])
    for k in unk[:3]:
        tag, r, det = firsts[k]
        path = report(check, pid, tier, r, k, det, 20 if tier == 'quick' else 60)
        if path is None:
            errors.append({'error': 'violation %s of seed %s did not reproduce: nondeterminism' % (k, r['seed'])})
            continue
        nviol += 1
        rc = 1
    for e in errors[:3]:
        pr('HARNESS-ERROR: %s' % e['error'])
    if rc == 0 and errors:
        rc = 2
    wall = _mono_real() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(sigs),
            'rule': getattr(check, 'RULE', DEFAULT_RULE),
            'samples': samples,
            'fault_free_runs': calm_n,
            'distinct_interleavings': len(allsig),
            'interleaving_measure': 'SHA-256 over the order of processed and emitted messages, timer/helper/console events and faults of the run, times excluded',
            'runs_per_hour': round(done / wall_explore * 3600) if wall_explore > 0 else 0,
            'seeds_per_hour': round(done / wall_explore * 3600) if wall_explore > 0 else 0,
            'simulated_seconds': round(simtime, 1),
            'simulated_per_wall': round(simtime / wall_explore, 1) if wall_explore > 0 else 0,
            'scheduler_steps': steps,
            'decisions': decisions,
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'totals': dict(sorted(infos.items())),
            'seeds': '%s-%d-0 .. %s-%d-%d' % (pid, a.seed, pid, a.seed, max(i - 1, 0)),
            'real_components': getattr(check, 'REAL', DEFAULT_REAL),
            'stub_components': getattr(check, 'STUB', DEFAULT_STUB),
            'known_findings_seen': {k: hits[k] for k in firsts if is_known(k, kf)},
            'violation_keys': {k: hits[k] for k in unk},
        },
        'assumptions': getattr(check, 'ASSUME', DEFAULT_ASSUME),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if not a.noevidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with orig['open'](os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    pr('%s: %d runs (%d distinct), %.0f simulated s, %.1f wall s, faults %s' %
       (pid, done, len(allsig), simtime, wall, dict(sorted(faults.items()))))
    pr('probes %s' % dict(sorted(probes.items())))
    if unk:
        pr('keys %s' % {k: hits[k] for k in unk})
    return rc


def report(check, pid, tier, r, key, detail, budget):
    seed, calm = r['seed'], r['calm']
    choices = r.get('choices') or {}
    if key == 'hang':
        best, tries = choices, 0
    else:
        chk = batch(check, tier, [(seed, calm, choices)])[0]
        if key not in vkeys(chk):
            pr('replay from choices failed: %s' % (chk.get('error') or vkeys(chk)))
            return None
        best, tries = shrink(check, tier, seed, calm, choices, key, budget)
    pool = Pool(check, tier, 1)
    pool.submit(0, seed, calm, replay=best, trace=True)
    res = None
    while res is None:
        for _, x in pool.reap():
            res = x
    if key not in vkeys(res):
        return None
    det = [v['detail'] for v in res.get('violations', ()) if v['key'] == key]
    det = det[0] if det else res.get('hang', detail)
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(('%s %s' % (key, seed)).encode()).hexdigest()[:10]))
    rp = dict(property=pid, tier=tier, seed=seed, calm=calm, key=key, detail=det, hash=res.get('hash'), choices=best,
              trace=res.get('trace'), minimised_from=size(choices), minimised_to=size(best), shrink_runs=tries)
    with orig['open'](path, 'w') as f:
        json.dump(rp, f, indent=1)
    # confirm in a fresh process
    import _posixsubprocess  # noqa: F401  (ensures the real Popen is importable)
    p = orig['Popen']([sys.executable, os.path.join(VERIF, 'run.py'), pid, '--replay', path],
                      stdout=-1, stderr=-2, cwd=VERIF)
    out = orig_communicate(p)
    ok = p.returncode == 1 and b'reproduced exactly' in out
    if key == 'hang':
        ok = p.returncode == 1
    pr('violation %s (seed %s, %d -> %d non-zero decisions): %s' % (key, seed, size(choices)[0], size(best)[0], det))
    if not ok:
        pr('fresh-process replay did not reproduce: rc=%s\n%s' % (p.returncode, out[-1500:].decode('utf-8', 'replace')))
        return None
    pr('VIOLATION property=%s replay=%s' % (pid, path))
    return path


def orig_communicate(p):
    fd = p.stdout.fileno()
    buf = []
    while True:
        d = orig['read'](fd, 65536)
        if not d:
            break
        buf.append(d)
    _, st = os.waitpid(p.pid, 0)
    p.returncode = os.waitstatus_to_exitcode(st)
    return b''.join(buf)


DEFAULT_RULE = ('one run = one seeded simulated execution of the whole B2BUA process; non-trivial = a call or other '
                'stimulus reached the code under test; distinct = different order of processed/emitted messages, '
                'helper, console, signal and fault events')
DEFAULT_REAL = ['sippy.b2bua main_func and everything it imports: UA state machines, transaction manager, SDP/SIP parsing, '
                'routing, accounting, External_command worker threads, UDP server threads, CLI manager threads, timers']
DEFAULT_STUB = ['UDP/stream sockets and select/poll', 'clocks, sleep and randomness', 'thread scheduler, locks and queues '
                '(stdlib queue runs on simulated locks)', 'libelperiodic event loop idle call', 'RADIUS helper process (Popen)',
                'SIP phones and gateways', 'signals and execv']
DEFAULT_ASSUME = ['CPython statements between two preemption points run atomically; preemption points are lock, queue, socket, '
                  'pipe and cross-thread call operations (plus every source line where a check says so)',
                  'the simulated peers follow RFC 3261 unless their plan says otherwise']
