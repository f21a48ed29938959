#!/usr/bin/env python3
"""amut.py OUT FILE:CHECK,CHECK... ... [--n N] [--seed S] [--secs T] [--jobs J]
Automated mutation: small syntactic changes to FILE, one at a time, in scratch copies of /repo; which of the
given checks notice? A way to look for blind spots, not evidence."""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

args = sys.argv[1:]
def opt(n, d):
    if n in args:
        i = args.index(n); v = type(d)(args[i + 1]); del args[i:i + 2]; return v
    return d
N, SEED, SECS, JOBS = opt('--n', 40), opt('--seed', 1), opt('--secs', 12.0), opt('--jobs', 8)
ONLY = opt('--again', '')      # a file this tool wrote: retry the survivors listed there
WIDTH = opt('--width', 1)
only = None
if ONLY:
    only = set()
    for l in open(ONLY):
        f, line, kind, text, killed = json.loads(l)
        if killed is None:
            only.add((f, line, kind))
out = args.pop(0)


def mutants(src):
    tree = ast.parse(src)
    res = []
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child.parent = node

    def infunc(n):
        while hasattr(n, 'parent'):
            n = n.parent
            if isinstance(n, ast.FunctionDef):
                return n.name
        return None
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        fn = infunc(n)
        if fn is None or fn in ('__str__', 'getCopy', '__repr__', 'usage'):
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if getattr(n.value.func, 'id', '') == 'print':
                continue
            res.append((i, 'del'))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            res.append((i, 'del'))
        elif isinstance(n, (ast.Break, ast.Continue)):
            res.append((i, 'del'))
        elif isinstance(n, ast.Return):
            res.append((i, 'del'))
        elif isinstance(n, (ast.If, ast.While)):
            res.append((i, 'neg'))
            if isinstance(n, ast.If):
                res.append((i, 'true')); res.append((i, 'false'))
        elif isinstance(n, ast.BoolOp):
            res.append((i, 'boolop'))
            res.append((i, 'drop0')); res.append((i, 'dropl'))
        elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            res.append((i, 'bound'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            res.append((i, 'plus1')); res.append((i, 'x2'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            res.append((i, 'flip'))
        elif isinstance(n, ast.Constant) and n.value is None and isinstance(n.parent, ast.Assign):
            res.append((i, 'zero'))
    return res


def apply(src, i, kind):
    tree = ast.parse(src)
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child.parent = node
    nodes = list(ast.walk(tree))
    n = nodes[i]
    line = n.lineno

    def repl(new):
        for f, v in ast.iter_fields(n.parent):
            if v is n:
                setattr(n.parent, f, new)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if x is n:
                        v[k] = new
        ast.copy_location(new, n)
    if kind == 'del':
        repl(ast.Pass())
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind in ('true', 'false'):
        n.test = ast.Constant(kind == 'true')
    elif kind == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'drop0':
        n.values = n.values[1:] if len(n.values) > 2 else n.values
        if len(n.values) == 2 and kind == 'drop0' and len(nodes[i].values) == 2:
            repl(n.values[1])
    elif kind == 'dropl':
        repl(n.values[0]) if len(n.values) == 2 else n.values.pop()
    elif kind == 'bound':
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
        n.ops[0] = m[type(n.ops[0])]()
    elif kind == 'plus1':
        n.value += 1
    elif kind == 'x2':
        n.value = n.value * 2 if n.value else 5
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'zero':
        n.value = 0
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), line


def main():
    jobs = []
    rnd = random.Random(SEED)
    for spec in args:
        f, _, chk = spec.partition(':')
        src = open('/repo/' + f).read()
        ms = mutants(src)
        rnd.shuffle(ms)
        for i, kind in (ms[:N] if only is None else ms):
            try:
                new, line = apply(src, i, kind)
            except Exception as e:
                continue
            if new == ast.unparse(ast.parse(src)):
                continue
            if only is not None and (f, line, kind) not in only:
                continue
            jobs.append((f, line, kind, new, chk.split(','), src.split('\n')[line - 1].strip()))
    rnd.shuffle(jobs)
    pool = queue.Queue()
    for k in range(JOBS):
        d = '/tmp/mw%d' % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        pool.put(d)
    fo = open(out, 'a')
    cnt = [0, 0]

    def work(j):
        f, line, kind, new, chks, text = j
        d = pool.get()
        try:
            p = d + '/' + f
            open(p, 'w').write(new)
            killed = None
            for c in chks:
                try:
                    r = subprocess.run(['./run.py', c, '--noevidence', '--fast', '--width', str(WIDTH), '--secs', str(SECS)], cwd='/verif',
                                       env=dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, timeout=120)
                    if r.returncode:
                        killed = (c, r.returncode, [l for l in r.stdout.split('\n') if l.startswith('keys')][:1])
                        break
                except subprocess.TimeoutExpired:
                    killed = (c, 'timeout', '')
                    break
            cnt[0] += 1
            if killed is None:
                cnt[1] += 1
            fo.write(json.dumps([f, line, kind, text, killed]) + '\n')
            fo.flush()
        finally:
            shutil.copy('/repo/' + f, d + '/' + f)
            pool.put(d)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(work, jobs))
    print(cnt)
    for k in range(JOBS):
        shutil.rmtree('/tmp/mw%d' % k, ignore_errors=True)


main()
