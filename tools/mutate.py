#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-s SEED] [-n MAX] FILE_SUBSTR...: syntactic mutants of ficus sources; those that pass the stable
tests are run against the checks whose evidence says they encode the mutated function."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed import tests, sh
SRC = '/repo/src/python'


def files():
    for d, _, fs in os.walk(SRC + '/ficus'):
        if 'models' in d:
            continue
        for f in fs:
            if f.endswith('.py') and 'pb2' not in f:
                yield os.path.relpath(os.path.join(d, f), SRC)


class Mut:
    def __init__(self, node, new, what, stmt=False):
        self.node, self.new, self.what, self.stmt = node, new, what, stmt


CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult]}


def muts(tree):
    doc = set()
    ann = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
        for a in ('annotation', 'returns'):
            x = getattr(n, a, None)
            if x is not None:
                for y in ast.walk(x):
                    ann.add(id(y))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in ann:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    yield Mut(n, ast.Compare(n.left, n.ops[:i] + [o()] + n.ops[i + 1:], n.comparators), '%s->%s' % (type(op).__name__, o.__name__))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield Mut(n, ast.BinOp(n.left, o(), n.right), '%s->%s' % (type(n.op).__name__, o.__name__))
        elif isinstance(n, ast.BoolOp):
            o = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            yield Mut(n, ast.BoolOp(o, n.values), 'boolop')
            for i in range(len(n.values)):
                r = n.values[:i] + n.values[i + 1:]
                yield Mut(n, r[0] if len(r) == 1 else ast.BoolOp(n.op, r), 'drop-cond%d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield Mut(n, n.operand, 'drop-unary')
        elif isinstance(n, ast.Constant):
            if type(n.value) is int:
                yield Mut(n, ast.Constant(n.value + 1), 'int+1')
                if n.value:
                    yield Mut(n, ast.Constant(n.value - 1) if n.value > 0 else ast.Constant(0), 'int-1')
            elif type(n.value) is bool:
                yield Mut(n, ast.Constant(not n.value), 'bool')
            elif type(n.value) is str and n.value:
                yield Mut(n, ast.Constant(n.value + '_'), 'str')
            elif type(n.value) is float:
                yield Mut(n, ast.Constant(n.value + 0.5), 'float')
        elif isinstance(n, (ast.If, ast.While)):
            yield Mut(n.test, ast.UnaryOp(ast.Not(), n.test), 'negate')
            if isinstance(n, ast.If):
                yield Mut(n.test, ast.Constant(False), 'if-false')
                yield Mut(n.test, ast.Constant(True), 'if-true')
        elif isinstance(n, ast.IfExp):
            yield Mut(n, n.body, 'ifexp-body')
            yield Mut(n, n.orelse, 'ifexp-else')
        elif isinstance(n, ast.comprehension) and n.ifs:
            yield Mut(n.ifs[0], ast.Constant(True), 'comp-if-true')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield Mut(n, ast.Slice(None, n.upper, n.step), 'slice-lower')
            if n.upper is not None:
                yield Mut(n, ast.Slice(n.lower, None, n.step), 'slice-upper')
        elif isinstance(n, ast.Call):
            fn = n.func.id if isinstance(n.func, ast.Name) else (n.func.attr if isinstance(n.func, ast.Attribute) else '')
            if fn in ('copy', 'deepcopy', 'list', 'set', 'sorted', 'str', 'dict', 'clone') and len(n.args) == 1:
                yield Mut(n, n.args[0], 'unwrap-' + fn)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]):
                        a = list(n.args)
                        a[i], a[i + 1] = a[i + 1], a[i]
                        yield Mut(n, ast.Call(n.func, a, n.keywords), 'swap-args%d' % i)
            for i, k in enumerate(n.keywords):
                yield Mut(n, ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:]), 'drop-kw-%s' % k.arg)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            yield Mut(n, ast.Pass(), 'delete-stmt', True)
        elif isinstance(n, ast.Break):
            yield Mut(n, ast.Pass(), 'break-pass', True)
            yield Mut(n, ast.Continue(), 'break-continue', True)
        elif isinstance(n, ast.Continue):
            yield Mut(n, ast.Pass(), 'continue-pass', True)
            yield Mut(n, ast.Break(), 'continue-break', True)
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield Mut(n, ast.Return(None), 'return-none', True)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            pass
        elif isinstance(n, ast.For):
            yield Mut(n.iter, ast.Subscript(ast.Call(ast.Name('list'), [n.iter], []), ast.Slice(ast.Constant(1), None)), 'for-skip-first')
            yield Mut(n.iter, ast.Subscript(ast.Call(ast.Name('list'), [n.iter], []), ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)))), 'for-skip-last')


def splice(src, m):
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    s = offs[m.node.lineno - 1] + m.node.col_offset
    e = offs[m.node.end_lineno - 1] + m.node.end_col_offset
    new = ast.unparse(ast.fix_missing_locations(m.new))
    if not m.stmt and not isinstance(m.new, ast.Slice):
        new = '(' + new + ')'
    return (b[:s] + new.encode() + b[e:]).decode()


def qual(tree):
    """[(start, end, qualname)]"""
    out = []

    def go(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + [c.name]
                if isinstance(c, ast.FunctionDef):
                    out.append((c.lineno, c.end_lineno, '.'.join(q)))
                go(c, q)
            else:
                go(c, pre)
    go(tree, [])
    return out


def props_of():
    m, cost, size = {}, {}, {}
    for i in range(1, 60):
        p = V + '/evidence/C%02d.json' % i
        if not os.path.exists(p):
            continue
        d = json.load(open(p))
        pid = 'C%02d' % i
        cost[pid] = d['wall_s']
        for f, qs in d['coverage']['functions_encoded'].items():
            for q in qs:
                m.setdefault((f, q), set()).add(pid)
    anch = {}
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        anch[d['id']] = [f.replace('src/python/', '') for f in d['anchors']['files']]
    return m, cost, anch


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-n', type=int, default=10 ** 9)
    ap.add_argument('-k', type=int, default=4)
    ap.add_argument('-p', type=float, default=1.0)
    ap.add_argument('-w', default='2')
    ap.add_argument('--ops', default='')
    ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    m, cost, anch = props_of()
    jobs = []
    for f in sorted(files()):
        if a.files and not any(x in f for x in a.files):
            continue
        src = open(SRC + '/' + f, newline='').read()
        crlf = '\r\n' in src
        src = src.replace('\r\n', '\n')
        t = ast.parse(src)
        q = qual(t)
        for mu in muts(t):
            ln = mu.node.lineno
            inside = [x for x in q if x[0] <= ln <= x[1]]
            if not inside:
                fn = None
            else:
                fn = min(inside, key=lambda x: x[1] - x[0])[2]
            try:
                new = splice(src, mu)
                ast.parse(new)
            except SyntaxError:
                continue
            if ast.dump(ast.parse(new)) == ast.dump(t):
                continue
            jobs.append((f, fn, ln, mu.what, new.replace('\n', '\r\n') if crlf else new, src.split('\n')[ln - 1].strip()))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['new']))
    rnd = random.Random(a.s)
    rnd.shuffle(jobs)
    jobs = [j for j in jobs if rnd.random() < a.p][:a.n]
    if a.ops:
        jobs = [j for j in jobs if any(o in j[3] for o in a.ops.split(','))]
    print(len(jobs), 'mutants', flush=True)
    lock = threading.Lock()
    loc = threading.local()

    def work(j):
        f, fn, ln, what, new, text = j
        import hashlib
        hh = hashlib.sha1(new.encode()).hexdigest()[:12]
        if (f, ln, what, hh) in done:
            return
        if not hasattr(loc, 'w'):
            loc.w = tempfile.mkdtemp(prefix='mut_')
            os.makedirs(loc.w + '/src')
            shutil.copytree(SRC, loc.w + '/src/python')
        w = loc.w
        p = w + '/src/python/' + f
        keep = open(p, newline='').read()
        rec = {'file': f, 'func': fn, 'line': ln, 'what': what, 'text': text, 'new': hh}
        try:
            open(p, 'w', newline='').write(new)
            try:
                bad = tests(w, 60)
            except subprocess.TimeoutExpired:
                bad = ['timeout']
            if bad:
                rec['r'] = 'tests'
            else:
                ps = set()
                for (ff, q), s in m.items():
                    if ff == f and (fn is None or q == fn or q.startswith(fn + '.') or fn.startswith(q + '.')):
                        ps |= s
                order = sorted(ps, key=lambda x: (f not in anch[x], cost[x]))
                rec['props'] = order[:a.k]
                rec['r'] = 'SURVIVED' if order else 'UNCOVERED'
                rec['t'] = {}
                for pid in order[:a.k]:
                    t0 = time.time()
                    c = sh('./run.sh', pid, 'quick', cwd=V, env=dict(os.environ, VERIF_REPO_SRC=w + '/src/python', VERIF_OUT=w + '/ev', VERIF_WORKERS=a.w))
                    rec['t'][pid] = round(time.time() - t0, 1)
                    if c.returncode == 1:
                        rec['r'] = 'caught'
                        rec['by'] = pid
                        rec['msg'] = [l for l in c.stdout.splitlines() if l.startswith('violation')][:1]
                        break
                    if c.returncode != 0:
                        rec['r'] = 'ERROR'
                        rec['by'] = pid
                        rec['msg'] = (c.stdout[-400:] + c.stderr[-600:])
                        break
        finally:
            open(p, 'w', newline='').write(keep)
        with lock:
            with open(a.out, 'a') as o:
                o.write(json.dumps(rec) + '\n')
            if rec['r'] in ('SURVIVED', 'ERROR', 'UNCOVERED'):
                rr = new.replace('\r\n', '\n').split('\n')
                print(rec['r'], f, fn, ln, what, '|', text, '=>', rr[ln - 1].strip() if ln - 1 < len(rr) else '', rec.get('t'), rec.get('msg', '') if rec['r'] == 'ERROR' else '', flush=True)

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(work, jobs))


main()
