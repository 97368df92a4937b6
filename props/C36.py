"""Rust backend: suffix tree, pattern search and repeats."""
from .C12 import maximal, occ
from symex.rustside import Driver, els, words

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available (chrono, uuid, fancy-regex, once_cell, lazycell); none of them is used by this code',
               'Rust: standard hash maps iterate in the orders of the explored hash seeds, other orders are not explored',
               'Rust: classes are opaque in the symbolic build (only comparing and hashing compile), witnesses are replayed with 64-bit numbers']
BOUNDS_TEXT = ('Rust code: all traces up to 6 events (any equality pattern), 2-letter alphabets up to 10, 3-letter up to 8, 2 hash seeds; all logs of up to 3 traces with 5 events, '
               '2-letter alphabets up to 9 events in 2-3 traces; search patterns of 1-3 elements; thorough: 8, 13, 10 and 7 events, 4 hash seeds')
RUST = Driver('suffix', ['utils::suffix_tree', 'utils::hash_map_utils', 'features::analysis::patterns::repeats'])


def setup(symbolic):
    RUST.setup(symbolic)


def shapes(total, most):
    def rec(left, k):
        if k == 0:
            yield ()
            return
        for n in range(left + 1):
            for r in rec(left - n, k - 1):
                yield (n,) + r
    return [s for k in range(2, most + 1) for s in rec(total, k) if sum(s) > 0]


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in range(4 if t else 2):
        for n in range(0, 9 if t else 7):
            out.append({'name': 'repeats%d-%d' % (n, s), 'k': 'rep', 'shape': [n], 'ab': None, 'seed': s})
        for n in range(7, 14 if t else 11):
            out.append({'name': 'repeats-ab2-%d-%d' % (n, s), 'k': 'rep', 'shape': [n], 'ab': 2, 'seed': s})
        for n in range(7, 11 if t else 9):
            out.append({'name': 'repeats-ab3-%d-%d' % (n, s), 'k': 'rep', 'shape': [n], 'ab': 3, 'seed': s})
    for i, sh in enumerate(shapes(6 if t else 5, 3) if t else shapes(5, 2) + [x for x in shapes(4, 3) if len(x) == 3]):
        out.append({'name': 'merged' + 'x'.join(map(str, sh)), 'k': 'rep', 'shape': list(sh), 'ab': None, 'seed': i})
    for i, sh in enumerate([(4, 4), (3, 5), (5, 3), (3, 3, 3), (2, 3, 3)] + ([(5, 5), (6, 4), (3, 4, 4), (2, 2, 2, 3)] if t else [])):
        out.append({'name': 'merged-ab2-' + 'x'.join(map(str, sh)), 'k': 'rep', 'shape': list(sh), 'ab': 2, 'seed': i})
    for m in (1, 2, 3):
        for n in range(0, 7 if t else 6):
            out.append({'name': 'find%d-%d' % (n, m), 'k': 'find', 'shape': [n], 'm': m, 'ab': None, 'seed': n})
        for n in (7, 8) + ((9, 10) if t else ()):
            out.append({'name': 'find-ab2-%d-%d' % (n, m), 'k': 'find', 'shape': [n], 'm': m, 'ab': 2, 'seed': n})
        for i, sh in enumerate(shapes(5 if t else 4, 3)):
            if m < 3 or t:
                out.append({'name': 'find%s-%d' % ('x'.join(map(str, sh)), m), 'k': 'find', 'shape': list(sh), 'm': m, 'ab': None, 'seed': i})
    return out


def harness(ctx, cfg):
    hi = cfg['ab'] - 1 if cfg['ab'] else 2 ** 64 - 1
    ws = [[ctx.int('x%d_%d' % (i, j), 0, hi) for j in range(n)] for i, n in enumerate(cfg['shape'])]
    if cfg['k'] == 'find':
        return find(ctx, cfg, ws, [ctx.int('p%d' % i, 0, hi) for i in range(cfg['m'])])
    kind = ctx.index('kind', 3)
    merged = len(ws) > 1
    log = ctx.bool('log') if len(ws) > 1 or cfg['shape'][0] == 5 else False
    if log or merged:
        merged = ctx.bool('merged') if log else True
        if not log:
            got = RUST.call(ctx, 'log', [kind, 1] + words(ws), cfg['seed'])
        else:
            got = RUST.call(ctx, 'log', [kind, 1 if merged else 0] + words(ws), cfg['seed'])
        got = [[tuple(x) for x in t] for t in got]
    else:
        got = [[(a, e - a) for a, e in RUST.call(ctx, 'repeats', [kind] + words(ws), cfg['seed'])]]
    cl = split(ctx.classes([x for w in ws for x in w]), ws)
    ctx.check(len(got) == len(cl), 'one list of repeats per trace')
    if not merged:
        for t, g in zip(cl, got):
            one(ctx, t, g, kind)
    else:
        several(ctx, cl, got, kind)


def split(flat, ws):
    out, i = [], 0
    for w in ws:
        out.append(flat[i:i + len(w)])
        i += len(w)
    return out


def texts(ctx, cl, got):
    g = []
    for t, r in zip(cl, got):
        for a, n in r:
            ctx.check(0 <= a and n > 0 and a + n <= len(t), 'repeat outside of its trace')
            g.append(tuple(t[a:a + n]))
    ctx.check(len(g) == len(set(g)), 'a repeat is reported twice: %r' % (g,))
    return set(g)


def ctxs(t, r):
    """(class before, class after) of every occurrence of r; None where the trace starts or ends"""
    n = len(r)
    return [(t[j - 1] if j else None, t[j + n] if j + n < len(t) else None) for j in occ(t, r)]


def uniform(cs):
    """known finding: every continuation comes after the same two or more classes"""
    by = {}
    for a, b in cs:
        by.setdefault(b, set()).add(a)
    s = list(by.values())
    return all(x == s[0] for x in s) and len(s[0]) > 1 and None not in s[0]


def one(ctx, t, got, kind):
    g = texts(ctx, [t], [got])
    exp = maximal(t)
    if kind == 0:
        must = {x for x in exp if not uniform(ctxs(t, x))}
        may = set(exp)
    elif kind == 1:
        may = must = {x for x in exp if not any(y != x and occ(y, x) for y in exp)}
    else:
        must, may = set(), set()
        for x in exp:
            cs = ctxs(t, x)
            w = [(a, b) for i, (a, b) in enumerate(cs)
                 if all(i == j or ((a is None or a != c) and (b is None or b != d)) for j, (c, d) in enumerate(cs))]
            if w:
                may.add(x)
            if any(a is not None for a, _ in w):
                must.add(x)
    what = ('maximal', 'super-maximal', 'near-super-maximal')[kind]
    ctx.check(g <= may, '%s repeats of %r: %r are none' % (what, t, sorted(g - may)))
    ctx.check(must <= g, '%s repeats of %r: %r are missing' % (what, t, sorted(must - g)))


def several(ctx, cl, got, kind):
    """separators of merged traces are equal to each other: repeats that reach the end of a trace are a known finding"""
    g = texts(ctx, cl, got)
    subs = {tuple(t[i:j]) for t in cl for i in range(len(t)) for j in range(i + 1, len(t) + 1)}
    for x in subs:
        cs = [c for t in cl for c in ctxs(t, x)]
        two = any(differ(a, b) for i, a in enumerate(cs) for b in cs[:i])
        wit = [c for i, c in enumerate(cs) if all(i == j or differ(c, d) for j, d in enumerate(cs))]
        is_max = two
        sure = is_max and all(b is not None for _, b in cs) and not lost(cl, x)
        if kind == 0:
            need, can = sure and not uniform(cs), is_max
        elif kind == 1:
            can = is_max and (not sure or len(wit) == len(cs))
            need = sure and can
        else:
            can = is_max and (not sure or len(wit) > 0)
            need = sure and any(a is not None for a, _ in wit)
        if x in g:
            ctx.check(can, 'kind %d: %r is no such repeat of the merged traces %r' % (kind, x, cl))
        else:
            ctx.check(not need, 'kind %d: %r is missing among the repeats of the merged traces %r' % (kind, x, cl))


def differ(a, b):
    return all(x is None or y is None or x != y for x, y in zip(a, b))


def hidden(cl):
    """known finding: places whose rest also occurs earlier, the ends of traces being equal to each other, are lost; (trace, place)"""
    if len(cl) == 1:
        return set()
    s, at = [], []
    for i, t in enumerate(cl):
        s += t + [-1]
        at += [(i, j) for j in range(len(t) + 1)]
    return {at[j] for j in range(len(s)) if any(s[i:i + len(s) - j] == s[j:] for i in range(j))}


def lost(cl, x):
    h = hidden(cl)
    return any((i, j) in h for i, t in enumerate(cl) for j in occ(t, x))


def find(ctx, cfg, ws, p):
    got = RUST.call(ctx, 'find', words(ws) + els(p), cfg['seed'])
    c = ctx.classes([x for w in ws for x in w] + list(p))
    cl, pc = split(c, ws), tuple(c[sum(map(len, ws)):])
    must, may, off, h = [], [], 0, hidden(cl)
    for i, t in enumerate(cl):
        for j in occ(t, pc):
            may.append((off + j, off + j + len(pc)))
            if (i, j) not in h:
                must.append(may[-1])
        off += len(t) + 1
    if not got:
        return ctx.check(not may, 'pattern %r is not found in %r' % (pc, cl))
    got = [tuple(x) for x in got[0]]
    ctx.check(got == sorted(set(got)) and got, 'places of a pattern have to be in order')
    ctx.check(set(got) <= set(may), 'pattern %r in %r: %r, expected %r' % (pc, cl, got, may))
    ctx.check(set(must) <= set(got), 'pattern %r in %r: %r, expected %r' % (pc, cl, got, may))


def reproduce(k):
    """known findings, on the real code"""
    class C:
        symbolic = False
    return plain(RUST.call(C, k['input']['cmd'], k['input']['args'], 0)) == plain(k['input']['answer'])


def plain(x):
    return [plain(y) for y in x] if isinstance(x, (list, tuple)) else x
