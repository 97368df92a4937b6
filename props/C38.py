"""Rust backend: interval tree."""
from symex.rustside import Driver, El, els

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available; none of them is used by the interval tree',
               'at least one interval; no interval ends before it starts; the points of a range are those the caller\'s range function gives']
BOUNDS_TEXT = ('Rust code: all lists of up to 2 intervals (thorough 3) with any bounds, up to 4 (thorough 5) intervals with some bounds fixed, looked up at any point, at up to 2 points of a range and in any range')
RUST = Driver('interval', ['utils::interval_tree'])


def setup(symbolic):
    RUST.setup(symbolic)


# lists of intervals: numbers are fixed bounds, None is any number
FIX = [[(1, 3), (2, 5), (None, None)], [(0, 9), (4, 4), (None, None)], [(1, 2), (3, 4), (5, 6), (None, None)], [(5, 8), (5, 6), (1, 9), (7, 7)],
       [(1, 2), (1, 5), (3, 3), (4, 9)], [(2, 3), (2, 3), (4, 6), (5, 5)], [(None, None), (3, 3), (3, 7), (9, 9)],
       [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5)], [(4, 6), (2, 3), (8, 9), (1, 7), (0, 0), (5, 8), (3, 4)], [(3, None), (3, 5), (1, 3)], [(None, 5), (5, 5), (5, 7)]]


def configs(tier):
    t = tier == 'thorough'
    out = []
    shapes = [('any%d' % n, [(None, None)] * n) for n in range(1, 4 if t else 3)] + [('fix%d' % i, f) for i, f in enumerate(FIX)]
    if t:
        shapes += [('more%d' % i, [(None, None)] + f) for i, f in enumerate(FIX) if sum(x is None for p in f for x in p) == 0]
    for n, f in shapes:
        for k in ('point', 'range', 'envelopes'):
            out.append({'name': '%s-%s' % (k, n), 'k': k, 'iv': f})
    out.append({'name': 'point-any3', 'k': 'point', 'iv': [(None, None)] * 3})
    return out


def harness(ctx, cfg):
    iv = []
    for i, (l, r) in enumerate(cfg['iv']):
        l = ctx.int('l%d' % i, 0, 2 ** 40) if l is None else l
        r = ctx.int('r%d' % i, 0, 2 ** 40) if r is None else r
        ctx.assume(l <= r)
        iv.append((l, r))
    args = [len(iv)] + [El(x) for p in iv for x in p]
    k = cfg['k']
    if k == 'point':
        p = ctx.int('p', 0, 2 ** 40)
        got = RUST.call(ctx, k, args + [0, El(p)])
        ok = [bool(l <= p) and bool(p <= r) for l, r in iv]
    elif k == 'range':
        n = ctx.index('points', 3)
        ps = [ctx.int('p%d' % i, 0, 2 ** 40) for i in range(n)]
        got = RUST.call(ctx, k, args + els(ps) + [El(0), El(1)])
        ok = [any(bool(l <= p) and bool(p <= r) for p in ps) for l, r in iv]
    else:
        a, b = ctx.int('a', 0, 2 ** 40), ctx.int('b', 0, 2 ** 40)
        got, again = RUST.call(ctx, k, args + [0, El(a), El(b)])
        ctx.check(sorted(got) == sorted(again), 'the second search gives other intervals')
        ok = [bool(a < b) and bool(a <= l) and bool(r <= b) for l, r in iv]
    exp = [i for i, x in enumerate(ok) if x]
    ctx.check(len(got) == len(set(got)), 'an interval is given twice: %r' % (got,))
    ctx.check(sorted(got) == exp, '%s: intervals %r, expected %r' % (k, sorted(got), exp))
    for i, j in zip(got, got[1:]):
        ctx.check(bool(iv[i][0] <= iv[j][0]), 'the intervals are not ordered by their left end')
