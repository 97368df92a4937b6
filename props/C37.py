"""Rust backend: tandem arrays."""
from .C11 import expected, expected_all, is_power
from .C36 import split, shapes
from symex.rustside import Driver, words

ASSUMPTIONS = ['Rust: classes are opaque in the symbolic build (only comparing, ordering and hashing compile), witnesses are replayed with 64-bit numbers']
BOUNDS_TEXT = ('Rust code: all traces up to 7 events (any equality pattern), 2-letter alphabets up to 11, 3-letter up to 8, every maximum length from 0 to trace length + 2 '
               '(chosen values above 7 events); logs of 2-3 traces with up to 5 events; chosen classes whose polynomial hashes collide; thorough: 8, 14 and 10 events')
# sub-arrays with equal polynomial hashes
COLLIDE = [(29107, 1029107), (32351, 1032351)]
RUST = Driver('patterns', ['features::analysis::patterns::tandem_arrays', 'utils::hash_utils'])


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []
    for n in range(0, 9 if t else 8):
        out.append({'name': 'full%d' % n, 'shape': [n], 'ab': None, 'mx': list(range(0, n + 3)) if n < 7 else [4, 10]})
    for n in range(8, 15 if t else 12):
        out.append({'name': 'ab2-%d' % n, 'shape': [n], 'ab': 2, 'mx': [2, 3, 4, 5, 6, 10] if n < 10 else [4, 6, 20]})
    for n in range(7, 11 if t else 9):
        out.append({'name': 'ab3-%d' % n, 'shape': [n], 'ab': 3, 'mx': [3, 4, 5, 20] if n < 8 else [4, 5]})
    for s in shapes(5, 3):
        out.append({'name': 'multi' + 'x'.join(map(str, s)), 'shape': list(s), 'ab': None, 'mx': [3, 10]})
    for n in (4, 5) + ((6, 7) if t else ()):
        out.append({'name': 'collide%d' % n, 'shape': [2 * n], 'ab': None, 'mx': [3, 10], 'pairs': n})
    out.append({'name': 'multi4x4', 'shape': [4, 4], 'ab': 2, 'mx': [3, 10]})
    return out


def harness(ctx, cfg):
    hi = cfg['ab'] - 1 if cfg['ab'] else 2 ** 64 - 1
    mx = ctx.choose('mx', cfg['mx'])
    if 'pairs' in cfg:
        ws = [[x for i in range(cfg['pairs']) for x in ctx.choose('c%d' % i, COLLIDE)]]
    else:
        ws = [[ctx.int('x%d_%d' % (i, j), 0, hi) for j in range(n)] for i, n in enumerate(cfg['shape'])]
    res, prim, r2, p2 = RUST.call(ctx, 'tandem', [mx] + words(ws))
    cl = split(ctx.classes([x for w in ws for x in w]), ws)
    ctx.check(len(res) == len(cl) and len(prim) == len(cl), 'one list of tandem arrays per trace')
    ctx.check([[x[:2] for x in t] for t in res] == r2 and [[x[:2] for x in t] for t in prim] == p2, 'the lists with and without numbers of repetitions differ')
    for t, got, gp in zip(cl, res, prim):
        exp = expected(t, mx)
        ctx.check(sorted(got) == sorted(exp.values()), 'tandem arrays of %r (max %d): %r, expected %r' % (t, mx, got, sorted(exp.values())))
        ctx.check(len(gp) == len(set(gp)) and set(gp) <= set(got), 'primitive arrays %r are not among the maximal ones %r' % (gp, got))
        allt = expected_all(t)
        for a in exp.values():
            base = tuple(t[a[0]:a[0] + a[1]])
            shorter = any(l <= (a[1] + 1) // 2 for l in allt.get(a[0], ()))
            ctx.check((a in gp) == (not shorter), 'the array %r of %r is %s' % (a, t, 'primitive although a shorter base repeats there' if shorter else 'missing among the primitive ones'))
