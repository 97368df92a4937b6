"""Rust backend: repeat sets and the activity tree."""
from .rusttrees import *
from symex.rustside import Driver, words

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available; none of them is used by this code',
               'sub-arrays handed in lie inside their traces and have at least one event; the tree is built from distinct sets (as the search for sets gives them)',
               'Rust: standard hash maps iterate in the orders of the explored hash seeds, other orders are not explored']
BOUNDS_TEXT = ('Rust code: all sub-arrays of all traces up to 5 events (any equality pattern and order of classes), of logs of up to 3 traces with 5 events; up to 3-4 symbolic sub-arrays of traces of 4-9 events '
               'over 3-6 fixed classes; fixed families of nested and overlapping sets with free events; 2 hash seeds; chosen classes whose polynomial hashes collide; thorough: 6 events, 4 symbolic sub-arrays')
RUST = Driver('patterns', ['features::analysis::patterns::repeat_sets'])
# sums of two classes with equal polynomial hashes
COLLIDE = [(38836, 41222), (30162, 84493)]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(n, tr, subs, **kw):
        out.append(dict({'name': n, 'traces': tr, 'subs': subs, 'seed': len(out) % 2}, **kw))
    add('nolog', [], [])
    add('empty', [''], [])
    for n in range(1, 5 if t else 4):
        add('all%d' % n, ['S' * n], 'all')
    add('all4', ['SSSS'], 'all')
    add('all5', ['SSSSS'], 'all', alpha=3)
    if t:
        add('all5-any', ['SSSSS'], 'all')
        add('all6', ['SSSSSS'], 'all', alpha=3)
    for s in [(1, 1), (2, 1), (1, 2), (2, 2), (0, 3), (3, 2), (1, 1, 1), (2, 0, 2)]:
        add('all' + 'x'.join(map(str, s)), ['S' * k for k in s], 'all', alpha=3 if sum(s) > 4 else None)
    for n, tr in [(2, ['abcd']), (3, ['abcdab']), (3, ['abc', 'bcd']), (2, ['abcdefabc']), (3, ['abcde'])] + ([(4, ['abcde']), (3, ['abcdefabc'])] if t else []):
        add('sym%d-%s' % (n, '-'.join(tr)), tr, n)
    add('mixed', ['abSSc'], 2, alpha=4)
    add('pre', ['abcdeS', 'Sab'], [(0, 0, 2), (0, 0, 3), (0, 1, 3), (0, 2, 2), (0, 0, 5), (0, 3, 3), (1, 0, 2), (1, 0, 3)])
    add('pre2', ['abcdefghSS'], [(0, i, l) for l in (1, 2, 3, 5, 8) for i in range(0, 11 - l)], alpha=9)
    add('pre3', ['abcd', 'aS', 'bS', 'Scd', 'S'], [(0, 0, 4), (1, 0, 2), (2, 0, 2), (3, 0, 3), (4, 0, 1), (1, 0, 1)])
    add('two-top', ['abcSd', 'bcdeS'], [(0, 0, 5), (1, 0, 5), (0, 1, 2), (0, 1, 3), (1, 2, 2), (1, 1, 3), (0, 0, 2), (1, 0, 1)])
    add('collide', ['SSSS'], 'all', pick=0)
    add('collide2', ['SS', 'SS'], 'all', pick=1)
    return out


def harness(ctx, cfg):
    if 'pick' in cfg:
        pair = COLLIDE[cfg['pick']]
        ws = [[ctx.choose('c%d_%d' % (i, j), pair) for j in range(len(t))] for i, t in enumerate(cfg['traces'])]
    else:
        ws = traces(ctx, cfg)
    subs = subs_of(ctx, cfg, ws)
    per = [[(i, n) for t, i, n in subs if t == k] for k in range(len(ws))]
    order = [(k, i, n) for k, p in enumerate(per) for i, n in p]
    got = RUST.call(ctx, 'sets', words(ws) + [len(per)] + [x for p in per for x in [len(p)] + [y for s in p for y in s]], cfg['seed'])
    cl = split(ctx.classes([x for w in ws for x in w]), ws)
    exp = distinct(cl, order)
    ctx.check([tuple(g) for g in got] == exp, 'repeat sets %r of %r, expected %r' % (got, cl, exp))
    level = ctx.index('level', 2) * 3
    dump = RUST.call(ctx, 'tree', words(ws) + [level, 1] + flat(exp), cfg['seed'])
    tree = RTree(dump, cl)
    ctx.check(not tree.dup, 'an activity is listed with different contents')
    ctx.check(set(tree.info) == set(exp), 'the tree holds %r, expected %r' % (sorted(tree.info), exp))
    ctx.check(len(tree.roots) == len(set(tree.roots)), 'a top activity is listed twice')
    for s in exp:
        c = tree.classes(s)
        sup = [x for x in exp if c < tree.classes(x)]
        ctx.check((s in tree.roots) == (not sup), '%r %s a top activity although %r contain it' % (s, 'is' if s in tree.roots else 'is not', sup))
        ctx.check(tree.info[s] == (level, name(1, s), len(c)), 'level, name or classes of %r: %r' % (s, tree.info[s]))
        ctx.check(len(tree.kids[s]) == len(set(tree.kids[s])), 'an activity is below %r twice' % (s,))
        for k in tree.kids[s]:
            ctx.check(tree.classes(k) < c, 'the child %r is not strictly contained in %r' % (k, s))
        if sup:
            least = min(len(tree.classes(x)) for x in sup)
            for x in sup:
                if len(tree.classes(x)) == least:
                    ctx.check(s in tree.kids[x], '%r is not below %r, one of the smallest that contain it' % (s, x))
