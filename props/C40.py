"""Rust backend: activity instances in traces."""
from .rusttrees import *
from .C14 import FAMILIES
from symex.rustside import Driver, words

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available; none of them is used by this code',
               'the activities come from the backend\'s own tree construction (decided by C39), from distinct sets, with names that differ']
BOUNDS_TEXT = ('Rust code: trees built from fixed families of nested, overlapping, equal-size and singleton sets over 2-5 classes, searched in every trace of up to 4-5 events over an alphabet with classes outside all activities, '
               'and in two-trace logs; trees of all sub-arrays of free traces up to 3 events and of 2-3 free sub-arrays; all narrowing kinds, both filters, minimum sizes 0-3, both name orders; '
               'unattached events with minimum gaps 0-3; thorough: one event more')
RUST = Driver('patterns', ['features::analysis::patterns::activity_instances'])


def setup(symbolic):
    RUST.setup(symbolic)


# name order, narrowing, filter, smallest size, activities searched first, smallest gap
COMBOS = [(0, 0, 0, 0, 1, 0), (1, 2, 0, 0, 1, 2), (0, 3, 1, 2, 2, 1), (1, 1, 1, 0, 2, 0), (0, 2, 1, 3, 1, 3), (1, 3, 0, 0, 2, 2), (0, 3, 1, 0, 1, 1), (1, 0, 1, 2, 1, 1), (0, 2, 1, 1, 2, 2)]


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(n, tr, subs, **kw):
        i = len(out)
        out.append(dict({'name': n, 'traces': tr, 'subs': subs, 'seed': i % 2, 'combos': COMBOS if t else [COMBOS[(i + d) % 9] for d in (0, 2, 5)][:2 if subs in (2, 3) else 3]}, **kw))
    for f, (tr, subs) in FAMILIES.items():
        k = len(set(tr)) + 1
        tr = ''.join('abcdefgh'['abcdefxyz'.index(c)] if c in 'abcdef' else 'g' for c in tr)
        n = (5 if k <= 3 else 4 if k <= 4 else 3) + (1 if t else 0)
        add('fam-' + f, [tr, 'S' * n], subs, alpha=k)
        add('fam2-' + f, [tr, 'SS', '', 'S'] if k > 4 and not t else [tr, 'SSS', '', 'S'], subs, alpha=k)
    for n in range(1, 5 if t else 4):
        add('all%d' % n, ['S' * n], 'all')
    add('free3', ['SSS', 'SSS'], [(0, 0, 2), (0, 1, 2)])
    add('free4', ['SSS', 'SSS'], [(0, 0, 2), (0, 1, 2), (0, 2, 1)], alpha=4)
    add('symsubs', ['abcd', 'SSSS' if t else 'SS'], 2, alpha=5)
    add('symsubs3', ['abc', 'SSS' if t else 'SS'], 3, alpha=4)
    add('long', ['abcde', 'abSabcabdeSSdedeabghiaSbb'], [(0, 0, 2), (0, 0, 3), (0, 3, 2), (0, 1, 3)], alpha=6)
    add('long2', ['abcdeabcde', 'aaaSaabbbbSccccdSeegegaS'], [(0, 0, 5), (0, 3, 3), (0, 4, 3), (0, 2, 2)], alpha=6)
    return out


def harness(ctx, cfg):
    ws = traces(ctx, cfg)
    subs = subs_of(ctx, cfg, ws)
    cl = split(ctx.classes([x for w in ws for x in w]), ws)
    subs = distinct(cl, subs)
    for c in cfg['combos']:
        one(ctx, cfg, ws, cl, subs, *c)


def one(ctx, cfg, ws, cl, subs, named, kind, filt, least, some, gap):
    spec = [1, named] + flat(subs)
    tree = RTree(RUST.call(ctx, 'tree', words(ws) + spec, cfg['seed']), cl)
    got, parts = RUST.call(ctx, 'instances', [kind, least, filt] + words(ws) + spec + words(ws), cfg['seed'])
    ctx.check(len(got) == len(cl), 'one list of instances per trace')
    for t, g, p in zip(cl, got, parts):
        compare(ctx, g, expected(t, tree, named, kind, least, filt), 'classes %r' % (t,))
        pos, seq = 0, []
        for a, n, _ in g:
            if a > pos:
                seq.append((pos, a, 0))
            seq.append((a, a + n, 1))
            pos = a + n
        if pos < len(t):
            seq.append((pos, len(t), 0))
        ctx.check([tuple(x) for x in p] == seq, 'walking through the instances gives %r, expected %r' % (p, seq))
    # events in no instance of a first set of activities are searched with a second one
    some = subs[:some]
    first, al = RUST.call(ctx, 'unattached', [kind, least, filt, gap] + words(ws) + [1, named] + flat(some) + spec, cfg['seed'])
    ctx.check(len(al) == len(cl) and len(first) == len(cl), 'one list of instances per trace')
    old = RTree(RUST.call(ctx, 'tree', words(ws) + [1, named] + flat(some), cfg['seed']), cl)
    for t, f, g in zip(cl, first, al):
        base = expected(t, old, named, 0, 0, 0)
        compare(ctx, f, base, 'first search in %r' % (t,))
        exp, pos = list(base), 0
        for a, n, _ in base + [(len(t), 0, None)]:
            if a - pos >= max(gap, 1):
                exp += [(pos + s, k, m) for s, k, m in expected(t[pos:a], tree, named, kind, least, filt)]
            pos = a + n
        compare(ctx, g, sorted(exp, key=lambda x: x[0]), 'unattached events of %r' % (t,))
