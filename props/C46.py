"""Rust backend: discovery from a log runs its steps on the classes of the events."""
from .rustlog import *

ASSUMPTIONS = COMMON + ['the steps are decided by C36, C37, C39, C40 and C45; what they give for the classes of the events is compared']
BOUNDS_TEXT = ('Rust code: all logs of up to 4 events in up to 2 traces with any names, up to 7 events over 2-3 names; one name put into the class of another one (up to 4 events); all kinds of patterns, both strategies and levels, narrowing kinds, '
               'filters, handling strategies; thorough: 5 and 9 events')
RUST = driver('features::analysis::patterns')
# longest array, narrowing, filter, smallest size, handling of undefined activities
COMBOS = [(2, 0, 0, 0, 0), (3, 2, 0, 0, 1), (10, 3, 1, 2, 2), (1, 1, 1, 0, 1), (4, 3, 1, 0, 0)]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = log_cfgs(5 if t else 4, 2, [(2, (6,)), (2, (7,)), (3, (5,)), (2, (3, 3)), (2, (4, 2)), (2, (2, 2, 1))] + ([(2, (9,)), (3, (7,)), (2, (4, 4)), (3, (3, 3))] if t else []))
    for i, c in enumerate(out):
        c['combos'] = COMBOS if t else [COMBOS[i % 5]]
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, 0 if cfg['ab'] else 2, RUST)
    if cfg['ab']:
        g.more = [77, 77]
        g.vals += g.more
    kind = ctx.index('kind', 5)
    merged = ctx.index('merged', 2) if kind < 3 and len(cfg['shape']) > 1 else 1
    mx, narrow, filt, least, strategy = ctx.choose('combo', cfg['combos'])
    level = (kind + merged) % 3
    a, b = g.more
    res = []
    for direct in (1, 0):
        r = g.call('discover', [kind, mx, merged, level, least, narrow, filt, strategy, direct, El(a), El(b)] + words(g.ws) + [El(b)])
        res.append((r, RUST.back))
    g.classify()
    out = []
    for r, back in res:
        RUST.back = back
        out.append(translate(g, r))
    for o in out:
        o[2] = ordered(o[2])
        if narrow > 1:
            # several activities below may be the smallest ones
            o[3] = [[i[:2] for i in t] for t in o[3]]
            o[4:7] = []
    what = ('patterns', 'repeat sets', 'tree', 'instances', 'abstracted log', 'events below', 'logs of activities')
    for x, y, what in zip(out[1], out[0], what if narrow < 2 else what[:4]):
        ctx.check(x == y, '%s of %r: %r, expected %r' % (what, g.cl, x, y))
    ctx.check([[tuple(e) for e in t] for t in out[1][-1]] == g.numbered(), 'the log was changed')
    walk(ctx, g, out[1][2], level)


def ordered(nodes):
    return sorted([n[:4] + [ordered(n[4])] for n in nodes], key=repr)


def translate(g, x):
    """names become classes; (a)::(b) a tuple"""
    if isinstance(x, str):
        if x.startswith('('):
            return tuple(g.id(y) for y in x[1:-1].split(')::('))
        return g.id(x)
    if isinstance(x, (list, tuple)):
        y = [translate(g, v) for v in x]
        if y and len(x) == 2 and isinstance(x[0], str) and type(x[1]) is int and x[1] > 100:
            y[1] = 'new'
        return sorted(y, key=repr) if x and isinstance(x, list) and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][1], list) else y
    return x


def walk(ctx, g, nodes, level):
    for sub, lv, name, _, kids in nodes:
        t, s, n = sub[0]
        ctx.check(name == tuple(g.cl[t][s:s + n]), 'name %r of the activity at %r of %r' % (name, sub, g.cl))
        ctx.check(lv == level, 'level of an activity')
        walk(ctx, g, kids, level)
