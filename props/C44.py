"""Rust backend: variants of a log and iterating over it."""
from .rustlog import *

ASSUMPTIONS = COMMON
BOUNDS_TEXT = ('Rust code: all logs of up to 6 events in up to 3 traces and 5 events in 4 (empty ones included) with any names, up to 10 events over 2-3 names in up to 5 traces; thorough: 7 and 12 events')
RUST = driver('features::mutations::split')


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = log_cfgs(7 if t else 6, 3, [(2, (4, 4)), (2, (3, 3, 3)), (2, (2, 2, 2, 2, 2)), (3, (2, 2, 2, 2)), (2, (1, 2, 1, 2, 1)), (3, (3, 3)), (2, (0, 2, 0, 2, 2))]
                   + ([(2, (4, 4, 4)), (3, (3, 3, 3)), (2, (2,) * 6), (2, (3, 3, 3, 3))] if t else []))
    have = {c['name'] for c in out}
    for s in shapes(5 if t else 4, 4, 4):
        c = {'name': 'log' + 'x'.join(map(str, s)), 'shape': list(s), 'ab': None, 'seed': len(out) % 2}
        if c['name'] not in have:
            out.append(c)
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, 0, RUST)
    indices, groups, it, dump = g.call('split', words(g.ws))
    cl = g.classify()
    tr = g.numbered()
    ctx.check([g.events(t) for t in dump] == tr, 'the log was changed')
    ctx.check([g.events(t) for t in it] == tr, 'iterating over the log gives %r' % (it,))
    by = {}
    for i, t in enumerate(cl):
        by.setdefault(tuple(t), []).append(i)
    exp = sorted(by.values())
    ctx.check(indices == exp, 'groups of %r: %r, expected %r' % (cl, indices, exp))
    ctx.check([[g.events(t) for t in x] for x in groups] == [[tr[i] for i in x] for x in exp], 'the groups hold other traces')
