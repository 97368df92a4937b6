"""Rust backend: log information and directly-follows graph."""
from .rustlog import *

ASSUMPTIONS = COMMON
BOUNDS_TEXT = ('Rust code: all logs of up to 5 events in up to 3 traces (empty ones included) with any names, up to 8 events over 2-3 names in up to 4 traces, up to 2 ignored names that may or may not occur, '
               'with and without artificial start and end; thorough: 6 and 10 events')
RUST = driver('features::analysis::event_log_info', 'features::analysis::directly_follows_graph', 'utils::graph')


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    return log_cfgs(6 if t else 5, 3, [(2, (8,)), (3, (6,)), (2, (4, 4)), (2, (2, 2, 2, 2)), (3, (3, 3)), (3, (2, 3, 2))] + ([(2, (10,)), (3, (8,)), (3, (4, 4)), (4, (3, 3))] if t else []))


def harness(ctx, cfg):
    n = sum(cfg['shape'])
    mode = ctx.index('mode', 5)
    fake, ignore = ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1))[mode]
    g = Log(ctx, cfg, (2 if n <= 4 else 1) if ignore else 0, RUST)
    classes = [x for w in g.ws for x in w] + g.more
    dfg = None
    if mode == 0:
        dfg = g.call('dfg', words(g.ws))
        back = RUST.back
    info = g.call('info', [fake, ignore] + els(g.more) + words(g.ws) + els(classes))
    cl = g.classify()
    ign = set(g.mc) if ignore else set()
    (traces, events, kinds, names, starts, ends, per, count, dump) = info
    ctx.check([g.events(t) for t in dump] == g.numbered(), 'the log was changed')
    ctx.check(traces == len(cl), 'number of traces')
    ctx.check(events == count == n, 'number of events')
    left = [[c for c in t if c not in ign] for t in cl]
    cnt = {}
    for t in left:
        for c in t:
            cnt[c] = cnt.get(c, 0) + 1
    ctx.check(kinds == len(cnt) and sorted(map(g.id, names)) == sorted(cnt), 'event classes %r of %r' % (names, cl))
    ctx.check(sorted(map(g.id, starts)) == sorted({t[0] for t in left if t}), 'start classes')
    ctx.check(sorted(map(g.id, ends)) == sorted({t[-1] for t in left if t}), 'end classes')
    pairs = {}
    for t in left:
        if t:
            s = (['FAKE_START'] if fake else []) + t + (['FAKE_END'] if fake else [])
            for p in zip(s, s[1:]):
                pairs[p] = pairs.get(p, 0) + 1
    ids = [g.id(p[0]) for p in per]
    ctx.check(ids == g.cls + ['FAKE_START', 'FAKE_END'], 'names are mixed up: %r' % (ids,))
    for c, (_, k, row, rel, fol, pre, single) in zip(ids, per):
        ctx.check(k == cnt.get(c, 0), 'count of a name')
        ctx.check(row == [pairs.get((c, o), 0) for o in ids], 'directly-follows counts of %r in %r: %r' % (c, cl, row))
        ctx.check(rel == [1 if (c, o) in pairs else 0 for o in ids], 'directly-follows relation of %r in %r: %r' % (c, cl, rel))
        follow(ctx, g, fol, {b: v for (a, b), v in pairs.items() if a == c}, 'followers of %r in %r' % (c, cl))
        follow(ctx, g, pre, {a: v for (a, b), v in pairs.items() if b == c}, 'predecessors of %r in %r' % (c, cl))
        ctx.check(single == (1 if len({b for a, b in pairs if a == c}) == 1 else 0), 'single follower of %r in %r' % (c, cl))
    if dfg:
        RUST.back = back
        nodes, edges = dfg
        ctx.check(sorted(map(g.id, nodes)) == sorted(cnt), 'nodes of the graph')
        ctx.check(sorted((g.id(a), g.id(b), w) for a, b, w in edges) == sorted((a, b, str(w)) for (a, b), w in pairs.items()), 'edges of the graph of %r: %r' % (cl, edges))


def follow(ctx, g, got, exp, what):
    if got is None:
        return ctx.check(not exp, what + ' are missing')
    got = [(g.id(a), b) for a, b in got]
    ctx.check(len(got) == len(dict(got)) and dict(got) == exp, '%s: %r, expected %r' % (what, got, exp))
