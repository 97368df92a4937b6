"""Rust backend: nets of the alpha and the alpha+ miner."""
from itertools import chain, combinations

from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = COMMON
BOUNDS_TEXT = ('Rust code: all logs of up to 5 events in up to 3 traces (empty ones included) with any names, up to 9 events over 3-5 names in up to 4 traces, with both miners; thorough: 6 and 12 events')
RUST = Driver('nets', fresh=True, prefixes=['features::discovery::alpha', 'features::discovery::petri_net', 'utils::sets'])


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    return log_cfgs(6 if t else 5, 3, [(3, (6,)), (2, (8,)), (3, (3, 3)), (4, (3, 3)), (3, (2, 2, 2)), (4, (2, 2, 2)), (3, (4, 2)), (5, (2, 2, 2)), (3, (1, 2, 3)), (2, (2, 2, 2, 2))]
                    + ([(3, (8,)), (3, (4, 4)), (4, (4, 3)), (3, (2, 2, 2, 2)), (4, (2, 2, 2, 2)), (3, (3, 3, 3)), (5, (3, 3)), (2, (12,))] if t else []))


def harness(ctx, cfg):
    plus = ctx.index('plus', 2)
    g = Log(ctx, cfg, 0, RUST)
    net, extra, dump = g.call(('alpha', 'plus')[plus], words(g.ws))
    cl = g.classify()
    ctx.check([g.events(t) for t in dump] == g.numbered(), 'the log was changed')
    classes = sorted({c for t in cl for c in t})
    loops = sorted({a for t in cl for a, b in zip(t, t[1:]) if a == b}) if plus else []
    full = {p for t in cl for p in zip(t, t[1:])}
    left = [[c for c in t if c not in loops] for t in cl]
    kept = [c for c in classes if c not in loops]
    follow = {p for t in left for p in zip(t, t[1:])}
    near = {(a, b) for t in cl for a, b, c in zip(t, t[1:], t[2:]) if a == c}

    def causal(a, b):
        return (a, b) in follow and ((b, a) not in follow or plus and (a, b) in near and (b, a) in near)
    unrelated = {(a, b) for a in kept for b in kept if (a, b) not in follow and (b, a) not in follow}
    free = [frozenset(s) for s in subsets(kept) if all((a, b) in unrelated for a in s for b in s)]
    pairs = [(a, b) for a in free for b in free if all(causal(x, y) for x in a for y in b)]
    pairs = [p for p in pairs if not any(q != p and p[0] <= q[0] and p[1] <= q[1] for q in pairs)]
    places = {p: (set(p[0]), set(p[1])) for p in pairs}
    for c in loops:
        p = (frozenset(a for a, b in full if b == c != a), frozenset(b for a, b in full if a == c != b))
        ins, outs = places.setdefault(p, (set(), set()))
        ins.add(c)
        outs.add(c)
    exp = [(sorted(a), sorted(b), None) for a, b in places.values()]
    exp.append(([], sorted({t[0] for t in left if t}), 'StartPlace'))
    exp.append((sorted({t[-1] for t in left if t}), [], 'EndPlace'))
    if plus:
        ctx.check(sorted(map(str, map(g.id, extra))) == sorted(map(str, loops)), 'classes that repeat in %r: %r' % (cl, extra))
    what = '%s net of %r' % (('alpha', 'alpha+')[plus], cl)
    compare(ctx, g, net, classes, exp, what)
    if not plus:
        ts = {t[0]: t for t in net[1]}
        for p, ins, outs in extra:
            ctx.check(sorted(ins) == sorted(i for i, t in ts.items() if p in [a[1] for a in t[4]]), '%s: transitions before a place' % what)
            ctx.check(sorted(outs) == sorted(i for i, t in ts.items() if p in [a[1] for a in t[3]]), '%s: transitions after a place' % what)


def subsets(xs):
    return chain.from_iterable(combinations(xs, k) for k in range(1, len(xs) + 1))


def compare(ctx, g, net, classes, exp, what):
    places, ts, first, last = net
    names = {t[0]: g.id(t[1]) for t in ts}
    ctx.check(len(names) == len(ts) and sorted(map(str, names.values())) == sorted(map(str, classes)), '%s: transitions %r' % (what, sorted(map(str, names.values()))))
    ctx.check(all(t[2] == 0 for t in ts), '%s: a silent transition' % what)
    arcs = [a[0] for t in ts for a in t[3] + t[4]]
    ctx.check(len(arcs) == len(set(arcs)), '%s: arcs share an id' % what)
    ids = {p for p, _ in places}
    ctx.check(len(ids) == len(places) and all(a[1] in ids for t in ts for a in t[3] + t[4]), '%s: arcs of places that are not there' % what)
    got = []
    for p, name in places:
        ins = sorted(names[t[0]] for t in ts for a in t[4] if a[1] == p)
        outs = sorted(names[t[0]] for t in ts for a in t[3] if a[1] == p)
        got.append((ins, outs, name if name in ('StartPlace', 'EndPlace') else None))
    ctx.check(sorted(got, key=repr) == sorted(exp, key=repr), '%s: places %r, expected %r' % (what, sorted(got, key=repr), sorted(exp, key=repr)))
    ends = [next((p for p, n in places if n == x), None) for x in ('StartPlace', 'EndPlace')]
    ctx.check(first == [(ends[0], 1)] and last == [(ends[1], 1)], '%s: markings %r and %r' % (what, first, last))
