"""Rust backend: nets of the heuristic miner."""
from .rustlog import *
from .rustlog import Driver
from .C47 import subsets
from .C49 import replays

ASSUMPTIONS = COMMON
BOUNDS_TEXT = ('Rust code: all logs of up to 4 events in up to 3 traces (empty ones included) with any names, up to 8 events over 2-4 names in up to 4 traces, five choices of thresholds; thorough: 5 and 10 events')
RUST = Driver('nets', fresh=True, prefixes=['features::discovery::heuristic', 'features::discovery::petri_net', 'utils::sets'])
# dependency, least observations, relative to best, and, loops of length two
COMBOS = [('0.2', 1, '1.0', '0.1', '0.5'), ('0.0', 0, '0.05', '0.3', '0.4'), ('-1.5', 1, '1.0', '0.0', '0.6'), ('0.4', 2, '0.2', '0.5', '0.9'), ('-0.1', 0, '0.5', '-1.0', '-1.0')]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = log_cfgs(5 if t else 4, 3, [(3, (5,)), (2, (7,)), (3, (3, 3)), (4, (2, 2, 2)), (3, (2, 2, 2)), (3, (3, 2)), (4, (4, 2)), (2, (4, 4)), (2, (2, 2, 2, 2))]
                   + ([(3, (7,)), (3, (4, 4)), (4, (4, 3)), (3, (2, 2, 2, 2)), (3, (3, 3, 2)), (4, (3, 3)), (2, (10,))] if t else []))
    for i, c in enumerate(out):
        c['combos'] = list(range(5)) if t or sum(c['shape']) < 4 else [i % 5, (i + 2) % 5]
    # one class followed by several parallel ones
    for k, s in ((4, (4, 4)), (4, (3, 3, 3))) if t else ((3, (4, 4)),):
        out.append({'name': 'first%d-%s' % (k, 'x'.join(map(str, s))), 'shape': list(s), 'ab': k, 'first': True, 'seed': len(out) % 2, 'combos': [0, 2]})
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, 0, RUST)
    if cfg.get('first'):
        for w in g.ws:
            w[0] = 0
        g.vals = [x for w in g.ws for x in w]
    dep, least, best, both, two = COMBOS[ctx.choose('combo', cfg['combos'])]
    net, marked, replayed, dump = g.call('heuristic', [dep, least, best, both, two] + words(g.ws))
    cl = g.classify()
    ctx.check([g.events(t) for t in dump] == g.numbered(), 'the log was changed')
    dep, best, both, two = map(float, (dep, best, both, two))
    classes = sorted({c for t in cl for c in t})
    pairs, near = {}, {}
    for t in cl:
        for p in zip(t, t[1:]):
            pairs[p] = pairs.get(p, 0) + 1
        for a, b, c in zip(t, t[1:], t[2:]):
            if a == c:
                near[a, b] = near.get((a, b), 0) + 1

    def f(a, b):
        return pairs.get((a, b), 0)
    followers = {}
    for a in classes:
        found = {}
        for b in classes:
            m = (f(a, b) - f(b, a)) / (f(a, b) + f(b, a) + 1.0) if a != b else f(a, a) / (f(a, a) + 1.0)
            if f(a, b) >= least and m > dep:
                found[b] = m
        kept = sorted(b for b, m in found.items() if m >= max(found.values()) * (1.0 - best))
        if kept:
            followers[a] = kept
    what = 'net of %r with %r' % (cl, (dep, least, best, both, two))
    # the shape of the net: places by the transitions around them
    places, visible, silent = set(), {c: ([], []) for c in classes}, []
    for a, fs in followers.items():
        par = {(b, c) for b in fs for c in fs if b != c and (f(b, c) + f(c, b)) / (f(a, b) + f(a, c) + 1.0) > both}
        groups = [frozenset(s) for s in subsets(fs) if len(s) > 1 and all((b, c) in par for b in s for c in s if b != c)]
        groups = [s for s in groups if not any(s < r for r in groups)]
        visible[a][1].append(('post', a))
        for s in groups:
            silent.append((a, s))
            for b in s:
                visible[b][0].append(('pre', a, s, b))
                places.add(('pre', a, s, b))
        for b in fs:
            if not any(b in s for s in groups):
                visible[b][0].append(('post', a))
        places.add(('post', a))
    loops = [(a, b) for a in classes for b in classes if a != b and n2(near, a, b) / (n2(near, a, b) + 1.0) > two]
    new = [(a, list(visible[b][1]), list(visible[b][0])) for a, b in loops]
    for a, ins, outs in new:
        for d, ps in ((0, ins), (1, outs)):
            visible[a][d].extend(ps)
    visible = {c: (set(a), set(b)) for c, (a, b) in visible.items()}
    known = match(ctx, g, net, places, visible, silent, what)
    ctx.check(net[2] is None and net[3] is None, '%s: markings' % what)
    # with the initial marking
    start = [p for p, n in marked[0] if n == 'Start']
    end = [p for p, n in marked[0] if n == 'End']
    ctx.check(len(start) == len(end) == 1 and marked[2] == [(start[0], 1)] and len(marked[0]) == len(net[0]) + 2, '%s: places added' % what)
    before = {t[0]: t for t in net[1]}
    for t in marked[1]:
        c = known.get(t[0])
        for d, p, first in ((3, start[0], True), (4, end[0], False)):
            more = [p] if c is not None and any(t and t[0 if first else -1] == c for t in cl) else []
            ctx.check([a[1] for a in t[d]] == [a[1] for a in before[t[0]][d]] + more, '%s: arcs of %r after marking' % (what, c))
    steps = {t[0]: (known.get(t[0]), [a[1] for a in t[3]], [a[1] for a in t[4]]) for t in marked[1]}
    replays(ctx, cl, replayed, steps, {start[0]: 1}, False, marked, 'replay on the ' + what)


def n2(near, a, b):
    return near.get((a, b), 0) + near.get((b, a), 0)


def match(ctx, g, net, places, visible, silent, what):
    """the net is the expected one, up to the ids"""
    got, ts = net[0], net[1]
    ctx.check(len({p for p, _ in got}) == len(got) == len(places), '%s: %d places, expected %d' % (what, len(got), len(places)))
    known = {t[0]: g.id(t[1]) for t in ts if not t[2]}
    ctx.check(sorted(map(str, known.values())) == sorted(map(str, visible)), '%s: transitions %r' % (what, sorted(map(str, known.values()))))
    quiet = [t for t in ts if t[2]]
    arcs = [a[0] for t in ts for a in t[3] + t[4]]
    ctx.check(len(arcs) == len(set(arcs)) and len({t[0] for t in ts}) == len(ts), '%s: ids of arcs' % what)

    def around(p):
        return (sorted(known[t[0]] for t in ts if not t[2] and p in [a[1] for a in t[4]]), sorted(known[t[0]] for t in ts if not t[2] and p in [a[1] for a in t[3]]))

    def expected(p):
        return (sorted(c for c, (a, b) in visible.items() if p in b), sorted(c for c, (a, b) in visible.items() if p in a))
    seen = sorted([around(p) + (sum(p in [a[1] for a in t[3]] for t in quiet), sum(p in [a[1] for a in t[4]] for t in quiet)) for p, _ in got])
    exp = sorted([expected(p) + (sum(p == ('post', a) for a, s in silent), int(p[0] == 'pre')) for p in places])
    ctx.check(seen == exp, '%s: places %r, expected %r' % (what, seen, exp))
    seen = sorted([([around(a[1]) for a in t[3]], sorted(around(a[1]) for a in t[4])) for t in quiet])
    exp = sorted([([expected(('post', a))], sorted(expected(('pre', a, s, b)) for b in s)) for a, s in silent])
    ctx.check(seen == exp, '%s: silent transitions %r, expected %r' % (what, seen, exp))
    return known
