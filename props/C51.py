"""Rust backend: graphs of the fuzzy miner."""
import itertools
from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = COMMON + ['thresholds of counts and the ratio threshold are not negative']
BOUNDS_TEXT = ('Rust code: all logs of up to 4 events in up to 3 traces (empty ones included) with any names, up to 8 events over 2-4 names in up to 3 traces, eight larger logs with one trace of up to 4 events over 3-5 names, ten choices of thresholds; thorough: 5 and 9 events')
RUST = Driver('graphs', fresh=True, prefixes=['features::discovery::fuzzy', 'utils::graph', 'features::analysis::event_log_info', 'utils::sets'])
# count of a class, count of a pair, preserve, ratio, utility rate, cutoff of edges, cutoff of nodes
COMBOS = [('0', '0', '0', '0', '0.5', '0', '0'), ('0', '0', '0.6', '0.1', '0.5', '0', '2'), ('0', '0', '0', '0', '0.25', '0.5', '100'), ('1', '0', '2', '0.2', '0.9', '0.3', '3'),
          ('0', '1', '0', '0', '0.5', '0.1', '3'), ('0', '0', '0.55', '0', '1', '1', '2'), ('0', '0', '0.7', '0.05', '0', '1.5', '3'),
          ('0', '0', '0', '0', '0.5', '0', '3'), ('0', '0', '0', '0', '0.5', '0', '4'), ('0', '0', '0', '0', '0.9993', '0.5', '2')]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = log_cfgs(5 if t else 4, 3, [(3, (5,)), (2, (7,)), (3, (3, 3)), (4, (2, 2, 2)), (3, (2, 2, 2)), (3, (3, 2)), (4, (4, 2)), (2, (4, 4)), (3, (6,))]
                   + ([(3, (7,)), (4, (6,)), (3, (4, 4)), (4, (4, 3)), (3, (3, 3, 2)), (2, (9,))] if t else []))
    for i, c in enumerate(out):
        c['combos'] = list(range(10)) if t or sum(c['shape']) < 4 else [i % 10, (i + 2) % 10, (i + 5) % 10]
    # all traces but one given
    for i, (ws, n, k, combos) in enumerate((([[1, 1, 0, 1]], 4, 3, range(10)), ([[0, 1, 2, 0, 1]], 4, 3, [2, 3, 5, 6]), ([[2, 0, 1, 0, 1, 0]], 4, 3, [2, 7]), ([[0, 1, 2, 0, 2, 0]], 3, 4, [0, 7, 8]),
                                            ([[2, 3, 1], [2, 0], [2, 1, 0], [0, 0, 3], [1, 1, 1]], 3, 5, [7, 8]), ([[2, 3, 2, 0, 1], [0, 1, 1, 3], [0, 2]], 3, 5, [1, 7, 8]), ([[0, 1, 3, 0], [0, 1, 2, 3, 0], [0, 2, 0], [0, 3, 0]], 2, 4, [7, 8, 9]), ([[0, 1, 2, 0], [0, 1, 3, 2, 0], [0, 3, 0], [0, 2, 0]], 2, 4, [8]))):
        out.append({'name': 'given%d' % i, 'shape': [len(w) for w in ws] + [n + t], 'ab': k, 'given': ws, 'seed': i % 2, 'combos': list(range(10)) if t else list(combos)})
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, 0, RUST)
    if 'given' in cfg:
        g.ws = [list(w) for w in cfg['given']] + [g.ws[-1]]
        g.vals = [x for w in g.ws for x in w]
    combo = COMBOS[ctx.choose('combo', cfg['combos'])]
    got, dump, last = g.call('fuzzy', list(combo) + words(g.ws))
    cl = g.classify()
    ctx.check([g.events(t) for t in dump] == g.numbered(), 'the log was changed')
    unary, binary, preserve, ratio, rate, edge, node = map(float, combo)
    what = 'graph of %r with %r' % (cl, combo)
    count, f, dist, k = {}, {}, {}, 0
    for t in cl:
        for c in t:
            count[c] = count.get(c, 0) + 1
        for p in zip(t, t[1:]):
            f[p] = f.get(p, 0) + 1
    kept = sorted(c for c, n in count.items() if n > unary)
    edges = {p: float(n) for p, n in f.items() if p[0] in kept and p[1] in kept and n > binary}

    def significance(a, b):
        n = f.get((a, b), 0)
        return 0.5 * n / sum(f.get((a, x), 0) for x in kept) + 0.5 * n / sum(f.get((x, b), 0) for x in kept)
    for a, b in itertools.combinations_with_replacement(kept, 2):
        if (a, b) in edges and (b, a) in edges:
            x, y = significance(a, b), significance(b, a)
            if min(x, y) < preserve:
                if abs(x - y) > ratio:
                    del edges[(a, b) if x < y else (b, a)]
                else:
                    edges.pop((a, b))
                    edges.pop((b, a), None)

    def correlation(a, b):
        # the mean time from the last a to the next b, in milliseconds
        if (a, b) not in dist:
            times, at = [], 0
            for t in cl:
                seen = None
                for c in t:
                    at += 1
                    if c == a:
                        seen = at
                    elif c == b and seen is not None:
                        times.append(1000.0 * (at - seen))
                        seen = None
            dist[a, b] = sum(times) / len(times) if times else 0.0
        return dist[a, b]
    use = {(a, b): rate * n + (1.0 - rate) * correlation(a, b) for (a, b), n in edges.items() for n in [f[a, b]]}
    for b in kept:
        ins = [a for a in kept if (a, b) in edges]
        if not ins:
            continue
        lo, hi = min(use[a, b] for a in ins), max(use[a, b] for a in ins)
        for a in ins:
            if ((use[a, b] - lo) / (hi - lo) if hi != lo else 1.0) < edge:
                del edges[a, b]
    # nodes: classes and clusters of them
    nodes, parts = {}, []
    for i, d in got[0]:
        known = d is not None and g.id(d)
        if d is not None and type(known) is not int and d.startswith('Cluster[') and d.endswith(']'):
            s = frozenset(g.id(x) for x in d[8:-1].split(','))
            ctx.check(len(s) == len(d[8:-1].split(',')), '%s: node %r' % (what, d))
            parts.append(s)
        else:
            s = frozenset([known])
        nodes[i] = s
    ctx.check(len(nodes) == len(got[0]) and sorted((c for s in nodes.values() for c in s), key=str) == kept, '%s: nodes %r, expected %r' % (what, list(nodes.values()), kept))
    exp = {}
    for (a, b), n in edges.items():
        x, y = [i for i, s in nodes.items() if a in s][0], [i for i, s in nodes.items() if b in s][0]
        if x != y or nodes[x] not in parts:
            exp[x, y] = exp.get((x, y), 0.0) + n
    seen = {(a, b): n for a, b, n in got[1]}
    ctx.check(len(seen) == len(got[1]) and seen == exp, '%s: edges %r, expected %r' % (what, [(sorted(nodes[a]), sorted(nodes[b]), n) for a, b, n in got[1]], [(sorted(nodes[a]), sorted(nodes[b]), n) for (a, b), n in exp.items()]))
    possible = clusters(kept, edges, {c for c in kept if count[c] < node}, correlation)
    ctx.check(frozenset(parts) in possible, '%s: clusters %r, expected one of %r of %r' % (what, [sorted(s) for s in parts], [[sorted(s) for s in p] for p in possible], edges))
    ctx.check(sorted(last[0]) == sorted(got[0]) and sorted((a, b, float(n)) for a, b, n in last[1]) == sorted(got[1]) and all(type(x[2]) is str for x in last[1]), '%s: as a default graph %r' % (what, last))


def clusters(kept, edges, low, correlation):
    """what the clusters may be, as nodes and clusters are taken in no particular order"""
    near = {a: sorted({y for x, y in edges if x == a} | {x for x, y in edges if y == a} - {a}) for a in kept}
    near = {a: [b for b in bs if b != a] for a, bs in near.items()}
    start = set()
    joining = [a for a in kept if a in low and near[a]]
    close = {a: [b for b in near[a] if correlation(a, b) == max(correlation(a, c) for c in near[a])] for a in joining}
    for order in itertools.permutations(joining):
        for picks in itertools.product(*[close[a] for a in order]):
            parts = []
            for a, b in zip(order, picks):
                for s in parts:
                    if b in s:
                        s.add(a)
                        break
                else:
                    parts.append({a})
            start.add(frozenset(map(frozenset, parts)))
    done, todo, known = set(), list(start), set(start)
    while todo:
        parts = todo.pop()
        more = set()
        inside = {a: s for s in parts for a in s}
        for s in parts:
            for d in (0, 1):
                others = {e[1 - d] for e in edges if e[d] in s} - s
                if not others or not all(x in inside for x in others):
                    continue
                cands = {inside[x] for x in others}
                mean = {c: sum(correlation(a, b) for a in s for b in c) / (len(s) * len(c)) for c in cands}
                for c in cands:
                    if mean[c] > max(mean.values()) - 1e-6:
                        more.add(parts - {s, c} | {s | c})
                break
        if not more:
            done.add(parts)
        for p in more - known:
            known.add(p)
            todo.append(p)
    return done
