"""Positional entropy: fast = slow = definition, ignoring = removing."""
from .common import *
import math

ASSUMPTIONS = ['entropies are compared up to 1e-9 (floating point); with a single non-empty trace the entropy is undefined and only agreement is required']
BOUNDS_TEXT = ('all logs of up to 5 events in up to 3 traces (empty ones included) with any names and any set of up to 2 ignored names, one of them possibly absent; '
               'up to 8 events over two or three names in up to 4 traces; partly fixed logs of 24-40 events and of 12 traces')


def setup(symbolic):
    import ficus.legacy.filtering.event_log_filters


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    out = std_cfgs(tier, 5, 3, extra=x, long_alpha=4, ab=((2, (4, 4)), (3, (3, 3)), (2, (3, 2, 3)), (2, (2, 2, 2, 2)), (3, (2, 2, 2))))
    if x:
        out += [tcfg('ab2-5x5', ['S' * 5] * 2, alpha=2), tcfg('ab3-4x4', ['S' * 4] * 2, alpha=3), tcfg('ab2-3x3x3', ['SSS'] * 3, alpha=2)]
    return out


def definition(cl, ignored):
    tr = [[c for c in t if c not in ignored] for t in cl]
    tr = [t for t in tr if t]
    n = len(tr)
    res = {}
    for c in sorted({c for t in tr for c in t}):
        m = max(len(t) for t in tr)
        ps = [sum(1 for t in tr if i < len(t) and t[i] == c) for i in range(m)]
        ps = [p / n for p in ps if p]
        res[c] = None if n == 1 else sum(-math.log(p) / math.log(n) for p in ps) / len(ps)
    return res, n


def close(a, b):
    return abs(a - b) <= 1e-9


def compare(ctx, got, want, n, ids, what):
    seen = {}
    for k, v in got.items():
        i = ids(k)
        ctx.check(i is not None and i in want, what + ': entropy of a class that is not in the log')
        ctx.check(i not in seen, what + ': a class is reported twice')
        seen[i] = float(v)
    ctx.check(len(seen) == len(want), what + ': a class of the log is not reported')
    for i, w in want.items():
        if w is None:
            continue
        ctx.check(close(seen[i], w), what + ': entropy differs from its definition')
        ctx.check(-1e-9 <= seen[i] <= 1 + 1e-9, what + ': entropy outside of its range')
    return seen


def harness(ctx, cfg):
    import warnings
    warnings.simplefilter('ignore')
    from ficus.legacy.analysis import event_log_analysis_entropy as en
    from ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace
    from ficus.legacy.mutations.event_log_mutations import remove_event_from_log
    b = LogBuilder(ctx, cfg)
    cl = class_lists(ctx, b.names)
    nm = reps(b, cl)
    ids = Ids(nm)
    snap = b.snapshot()
    want, n = definition(cl, set())
    fast = en.calculate_position_entropies_fast(b.log)
    slow = en.calculate_position_entropies(b.log)
    f = compare(ctx, fast, want, n, ids, 'fast')
    s = compare(ctx, slow, want, n, ids, 'slow')
    pos = en.create_events_positions(b.log)
    compare(ctx, en.calculate_position_entropies_fast(b.log, positions=pos), want, n, ids, 'fast with given positions')
    if n > 1:
        tot = sum(want.values())
        ctx.check(close(float(en.calculate_position_entropies_sum(b.log)), tot), 'sum of entropies')
        ctx.check(close(float(en.calculate_position_entropies_fast_sum(b.log, positions=pos)), tot), 'sum of fast entropies')
        mean = tot / len(want)
        var = sum((w - mean) ** 2 for w in want.values()) / len(want)
        ctx.check(close(float(en.calculate_pos_entropy_var(b.log)), var), 'variance of entropies')
        ctx.check(close(float(en.calculate_pos_entropy_std(b.log)) ** 2, var), 'standard deviation of entropies')
    # ignored sets
    k = len(nm)
    sets = []
    if k <= 4:
        for i in range(k):
            sets.append(({i}, False))
            for j in range(i):
                sets.append(({i, j}, False))
        sets.append((set(), False))
        sets.append((set(), True))
        if k:
            sets.append(({0}, True))
    else:
        i = ctx.index('ign_a_%d' % k, k)
        j = (i + 1) % k
        sets.append(({i, j}, False))
        sets.append(({i}, True))
    if sum(map(len, cl)) > 10:
        sets = sets[-2:]
    counts = calculate_events_in_each_trace(b.log)
    for ign, absent in sets:
        names = {nm[i] for i in ign} | ({ctx.const('absent name')} if absent else set())
        w, n = definition(cl, ign)
        box = en.PositionEntropyIgnoredEvents(names, counts)
        compare(ctx, en.calculate_position_entropies_fast(b.log, box), w, n, ids, 'fast with ignored events')
        compare(ctx, en.calculate_position_entropies_fast(b.log, box, pos), w, n, ids, 'fast with ignored events and given positions')
        compare(ctx, en.calculate_position_entropies(b.log, box), w, n, ids, 'slow with ignored events')
        if n > 1:
            ctx.check(close(float(en.calculate_position_entropies_fast_sum(b.log, box, pos)), sum(w.values())), 'sum of fast entropies with ignored events')
            ctx.check(close(float(en.calculate_position_entropies_sum(b.log, box)), sum(w.values())), 'sum of entropies with ignored events')
        rest = b.log
        for x in names:
            rest = remove_event_from_log(rest, x)
        compare(ctx, en.calculate_position_entropies_fast(rest), w, n, ids, 'fast on the log without the ignored events')
    b.check_untouched(snap)
