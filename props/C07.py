"""Directly-follows entropies agree with their definition."""
from .common import *
from .C06 import close
import math

ASSUMPTIONS = ['entropies are compared up to 1e-9 (floating point); event names differ from the artificial start and end names']
BOUNDS_TEXT = ('all logs of up to 5 events in up to 3 traces (empty ones included) with any names and any set of up to 2 ignored names, possibly absent; up to 7 events '
               'over two or three names; partly fixed logs of 24-40 events and of 12 traces')


def setup(symbolic):
    import ficus.legacy.analysis.event_log_analysis_entropy


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    return std_cfgs(tier, 5, 3, extra=x, long_alpha=4, ab=((2, (7,)), (2, (4, 3)), (3, (6,)), (2, (2, 3, 2))))


def h(v):
    return sum(-p * math.log2(p) for p in v if p)


def definition(cl, ignored, laplace):
    tr = [[c for c in t if c not in ignored] for t in cl]
    tr = [t for t in tr if t]
    cnt, fol, pre = {}, {}, {}
    for t in tr:
        for i, c in enumerate(t):
            cnt[c] = cnt.get(c, 0) + 1
            nx = t[i + 1] if i + 1 < len(t) else 'END'
            pv = t[i - 1] if i else 'START'
            fol[c, nx] = fol.get((c, nx), 0) + 1
            pre[c, pv] = pre.get((c, pv), 0) + 1
    res = {}
    for c, n in cnt.items():
        k = len(cnt)

        def pr(x):
            return (1 / n + x) / ((k + 1) / n + n) if laplace else x / n
        res[c] = h([pr(fol.get((c, d), 0)) for d in list(cnt) + ['END']]) + h([pr(pre.get((c, d), 0)) for d in list(cnt) + ['START']])
    return res


def compare(ctx, got, want, ids, what):
    seen = {}
    for k, v in got.items():
        i = ids(k)
        ctx.check(i is not None and i in want, what + ': entropy of a class that is not in the log')
        ctx.check(i not in seen, what + ': a class is reported twice')
        seen[i] = float(v)
    ctx.check(len(seen) == len(want), what + ': a class of the log is not reported')
    for i, w in want.items():
        ctx.check(close(seen[i], w), what + ': entropy differs from its definition')


def harness(ctx, cfg):
    from ficus.legacy.analysis import event_log_analysis_entropy as en
    b = LogBuilder(ctx, cfg)
    cl = class_lists(ctx, b.names)
    nm = reps(b, cl)
    ids = Ids(nm)
    snap = b.snapshot()
    k = len(nm)
    sets = [(None, False), (set(), False), (set(), True)]
    if k <= 3:
        for i in range(k):
            sets.append(({i}, False))
            for j in range(i):
                sets.append(({i, j}, i % 2 == 0))
    elif k:
        i = ctx.index('ign_a_%d' % k, k)
        j = (i + 1) % k
        sets.append(({i, j}, False))
        sets.append(({i}, True))
    if sum(map(len, cl)) > 10:
        sets = [sets[0], sets[-1]]
    for ign, absent in sets:
        names = None if ign is None else {nm[i] for i in ign} | ({ctx.const('absent name')} if absent else set())
        for lap in (False, True):
            w = definition(cl, ign or (), lap)
            tag = 'laplace' if lap else 'default'
            fn = en.calculate_laplace_entropies if lap else en.calculate_default_entropies
            got = fn(b.log, ignored_events=names) if ign is not None else fn(b.log)
            compare(ctx, got, w, ids, tag)
            compare(ctx, en.calculate_laplace_or_default_entropies(b.log, lap, names), w, ids, tag + ' by flag')
            sm = sum(w.values())
            ctx.check(close(float(en.calculate_default_entropy_sum(b.log, lap, names)), sm), tag + ': sum of entropies')
            ctx.check(close(float(en.calculate_default_entropy_average(b.log, lap, names)), sm / len(w) if w else 0), tag + ': average of entropies')
    if cfg.get('df', True) and sum(map(len, cl)) <= 3:
        w = definition(cl, (), False)
        df = en.create_entropies_df(b.log)
        rows = [(ids(i), float(v)) for i, v in zip(df.index, df['Entropy'])]
        ctx.check(sorted(i for i, _ in rows) == sorted(w), 'table of entropies does not list every class once')
        for i, v in rows:
            ctx.check(close(v, w[i]), 'table of entropies differs')
        ctx.check(all(a[1] >= c[1] for a, c in zip(rows, rows[1:])), 'table of entropies is not sorted')
    b.check_untouched(snap)
