"""Helpers that look into logs and activities: names of sub-arrays, levels, texts of nodes."""
from .trees import *

ASSUMPTIONS = ['sub-arrays lie inside their trace']
BOUNDS_TEXT = ('traces of up to 4 symbolic events (up to 3 traces), every sub-array of them, names and own classes; up to 4 activities on up to 3 symbolic levels in every order, with up to 3 instances per trace'
               '; 14 activities of which two have any level, sub-arrays of up to 20 events')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in ((1,), (2,), (3,), (4,), (2, 2), (0, 3), (2, 1, 1)) + (((5,), (3, 2)) if t else ()):
        out.append(tcfg('subs-' + 'x'.join(map(str, s)), ['S' * n for n in s], kind='subs'))
    out.append(tcfg('subs-len', ['SSS'], lens=[0, 2, 1], kind='subs'))
    out.append(tcfg('subs-cls', ['SSS', 'S'], kind='subs', cls=1, alpha=3))
    out.append(tcfg('subs-long', ['abSabSc'], alpha=4, kind='subs'))
    for n in range(0, 5 if t else 4):
        out.append(tcfg('level-%d' % n, ['abcd'], kind='level', n=n, inst=(0, 2, 1)))
    out.append(tcfg('level-4', ['abcd'], kind='level', n=4, inst=(1,)))
    out.append(tcfg('level-14', ['abcd'], kind='level', n=14, inst=(9, 0, 3, 1), free=2))
    out.append(tcfg('subs-wide', ['abcdefghijklaaaaSbcb', 'S', 'xyzzyxzxyxxyz'], kind='subs', given=[[(0, 20), (1, 12), (12, 4), (3, 0), (15, 5)], [(0, 1)], [(0, 13), (2, 3), (7, 6)]]))
    out.append(tcfg('str', ['SSS'], kind='str'))
    out.append(tcfg('str-len', ['SSS'], kind='str', lens=[2, 0, 1]))
    return out


def harness(ctx, cfg):
    globals()['k_' + cfg['kind']](ctx, cfg)


def same_set(ctx, got, want, what):
    """got lists every name of want exactly once"""
    ctx.check(len(got) == len(want), '%s: %d names, expected %d' % (what, len(got), len(want)))
    for w in want:
        ctx.check(any(bool(g == w) for g in got), what + ': a name is missing')


def k_subs(ctx, cfg):
    from ficus.legacy.analysis.patterns import util as u
    from ficus.legacy.analysis.patterns.patterns_models import SubArrayWithTraceIndex
    from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
    b = LogBuilder(ctx, cfg)
    snap0 = b.snapshot()
    ext, names = None, b.names
    if cfg.get('cls'):
        ext, names = attach_classes(ctx, b, cfg)
        snap0 = b.snapshot()
    per, flat, spec = [], [], []
    for ti, t in enumerate(b.names):
        cur = []
        if cfg.get('given'):
            per.append([(ti, *x) for x in cfg['given'][ti]])
            continue
        for k in range(2 if len(b.names) == 1 else 1):
            st = ctx.index('s%d_%d' % (ti, k), len(t) + 1)
            ln = ctx.index('l%d_%d' % (ti, k), len(t) - st + 1)
            cur.append((ti, st, ln))
        per.append(cur)
    flat = [x for k in range(max(map(len, per)) - 1, -1, -1) for t in per for x in t[k:k + 1]]

    def distinct(l):
        out = []
        for x in l:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return out
    got = u.convert_sub_arrays_to_event_names(b.log, [SubArrayWithTraceIndex(first_pos=s, length=l, trace_index=t) for t, s, l in flat])
    ctx.check(len(got) == len(flat), 'one list of names per sub-array')
    for g, (t, s, l) in zip(got, flat):
        same_set(ctx, g, distinct(b.names[t][s:s + l]), 'names of a sub-array')
    got = u.convert_log_sub_arrays_to_event_names(b.log, [[SubArrayInEventLog(first_pos=s, length=l) for _, s, l in t] for t in per])
    ctx.check(len(got) == len(per), 'one list per trace')
    for g, t in zip(got, per):
        ctx.check(len(g) == len(t), 'one list of names per sub-array of a trace')
        for a, (ti, s, l) in zip(g, t):
            w = b.names[ti][s:s + l]
            ctx.check(len(a) == len(w), 'number of names')
            for x, y in zip(a, w):
                ctx.check(x == y, 'names in order')
    for t, s, l in flat if cfg.get('given') else flat[:2]:
        r = SubArrayWithTraceIndex(first_pos=s, length=l, trace_index=t)
        got = u.sub_array_with_event_index_to_event_names(b.log, r, *([ext] if ext else []))
        same_set(ctx, got, distinct(names[t][s:s + l]), 'classes of a repeat set')
    b.check_untouched(snap0)


def k_level(ctx, cfg):
    from ficus.legacy.analysis.patterns import util as u
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, SubArrayWithTraceIndex, ActivityInTraceInfo
    n = cfg['n']
    free = cfg.get('free', n)
    lev = [ctx.int('level%d' % i, 0, 1000) if i < free else ctx.int('level%d' % i, i * 7 % 11 * 5, i * 7 % 11 * 5) for i in range(n)]
    acts = [ActivityNode('act%d' % i, SubArrayWithTraceIndex(first_pos=0, length=1, trace_index=0), {i}, lambda e: e[CN], lev[i]) for i in range(n)]
    kept = list(acts)
    cl = []
    for i in range(n):
        for j in range(i):
            if bool(lev[i] == lev[j]):
                cl.append(cl[j])
                break
        else:
            cl.append(i)
    got = u.split_activities_by_level(acts)
    ctx.check(len(got) == len(set(cl)), 'levels')
    for (a, _), (b, _) in zip(got, got[1:]):
        ctx.check(a < b, 'levels are not ascending')
    for k, g in got:
        m = [i for i in range(n) if bool(lev[i] == k)]
        ctx.check(len(g) == len(m) and all(x is acts[i] for x, i in zip(g, m)), 'activities of a level')
        g2 = u.get_activities_for_level(acts, k)
        ctx.check(len(g2) == len(m) and all(x is acts[i] for x, i in zip(g2, m)), 'activities for a level')
    ctx.check(len(acts) == len(kept) and all(a is b for a, b in zip(acts, kept)), 'the given activities changed')
    if not n:
        return
    want = ctx.int('wanted', 0, 1000)
    if not any(bool(l == want) for l in lev):
        try:
            g3 = u.get_activities_for_level(acts, want)
        except KeyError:
            g3 = []
        ctx.check(len(g3) == 0, 'activities for a level nobody has')
    inst = [[ActivityInTraceInfo(node=acts[ctx.index('n%d_%d' % (i, j), n) if free == n else (i + j) * 5 % n], start_pos=j, length=1) for j in range(k)] for i, k in enumerate(cfg['inst'])]
    got = u.select_traces_activities_for_activity_level(inst, want)
    ctx.check(len(got) == len(inst), 'one list of instances per trace')
    for g, t in zip(got, inst):
        w = [x for x in t if bool(x.node.activity_level == want)]
        ctx.check(len(g) == len(w) and all(x is y for x, y in zip(g, w)), 'instances of a level')
    ctx.check([len(t) for t in inst] == list(cfg['inst']), 'the given instances changed')


def k_str(ctx, cfg):
    """text of a node: its own and, in brackets, those of its children in order"""
    b = LogBuilder(ctx, cfg)
    from ficus.legacy.analysis.patterns.patterns_models import EventClassNode
    r, c, d = EventClassNode(b.names[0][0]), EventClassNode(b.names[0][1]), EventClassNode(b.names[0][2])
    ctx.check(text(ctx, r) == b.names[0][0], 'text of a leaf')
    r.child_nodes += [c, d]
    c.child_nodes.append(EventClassNode('z'))
    ctx.check(text(ctx, r) == b.names[0][0] + '(' + b.names[0][1] + '(z))(' + b.names[0][2] + ')', 'text of a tree')


def text(ctx, v):
    if not ctx.symbolic:
        return str(v)
    from symex.instrument import sstr
    return sstr(v)
