"""Unattached events."""
from .trees import *
from .C14 import check_instances

ASSUMPTIONS = ['instances handed in are ordered, disjoint and inside their traces (decided by C14)']
BOUNDS_TEXT = ('every set of up to 2-3 ordered disjoint instances in traces of up to 4 events over a 3-4 letter alphabet (symbolic names), '
               'activities with nested and overlapping sets, minimum numbers of events 0-3, narrowing on and off, with and without '
               'instance filter; up to 3 traces; a trace of 12 events')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


FAM = {'over': ('abc', [(0, 0, 2), (0, 1, 2)]), 'nest': ('abc', [(0, 0, 1), (0, 0, 2), (0, 0, 3)]), 'one': ('ab', [(0, 0, 1)]),
       'disj': ('abcd', [(0, 0, 2), (0, 2, 2)]), 'none': ('a', [])}


def configs(tier):
    t = tier == 'thorough'
    out = []
    for f, (tr, subs) in FAM.items():
        k = len(set(tr)) + 1
        for n in range(0, 4):
            out.append(tcfg('%s-%d' % (f, n), [tr, 'S' * n], alpha=k, subs=subs, maxn=2, only=[1]))
        out.append(tcfg('%s-1x1' % f, [tr, 'S', 'SS'], alpha=k, subs=subs, maxn=1, only=[1, 2]))
    out.append(tcfg('one-4', ['ab', 'SSSS'], alpha=2, subs=[(0, 0, 1)], maxn=3, only=[1]))
    out.append(tcfg('over-5', ['abc', 'abSab' if not t else 'SSSSS'], alpha=3, subs=FAM['over'][1], maxn=2, only=[1]))
    out.append(tcfg('nest-6', ['abc', 'abcSba'], alpha=4, subs=FAM['nest'][1], maxn=2, only=[1]))
    out.append(tcfg('free', ['SS', 'SS'], subs=[(0, 0, 2), (0, 0, 1)], maxn=1, only=[1]))
    out.append(tcfg('len2', ['SS', 'Sa'], len=2, subs=[(0, 0, 2), (0, 0, 1)], maxn=1, only=[1]))
    out.append(tcfg('cls', ['abc', 'SSS'], alpha=3, subs=[(0, 0, 2), (0, 1, 2)], maxn=1, only=[1], cls=True))
    out.append(tcfg('long', ['abcd', 'abxcdSabccda'], alpha=5, subs=FAM['disj'][1], maxn=2 if t else 1, only=[1]))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.analysis.patterns import event_log_patterns as elp
    from ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    ext, names = (lambda e: e[CN]), b.names
    if cfg.get('cls'):
        ext, names = attach_classes(ctx, b, cfg)
    only = cfg['only']
    ch = symbolic_instances(ctx, [len(names[i]) for i in only], [0], cfg['maxn'])
    cl = class_lists(ctx, names)
    tree = Tree(ctx, b, cfg['subs'], cl, ext=ext)
    other = Tree(ctx, b, [(0, 0, 1)], cl, ext=ext).nodes[0]
    insts = [[] for _ in names]
    for i, c in zip(only, ch):
        insts[i] = c
    infos = [[ActivityInTraceInfo(node=other, start_pos=s, length=l) for _, s, l in t] for t in insts]
    snap = b.snapshot()
    un = elp.create_unattached_events_log(b.log, infos)
    ctx.check(len(un) == len(insts), 'one trace of unattached events per trace')
    for tr, ev, ins in zip(un, b.events, insts):
        exp = [e for k, e in enumerate(ev) if not any(s <= k < s + l for _, s, l in ins)]
        ctx.check(len(tr) == len(exp), '%d unattached events, expected %d' % (len(tr), len(exp)))
        for g, e in zip(tr, exp):
            ctx.check(same_payload(ctx, g.payload, e.payload), 'unattached event differs or is out of order')
    plain = {}
    for narrow, minev, minlen in ((True, 1, 0), (False, 1, 0), (True, 2, 0), (False, 3, 0), (True, 0, 2)):
        kw = {'activities_in_trace_filter': lambda x: x.length >= minlen} if minlen else {}
        if minev != 1:
            kw['min_numbers_of_events'] = minev
        part = pp.DiscoverActivitiesInUnattachedSubTraces(ext, should_narrow_activity=narrow, **kw)
        given = [list(t) for t in infos]
        res = PipelinePartResult().with_log(b.log).with_activities(tree.roots).with_trace_activities(given)
        got = part.execute(res).get_value_or_throw('traces_activities')
        ctx.check(len(got) == len(insts), 'one list of instances per trace')
        if minev == 1:
            plain[narrow] = got
        for t, g, ins, old in zip(cl, got, insts, infos):
            key = [(x.start_pos, x.length) for x in g]
            ctx.check(key == sorted(key) and all(a + l <= c for (a, l), (c, _) in zip(key, key[1:])),
                      'instances are not ordered and disjoint: %r' % key)
            kept = [x for x in g if x.node is other]
            ctx.check([(x.start_pos, x.length) for x in kept] == [(s, l) for _, s, l in ins], 'the given instances must be kept')
            pos = 0
            for a, z in zip([0] + [s + l for _, s, l in ins], [s for _, s, l in ins] + [len(t)]):
                new = [x for x in g if x.node is not other and a <= x.start_pos < z]
                sub = t[a:z]
                if len(sub) < minev:
                    ctx.check(not new, 'a gap of %d events is below the minimum' % len(sub))
                    continue
                sh = [ActivityInTraceInfo(node=x.node, start_pos=x.start_pos - a, length=x.length) for x in new]
                if minlen:
                    from .C14 import greedy
                    m = [(s, l) for s, l, _ in greedy(ctx, sub, tree) if l >= minlen]
                    ctx.check([(x.start_pos, x.length) for x in sh] == m, 'filtered instances in a gap')
                else:
                    check_instances(ctx, [sub], [sh], tree, narrow)
            cover = sum(1 for x in g if x.node is not other)
            ctx.check(len(g) == len(ins) + cover, 'superfluous instances')
    for narrow in (True, False):
        # the filter sees the activity that is reported, after narrowing
        res = PipelinePartResult().with_log(b.log).with_activities(tree.roots).with_trace_activities([list(t) for t in infos])
        part = pp.DiscoverActivitiesInUnattachedSubTraces(ext, should_narrow_activity=narrow,
                                                          activities_in_trace_filter=lambda x: len(x.node.set_of_events) % 2 == 0)
        got = part.execute(res).get_value_or_throw('traces_activities')
        ctx.check(len(got) == len(plain[narrow]), 'one list of instances per trace')
        for g, w in zip(got, plain[narrow]):
            w = [(x.start_pos, x.length, id(x.node)) for x in w if x.node is other or len(x.node.set_of_events) % 2 == 0]
            ctx.check([(x.start_pos, x.length, id(x.node)) for x in g] == w, 'filtered instances in a trace')
    b.check_untouched(snap)
