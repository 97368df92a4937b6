"""Activity instances in traces."""
from .trees import *

ASSUMPTIONS = ['the activities come from the library\'s own tree construction (decided by C13), in five trees put together by hand from its nodes']
BOUNDS_TEXT = ('trees built from fixed families of nested, overlapping, equal-size and singleton sets over 2-5 names, searched in every trace of '
               'up to 5-6 symbolic events over an alphabet that includes names outside all activities; trees from all sub-arrays of symbolic '
               'traces up to 4 events; narrowing on and off, without instance filter and with filters by length, position and activity; class extractors; two-trace logs')

FAMILIES = {
    'nested': ('abcd', [(0, 0, 1), (0, 0, 2), (0, 0, 3), (0, 1, 2)]),
    'chain': ('abcd', [(0, 0, 1), (0, 0, 2), (0, 0, 3), (0, 0, 4)]),
    'overlap': ('abc', [(0, 0, 2), (0, 1, 2)]),
    'disjoint': ('abcd', [(0, 0, 2), (0, 2, 2)]),
    'grow': ('abcdce', [(0, 0, 2), (0, 1, 3), (0, 2, 4)]),
    'equal': ('abcab', [(0, 0, 2), (0, 1, 2), (0, 2, 2), (0, 0, 3)]),
    'single': ('ab', [(0, 0, 1)]),
    'two-singles': ('ab', [(0, 0, 1), (0, 1, 1)]),
    'none': ('ab', []),
    'deep': ('abcdab', [(0, 0, 4), (0, 1, 3), (0, 2, 2), (0, 4, 2), (0, 3, 1), (0, 0, 1)]),
    'bigsmall': ('abcxcd', [(0, 0, 3), (0, 4, 2), (0, 2, 1)]),
}

# trees put together by hand: any forest whose children are subsets of their parents
SPECS = {
    'deep-left': ('edcbaf', [((0, 0, 6), [((0, 0, 5), [((0, 1, 4), [])]), ((0, 4, 2), [])])]),
    'deep-right': ('edcbaf', [((0, 0, 6), [((0, 4, 2), []), ((0, 0, 5), [((0, 1, 4), [((0, 3, 2), [])])])])]),
    'skew': ('abcdab', [((0, 0, 4), [((0, 1, 3), []), ((0, 4, 2), [((0, 0, 1), [])]), ((0, 0, 3), [((0, 1, 2), [((0, 1, 1), [])])])])]),
    'forest': ('abcde', [((0, 3, 2), []), ((0, 0, 1), []), ((0, 0, 4), [((0, 0, 2), []), ((0, 2, 2), [((0, 2, 1), []), ((0, 3, 1), [])])]), ((0, 1, 3), [])]),
    'shared': ('abcab', [((0, 0, 3), [((0, 0, 2), []), ((0, 1, 2), [((0, 1, 1), [])])]), ((0, 2, 3), [((0, 3, 2), [((0, 3, 1), [])])])]),
}


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.high_level
    counting_uuid(symbolic)


def reset():
    reset_uuid()


def configs(tier):
    t = tier == 'thorough'
    out = []
    for f, (tr, subs) in FAMILIES.items():
        k = len(set(tr)) + 1
        n = 5 if k <= 3 or f in ('overlap', 'equal') else 4
        if t:
            n += 1
        out.append(tcfg('fam-%s' % f, [tr, 'S' * n], alpha=k, subs=subs))
        out.append(tcfg('fam2-%s' % f, [tr, 'SSS', '', 'S'], alpha=k, subs=subs))
    for f, (tr, spec) in SPECS.items():
        k = len(set(tr)) + 1
        out.append(tcfg('spec-%s' % f, [tr, 'S' * ((4 if k < 6 else 3) + t)], alpha=k, spec=spec, subs=[]))
    for n in range(1, 5 if t else 4):
        out.append(tcfg('all%d' % n, ['S' * n], subs=[(0, i, l) for l in range(1, n + 1) for i in range(n - l + 1)]))
    out.append(tcfg('free3', ['SSS', 'SSS'], subs=[(0, 0, 2), (0, 1, 2)]))
    out.append(tcfg('free4', ['SSSS', 'SSS'] if t else ['SSS', 'SSS'], alpha=4, subs=[(0, 0, 2), (0, 1, 2), (0, 2, 1)]))
    out.append(tcfg('symsubs', ['abcd', 'SSSS' if t else 'SSS'], alpha=4, subs=2))
    out.append(tcfg('symsubs3', ['abc', 'SSS'], alpha=4, subs=3))
    out.append(tcfg('cls', ['abc', 'SSS'], alpha=3, subs=[(0, 0, 2), (0, 1, 2)], cls=True))
    out.append(tcfg('len2', ['SS', 'SS'], len=2, subs=[(0, 0, 1), (0, 0, 2)]))
    out.append(tcfg('lenmix', ['SS', 'SS'], lens=[1, 2], subs=[(0, 0, 1), (0, 0, 2)]))
    for k in ('mr', 'sr', 'nr', 'ta', 'pa'):
        for st in (0, 1):
            for tr, al in [(['SSSS'], 3), (['abSab', 'SbS'], 3), (['SS', 'SS'], 3)]:
                out.append(tcfg('hl%d-%s-%s' % (st, k, '-'.join(tr)), tr, alpha=al, subs=[], hl=k, st=st))

    out.append(tcfg('long', ['abcde', 'abSabcabdeSSdedeabxyzaSbb'], alpha=6, subs=[(0, 0, 2), (0, 0, 3), (0, 3, 2), (0, 1, 3)]))
    out.append(tcfg('long2', ['abcdeabcde', 'aaaSaabbbbSccccdSeexexaS'], alpha=6, subs=[(0, 0, 5), (0, 3, 3), (0, 4, 3), (0, 2, 2)]))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.analysis.patterns import event_log_patterns as elp
    b = LogBuilder(ctx, cfg)
    ext, names = None, b.names
    if cfg.get('cls'):
        ext, names = attach_classes(ctx, b, cfg)
    if 'hl' in cfg:
        return high_level(ctx, cfg, b)
    subs = cfg['subs']
    if isinstance(subs, int):
        n = len(names[0])
        ss = []
        for k in range(subs):
            st = ctx.index('ss%d' % k, n)
            ss.append((0, st, 1 + ctx.index('sl%d' % k, n - st)))
        subs = ss
    cl = class_lists(ctx, names)
    tree = Tree.of(ctx, b, cfg['spec'], cl, ext) if cfg.get('spec') else Tree(ctx, b, subs, cl, ext=ext)
    snap = b.snapshot()
    kids = [(n, list(n.child_nodes), len(n.set_of_events)) for n in tree.nodes]
    for narrow in (True, False):
        raw = elp.extract_activities_from_log(b.log, tree.roots, ext, should_narrow_activity=narrow)
        check_instances(ctx, cl, raw, tree, narrow)
        for filt in (None, lambda x: x.length >= 2, lambda x: len(x.node.set_of_events) % 2 == 0 or x.start_pos % 2 == 1):
            kw = {'activity_in_trace_filter': filt} if filt else {}
            if ext is not None:
                kw['class_extractor'] = ext
            part = pp.DiscoverActivitiesInTraces(should_narrow_activity=narrow, **kw)
            res = part.execute(tree.res).get_value_or_throw('traces_activities')
            ctx.check(len(res) == len(raw), 'one list of instances per trace')
            for r, w in zip(res, raw):
                w = [(x.start_pos, x.length, id(x.node)) for x in w if filt is None or filt(x)]
                r = [(x.start_pos, x.length, id(x.node)) for x in r]
                ctx.check(r == w, 'filtered instances %r, expected %r' % (r, w))
    for n, ch, k in kids:
        ctx.check(len(n.child_nodes) == len(ch) and all(x is y for x, y in zip(n.child_nodes, ch)) and len(n.set_of_events) == k,
                  'the activity tree was modified')
    b.check_untouched(snap)


def check_instances(ctx, cl, raw, tree, narrow):
    ctx.check(len(raw) == len(cl), 'one list of instances per trace')
    roots = tree.roots
    union = set().union(*[tree.classes(r) for r in roots]) if roots else set()
    for t, inst in zip(cl, raw):
        pos = 0
        covered = set()
        for x in inst:
            ctx.check(x.start_pos >= pos and x.length > 0 and x.start_pos + x.length <= len(t),
                      'instance (%d, %d) overlaps its predecessor or leaves the trace' % (x.start_pos, x.length))
            pos = x.start_pos + x.length
            covered.update(range(x.start_pos, pos))
            ctx.check(tree.known(x.node), 'instance of an unknown activity')
            have = frozenset(t[x.start_pos:pos])
            cls = tree.classes(x.node)
            ctx.check(have <= cls, 'instance with classes %r outside its activity %r' % (have, cls))
            root = tree.root_of[id(x.node)]
            if not narrow:
                ctx.check(x.node is root, 'without narrowing instances belong to the given activities')
            else:
                def rec(n):
                    for c in n.child_nodes:
                        if have <= tree.classes(c):
                            ctx.check(len(tree.classes(c)) >= len(cls), 'activity %r should have been narrowed to %r' % (cls, tree.classes(c)))
                            rec(c)
                rec(root)
            # an instance ends only when no activity that is not smaller could take the next event
            if pos < len(t):
                nxt = have | {t[pos]}
                for r in roots:
                    rc = tree.classes(r)
                    ctx.check(not (nxt <= rc and len(rc) >= len(tree.classes(root))), 'instance %r could go on in %r' % (have, rc))
        for i, c in enumerate(t):
            ctx.check((i in covered) == (c in union), 'event %d (class %d) %s covered' % (i, c, 'is' if i in covered else 'is not'))
        model = greedy(ctx, t, tree)
        got = [(x.start_pos, x.length) for x in inst]
        ctx.check(got == [m[:2] for m in model], 'instances %r, expected %r' % (got, [m[:2] for m in model]))
        for x, m in zip(inst, model):
            ctx.check(tree.root_of[id(x.node)] is m[2], 'instance at %d belongs to another activity' % x.start_pos)


def greedy(ctx, t, tree):
    """smallest activity (by size, then name) takes the first event; grows to the first not smaller one that fits"""
    order = sorted(tree.roots, key=lambda n: len(tree.classes(n)))
    by = []
    for n in order:
        if by and len(tree.classes(by[-1][0])) == len(tree.classes(n)):
            by[-1].append(n)
        else:
            by.append([n])
    order = [n for g in by for n in sorted(g, key=lambda n: n.name)]
    out, i = [], 0
    while i < len(t):
        cur = next((n for n in order if t[i] in tree.classes(n)), None)
        if cur is None:
            i += 1
            continue
        st, have = i, {t[i]}
        i += 1
        while i < len(t):
            if t[i] not in tree.classes(cur):
                nxt = next((n for n in order if len(tree.classes(n)) >= len(tree.classes(cur)) and have | {t[i]} <= tree.classes(n)), None)
                if nxt is None:
                    break
                cur = nxt
            have.add(t[i])
            i += 1
        out.append((st, i - st, cur))
    return out


class GivenTree:
    """wraps activities found by the library; cl: class ids of the traces the repeat sets refer to"""

    def __init__(self, roots, cl):
        self.roots, self.cl, self.nodes, self.root_of = roots, cl, [], {}

        def rec(n, r):
            self.nodes.append(n)
            self.root_of[id(n)] = r
            for c in n.child_nodes:
                rec(c, r)
        for r in roots:
            rec(r, r)

    classes = Tree.classes
    known = Tree.known


def merged_classes(cl):
    out, u = [], 1000
    for t in cl:
        out += t + [u]
        u += 1
    return [out]


def high_level(ctx, cfg, b):
    from ficus.legacy.pipelines.analysis import high_level as hl
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    R, T, S = hl.RepeatActivitiesSource, hl.TandemArrayKind, hl.ActivitiesDiscoveryStrategy
    k, merge = cfg['hl'], cfg['st'] == 1
    if merge and k in ('ta', 'pa'):
        return
    snap = b.snapshot()
    cl = class_lists(ctx, b.names)
    for narrow in (True, False):
        for minlen in (0, 2):
            level, named = 0, {}
            more = {}
            if narrow:
                more['activity_level'] = level = ctx.int('level%d' % minlen, 0, 100)
            if minlen:
                def creator(sub_array, log, extractor):
                    q = (sub_array.trace_index, sub_array.first_pos, sub_array.length)
                    return named.setdefault(q, '%d,%d,%d' % q)
                more['activity_name_creator'] = creator
            kw = {'activity_in_trace_filter': lambda info: info.length >= minlen} if minlen else {}
            if k in ('ta', 'pa'):
                part = hl.DiscoverActivitiesFromTandemArrays(T.MaximalArray if k == 'ta' else T.PrimitiveArray,
                                                             should_narrow_activity=narrow, **kw, **more)
                source = hl.DiscoverTandemArrays(T.MaximalArray if k == 'ta' else T.PrimitiveArray, 20, lambda e: e[CN])
                st = S.DiscoverFromAllTraces
            else:
                kind = {'mr': R.MaximalRepeats, 'sr': R.SuperMaximalRepeats, 'nr': R.NearSuperMaximalRepeats}[k]
                st = S.DiscoverFromSingleMergedTrace if merge else S.DiscoverFromAllTraces
                part = hl.DiscoverActivitiesInstancesFromRepeats(kind, activities_discovery_strategy=st,
                                                                 should_narrow_activity=narrow, **kw, **more)
                source = hl.DiscoverRepeats(kind, lambda e: e[CN])
            res = part(PipelinePartResult().with_log(b.log))
            tree = GivenTree(res.get_value_or_throw('activities'), merged_classes(cl) if merge else cl)
            # the activities are those of the patterns of this kind, with the level and names that were asked for
            ref = hl.DiscoverActivitiesFromPatterns(source, st)(PipelinePartResult().with_log(b.log))
            rt = GivenTree(ref.get_value_or_throw('activities'), tree.cl)
            ctx.check(sorted(map(sorted, map(tree.classes, tree.nodes))) == sorted(map(sorted, map(rt.classes, rt.nodes))), 'activities of another kind of patterns')
            ctx.check(ctx.all([n.activity_level == level for n in tree.nodes]), 'level of the activities')
            for n in tree.nodes:
                q = (n.repeat_set.trace_index, n.repeat_set.first_pos, n.repeat_set.length)
                ctx.check(not minlen or n.name == named.get(q), 'the naming function was not used')
            got = res.get_value_or_throw('traces_activities')
            if minlen:
                ctx.check(len(got) == len(cl), 'one list of instances per trace')
                for t, g in zip(cl, got):
                    m = [(s, l) for s, l, _ in greedy(ctx, t, tree) if l >= minlen]
                    ctx.check([(x.start_pos, x.length) for x in g] == m, 'filtered instances')
            else:
                check_instances(ctx, cl, got, tree, narrow)
            ctx.check(res.get_value_or_throw('log') is b.log, 'the log must be kept')
    b.check_untouched(snap)
