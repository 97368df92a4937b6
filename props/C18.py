"""Event class tree."""
from .common import *

ASSUMPTIONS = ['class extractors are functions of the name they are given']
BOUNDS_TEXT = ('all logs with up to 4 events in up to 3 traces (any equality pattern), 0-3 extractors with arbitrary symbolic classes (up to 3-4 '
               'names), names and classes of length 0-2; a 14-event log with 1-2 extractors')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in shapes(4 if t else 3, 3, True):
        if s.count(0) > 1:
            continue
        for k in (0, 1, 2, 3):
            if (k == 3 and sum(s) > 3) or (sum(s) > 3 and len(s) > 1 and k > 1):
                continue
            out.append(tcfg('sym%s-k%d' % ('x'.join(map(str, s)), k), ['S' * n for n in s], k=k))
    for k in (1, 2):
        out.append(tcfg('full4-k%d' % k, ['SSSS'], k=k))
        out.append(tcfg('len2-k%d' % k, ['SS', 'S'], len=2, k=k))
    out.append(tcfg('len01-k1', ['SSS'], lens=[0, 1, 2], k=1))
    out.append(tcfg('empty-k1', ['SSS'], k=1, clens=(0, 1)))
    out.append(tcfg('empty-k2', ['SSS'], lens=[1, 0, 1], k=2, clens=(0, 1, 0)))
    out.append(tcfg('letters-k1', ['abcd', 'ba'], k=1))
    out.append(tcfg('letters-k2', ['abcd', 'aab'], k=2, calpha=3))
    out.append(tcfg('fixed', ['abcde', 'aSb'], k=2, calpha=2))
    out.append(tcfg('prefix', ['abcabcSaabcba', 'cSa'], k=1, calpha=3))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import BuildEventClassTree
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    cl, _ = b.classes()
    nm = reps(b, cl)
    snap = b.snapshot()
    levels = [dict(nm)]            # level -> {class id: name}
    groups = []                    # level k -> {id at k-1: id at k}
    exts = []
    rng = alpha(cfg['calpha']) if cfg.get('calpha') else ((48, 122),)
    for k in range(cfg['k']):
        prev = levels[-1]
        outs = {i: ctx.name('x%d_%d' % (k, i), cfg.get('clens', (1,))[i % len(cfg.get('clens', (1,)))], rng) for i in prev}
        ids = ctx.classes([outs[i] for i in prev])
        m, new = {}, {}
        for i, c in zip(prev, ids):
            m[i] = c
            new.setdefault(c, outs[i])
        levels.append(new)
        groups.append(m)

        def ext(name, prev=prev, outs=outs, m=m, new=new):
            for i, n in prev.items():
                if bool(n == name):
                    return new[m[i]]
            raise AssertionError('extractor applied to a name of another level')
        exts.append(ext)
    res = BuildEventClassTree(exts).execute(PipelinePartResult().with_log(b.log))
    top = res.get_value_or_throw('event_class_tree')
    ctx.check(res.get_value_or_throw('log') is b.log, 'the log must be kept')

    def compare(nodes, level, expected):
        ids = Ids(levels[level])
        got = [ids(n.name) for n in nodes]
        ctx.check(len(got) == len(set(got)) and set(got) == set(expected),
                  'level %d has classes %r, expected %r' % (level, got, sorted(expected)))
        for n, i in zip(nodes, got):
            if level == 0:
                ctx.check(len(n.child_nodes) == 0, 'a leaf with children')
            else:
                compare(n.child_nodes, level - 1, [j for j, c in groups[level - 1].items() if c == i])
    compare(top, len(exts), levels[-1].keys())
    b.check_untouched(snap)
