"""Variants partition."""
from .common import *
from symex.harness import ASCII

ASSUMPTIONS = []
BOUNDS_TEXT = ('all logs with up to 6 events in up to 4 traces (empty traces included), any equality pattern; 2-letter alphabets '
               'up to 5 traces of 2 events; names of length 0-3; long (24-40 events) traces and 12 traces with symbolic events')


def setup(symbolic):
    import ficus.legacy.pipelines.filtering.filter_parts


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    c = std_cfgs(tier, 5, 4, extra=x, ab=((2, (3, 3, 3)), (2, (2, 2, 2, 2)), (3, (2, 2, 2))))
    c += [tcfg('full3x3', ['SSS', 'SSS']), tcfg('full2x2x2', ['SS', 'SS', 'SS']), tcfg('len2x', ['SS', 'SS'], len=2),
          tcfg('lenmix', ['SS', 'SS', 'SS'], lens=[1, 2, 2, 1, 1, 1]), tcfg('len3x', ['S', 'S', 'S'], len=3),
          tcfg('ones', ['S'] * 5), tcfg('longtail', ['a' * 20 + 'SS', 'a' * 20 + 'SS']),
          tcfg('longhead', ['SS' + 'a' * 20, 'SS' + 'a' * 20]),
          tcfg('mixed', ['SaS', 'Sab', 'aab', 'ab', 'SS', 'a'])]
    return c


def harness(ctx, cfg):
    from ficus.legacy.analysis.event_log_split import split_log_by_traces
    from ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByVariants
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    snap = b.snapshot()
    tr0 = list(b.log)
    groups = split_log_by_traces(b.log)
    flt = FilterTracesByVariants().execute(PipelinePartResult().with_log(b.log)).get_value_or_throw('log')
    cl, _ = b.classes()
    exp = {}
    for i, t in enumerate(cl):
        exp.setdefault(tuple(t), []).append(i)
    pos = {id(t): i for i, t in enumerate(tr0)}
    got = []
    for g in groups:
        ctx.check(len(g) > 0, 'empty variant group')
        ctx.check(all(id(t) in pos for t in g), 'a group holds a trace that is not in the log')
        got.append([pos[id(t)] for t in g])
    flat = sorted(i for g in got for i in g)
    ctx.check(flat == list(range(len(tr0))), 'groups are not a partition of the traces: %r' % got)
    ctx.check(sorted(sorted(g) for g in got) == sorted(exp.values()), 'variant groups %r, expected %r' % (got, sorted(exp.values())))
    reps_ = [pos.get(id(t), None) for t in flt]
    ctx.check(len(flt) == len(exp), 'variant filter keeps %d traces, expected %d' % (len(flt), len(exp)))
    seqs = []
    for t in flt:
        ids = Ids(reps(b, cl))
        seqs.append(tuple(ids(e[CN]) for e in t))
    ctx.check(sorted(seqs) == sorted(exp), 'variant filter must keep one trace per variant')
    b.check_untouched(snap)
    ctx.check(len(b.log) == len(tr0) and all(x is y for x, y in zip(b.log, tr0)), 'the input log changed')
