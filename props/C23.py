"""Multi-level activity discovery: termination and losslessness."""
from .common import *

ASSUMPTIONS = ['uuid4 returns pairwise distinct values different from the names of the log (its contract); stubbed by a counter']
BOUNDS_TEXT = ('repeat-until-no-more and discovery for 1-2 class extractors: all traces of up to 5 events with any names, up to 8 over two names, up to 6 over three, '
               '2-3 trace logs of up to 6 events; both discovery strategies, hashed and plain names, with and without narrowing and raised levels, instance filters, '
               'both adjusting modes; class extractors with symbolic outcome per event (abstracted events: their name); partly fixed traces of 12-16 events; discovery on top of given activities in two parallel pipelines')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.high_level
    import ficus.legacy.pipelines.mutations.mutations_parts
    counting_uuid(symbolic)


def reset():
    reset_uuid()


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(name, traces, **kw):
        for kind in ('until', 'levels'):
            out.append(tcfg('%s-%s' % (kind, name), traces, kind=kind, **kw))
    for n in range(0, 7 if t else 6):
        add('full%d' % n, ['S' * n])
    for s in [(1, 1), (2, 1), (2, 2), (0, 2), (1, 1, 1)] + ([(3, 2), (2, 0, 2)] if t else []):
        add('full' + 'x'.join(map(str, s)), ['S' * k for k in s])
    add('ab2-6', ['S' * 6], alpha=2)
    add('ab2-7', ['S' * 7], alpha=2)
    add('ab2-8', ['S' * 8], alpha=2)
    add('ab3-6', ['S' * 6], alpha=3)
    add('ab2-4x3', ['S' * 4, 'S' * 3], alpha=2)
    add('ab3-5', ['S' * 5], alpha=3)
    add('long1', ['ababcdSbcdabSacd'])
    add('long2', ['abcSabcdab', 'abdSbc'])
    add('long3', ['aabbaabSaabb', 'baS'], alpha=3)
    add('names', ['SSSS'], len=2)
    if t:
        add('ab2-9', ['S' * 9], alpha=2)
        add('ab3-7', ['S' * 7], alpha=3)
        add('ab2-4x4', ['S' * 4, 'S' * 4], alpha=2)
        add('long5', ['abcabcSbcabcaSabc'], alpha=3)
    for n in (3, 4):
        out.append(tcfg('cls-%d' % n, ['abcdef'[:n]], kind='levels', cls=True, alpha=2))
        out.append(tcfg('clsu-%d' % n, ['abcdef'[:n]], kind='until', cls=True, alpha=2))
    for n, tr in (('3', ['SSS']), ('2x2', ['SS', 'SS']), ('ab', ['abcabS'])):
        out.append(tcfg('three-' + n, tr, kind='levels', three=1, alpha=3))
    for n, tr in (('0', ['']), ('2', ['SS']), ('4', ['SSSS']), ('2x2', ['SS', 'SS']), ('long', ['abSabcdScd', 'ab'])):
        out.append(tcfg('given-' + n, tr, kind='given', alpha=3))
    out.append(tcfg('cls-2x2', ['ab', 'cd'], kind='levels', cls=True, alpha=2))
    return out


def every(nodes):
    for n in nodes:
        yield n
        yield from every(n.child_nodes)


def given(ctx, cfg, b, snap):
    """discovery on top of given activities: on a copy of the context it does not reach the context"""
    from ficus.legacy.pipelines.analysis import high_level as hl
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    ext = lambda e: e[CN]
    strat = ctx.choose('strategy', (0, 1))
    mode = ctx.choose('mode', (hl.AdjustingMode.FromAllLog, hl.AdjustingMode.FromUnattachedSubTraces))
    inp = hl.DiscoverActivitiesInstancesFromRepeats(pp.RepeatActivitiesSource.MaximalRepeats, class_extractor=ext,
                                                    activity_in_trace_filter=lambda x: x.length > 2).execute(PipelinePartResult().with_log(b.log))
    if ctx.bool('no instances'):
        inp.remove('traces_activities')
    acts = inp.get_value_or_throw('activities')
    keep = list(acts)
    ins = inp.get_value_or_throw('traces_activities') if inp.has_value('traces_activities') else None
    ikeep = [list(t) for t in ins] if ins is not None else None

    def same_list(x, y):
        return len(x) == len(y) and all(p is q for p, q in zip(x, y))

    def untouched(what):
        ctx.check(inp.get_value_or_throw('activities') is acts and same_list(acts, keep), what + ': the given activities changed')
        if ins is not None:
            ctx.check(inp.get_value_or_throw('traces_activities') is ins and all(same_list(x, y) for x, y in zip(ins, ikeep)), what + ': the given instances changed')
        else:
            ctx.check(not inp.has_value('traces_activities'), what + ': the given context has instances')

    seen = []

    class See(pp.InternalPipelinePart):
        def execute(self, current_input):
            seen.append(list(current_input.get_value_or_throw('activities')))
            return current_input

    def part():
        if several:
            return hl.DiscoverActivitiesForSeveralLevels([ext, lambda e: 'all'], discovering_strategy=strat, adjusting_mode=mode, initial_activity_level=1)
        return hl.AdjustWithActivitiesFromUnattachedEvents(ext, 1, activities_discovery_strategy=strat, adjusting_mode=mode)
    several = ctx.bool('several levels')
    out = pp.ParallelPipeline(pp.Pipeline(See(), part()), pp.Pipeline(See(), part(), See())).execute(inp)
    ctx.check(len(seen) == 3 and same_list(seen[0], keep) and same_list(seen[1], keep), 'a parallel pipeline sees the activities of another one')
    got = out.get_value_or_throw('activities')
    ctx.check(len(got) >= len(keep) and same_list(got[:len(keep)], keep), 'the given activities are not part of the result')
    untouched('parallel')
    ta = out.get_value_or_throw('traces_activities')
    ctx.check(len(ta) == len(b.names), 'given: one list of instances per trace')
    for i, t in enumerate(ta):
        for x in (ikeep[i] if ikeep is not None else []):
            ctx.check(any(x.node is y.node and x.start_pos == y.start_pos and x.length == y.length for y in t), 'a given instance was lost')
        for x, y in zip(t, t[1:]):
            ctx.check(x.start_pos + x.length <= y.start_pos, 'given: instances overlap')
    b.check_untouched(snap)


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis import high_level as hl
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    ext = lambda e: e[CN]
    if cfg.get('cls'):
        f, _ = attach_classes(ctx, b, cfg)
        ext = lambda e: e['cls'] if 'cls' in list(e) else e[CN]
    snap = b.snapshot()
    if cfg['kind'] == 'given':
        return given(ctx, cfg, b, snap)
    S = pp.ActivitiesDiscoveryStrategy
    total = sum(len(t) for t in b.names)
    modes = []
    if cfg['kind'] == 'until':
        for strat in (S.DiscoverFromAllTraces, S.DiscoverFromSingleMergedTrace):
            for hashed in (True, False):
                modes.append({'strat': strat, 'hashed': hashed, 'narrow': hashed, 'inc': not hashed, 'minlen': 0})
        modes.append({'strat': S.DiscoverFromAllTraces, 'hashed': True, 'narrow': False, 'inc': True, 'minlen': 2})
    else:
        for strat in (S.DiscoverFromAllTraces, S.DiscoverFromSingleMergedTrace):
            for mode in ('FromAllLog', 'FromUnattachedSubTraces'):
                modes.append({'strat': strat, 'mode': mode, 'narrow': mode == 'FromAllLog', 'minlen': 0})
    mode = modes[ctx.index('mode', len(modes))]
    mn = mode['minlen']
    filt = lambda info: info.length >= mn
    res = PipelinePartResult().with_log(b.log)
    calls = []
    if cfg['kind'] == 'until':
        class Count(pp.InternalPipelinePart):
            def __init__(self, what):
                self.what = what

            def execute(self, current_input):
                if self.what == 'before':
                    ctx.check(any(len(t) > 0 for t in current_input.get_value_or_throw('traces_activities')), 'a level is abstracted although there is nothing to abstract')
                calls.append((self.what, sum(len(t) for t in current_input.get_value_or_throw('log'))))
                return current_input
        part = hl.DiscoverActivitiesInstancesFromRepeatsUntilNoMore(
            class_extractor=ext, use_hashes_as_event_name=mode['hashed'], discovery_strategy=mode['strat'], activity_in_trace_filter=filt,
            should_narrow_activity=mode['narrow'], increase_activity_level=mode['inc'], before_log_creation_pipeline=pp.Pipeline(Count('before')),
            after_log_creation_pipeline=pp.Pipeline(Count('after')))
        out = part.execute(res)
        new = out.get_value_or_throw('log')
        # before / after alternate and sizes never grow
        ctx.check(len(calls) % 2 == 0 and all(calls[i][0] == ('before', 'after')[i % 2] for i in range(len(calls))), 'the before and after pipelines must alternate')
        for (_, p), (_, q) in zip(calls, calls[1:]):
            ctx.check(q <= p, 'abstracting made the log longer')
        if calls:
            ctx.check(calls[0][1] == total, 'the first level must start from the given log')
            ctx.check(sum(len(t) for t in new) == calls[-1][1], 'the result is not the log of the last level')
        else:
            ctx.check(sum(len(t) for t in new) == total, 'without activities the log must stay as it is')
    else:
        second = (lambda e: e[CN]) if cfg.get('cls') else (lambda e: 'all')
        third = lambda e: 'all'
        exts = [ext, second] + ([third] if cfg.get('three') else [])
        first = ctx.choose('first level', (0, 1, 5)) if cfg.get('three') else None
        kw = {} if first is None else {'initial_activity_level': first}
        part = hl.DiscoverActivitiesForSeveralLevels(exts, **kw, discovering_strategy=mode['strat'], adjusting_mode=getattr(hl.AdjustingMode, mode['mode']),
                                                     activity_in_trace_filter=filt, should_narrow_activity=mode['narrow'])
        out = part.execute(res)
        ctx.check(out.get_value_or_throw('log') is b.log, 'discovery must not replace the log')
        for n in every(out.get_value_or_throw('activities')):
            k = [i for i, f in enumerate(exts) if n.class_extractor is f]
            ctx.check(len(k) == 1 and n.activity_level == (first or 0) + k[0], 'level of an activity')
        ta = out.get_value_or_throw('traces_activities')
        ctx.check(len(ta) == len(b.names), 'one list of instances per trace')
        for t, ins in zip(b.names, ta):
            end = 0
            for x in ins:
                ctx.check(x.start_pos >= end and x.length > 0, 'instances overlap or are out of order')
                end = x.start_pos + x.length
            ctx.check(end <= len(t), 'an instance reaches beyond the trace')
        out = pp.CreateLogFromActivities().execute(out)
        new = out.get_value_or_throw('log')
    ctx.check(len(new) == len(b.names), 'number of traces changed')
    b.check_untouched(snap)
    flat = SubstituteUnderlyingEvents().execute(PipelinePartResult().with_log(new)).get_value_or_throw('log')
    ctx.check(len(flat) == len(snap), 'flattening changed the number of traces')
    for t, st in zip(flat, snap):
        ctx.check(len(t) == len(st), 'events were lost or invented by multi-level abstraction')
        for e, (_, p0) in zip(t, st):
            ctx.check(same_payload(ctx, e.payload, p0), 'flattening does not give back the original events in order')
