"""Abstraction of a log by activity instances and flattening."""
import re
from .trees import *
from . import textsym

ASSUMPTIONS = ['instances handed in are ordered, disjoint and inside their traces (decided by C14)']
BOUNDS_TEXT = ('every set of up to 3 ordered disjoint instances of 2 activities in traces of up to 5 events, up to 2 instances in 2-3 trace '
               'logs, all handling strategies and naming modes, 1 and 2 levels of abstraction (an upper instance over up to 3 lower ones); instances discovered by the library in '
               'traces of up to 4 symbolic events; a 14-event trace')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts
    import ficus.legacy.pipelines.mutations.mutations_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for n in range(0, 6 if t else 5):
        out.append(tcfg('one%d' % n, ['ab', 'abcdef'[:n]], maxn=3, only=[1]))
    for s in [(1, 1), (2, 1), (0, 2), (2, 2), (3, 2), (1, 1, 1)] + ([(3, 3), (2, 2, 2)] if t else []):
        out.append(tcfg('multi' + 'x'.join(map(str, s)), ['ab'] + ['abc'[:k] for k in s], maxn=2 if len(s) < 3 else 1, only=list(range(1, len(s) + 1))))
    out.append(tcfg('two-level3', ['ab', 'abc'], maxn=2, only=[1], second=2))
    out.append(tcfg('two-level4', ['ab', 'abcd'], maxn=2, only=[1], second=2))
    out.append(tcfg('two-level3x3', ['ab', 'abc'], maxn=3, only=[1], second=1))
    out.append(tcfg('two-level2x2', ['ab', 'ab', 'ba'], maxn=1, only=[1, 2], second=1))
    out.append(tcfg('names', ['ab', 'SSS'], maxn=2, only=[1]))
    for n, al in ((3, None), (4, 3)):
        out.append(tcfg('disc%d' % n, ['S' * n], disc=True, **({'alpha': al} if al else {})))
    out.append(tcfg('disc2', ['abab', 'SSS'], disc=True, alpha=3))
    out.append(tcfg('long', ['ab', 'abcdefghijklmn'], maxn=2, only=[1]) if t else tcfg('long', ['ab', 'abcdefghij'], maxn=1, only=[1]))
    return out


STRATS = ('DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents')


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.analysis.patterns import event_log_patterns as elp
    from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy as U
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    cl = class_lists(ctx, b.names)
    if cfg.get('disc'):
        n = len(b.names[0])
        tree = Tree(ctx, b, [(0, i, l) for l in (1, 2) for i in range(n - l + 1)], cl)
        infos = elp.extract_activities_from_log(b.log, tree.roots)
        insts = [[(tree.nodes.index(x.node), x.start_pos, x.length) for x in t] for t in infos]
    else:
        tree = Tree(ctx, b, [(0, 0, 1), (0, 1, 1)], cl)
        only = cfg['only']
        insts = [[] for _ in b.names]
        ch = symbolic_instances(ctx, [len(b.names[i]) for i in only], tree.nodes, cfg['maxn'])
        for i, c in zip(only, ch):
            insts[i] = c
    names_u = [n.unique_name() for n in tree.nodes]
    ctx.check(len(set(names_u)) == len(names_u), 'two activities share their unique name')
    strat = ctx.choose('strategy', STRATS)
    hashed = ctx.bool('hashed')
    new, spec = step(ctx, b.log, [list(t) for t in b.events], insts, tree, strat, hashed, b.snapshot() and b, elp, pp, U, PipelinePartResult)
    if cfg.get('second'):
        lens = [len(t) for t in new]
        ch = symbolic_instances(ctx, lens[1:], tree.nodes, cfg['second'], tag='j')
        step(ctx, new, [list(t) for t in new], [[]] + ch, tree, 'InsertAllEvents', True, None, elp, pp, U, PipelinePartResult, spec)


def leaves(e):
    """(is activity, leaves) by the documented structure"""
    if 'UnderlyingEvents' in list(e):
        return [x for y in e['UnderlyingEvents'] for x in leaves(y)]
    return [e]


def step(ctx, log, events, insts, tree, strat, hashed, b, elp, pp, U, PPR, below=None):
    infos = to_infos(insts, tree.nodes)
    snap = [[(e, dict(e.payload)) for e in t] for t in events]
    res = PPR().with_log(log).with_trace_activities(infos)
    if strat == 'InsertAllEvents' and hashed:
        out = pp.CreateLogFromActivities().execute(res)
    else:
        out = pp.CreateLogFromActivities(strategy=getattr(U, strat), use_hashes_as_names=hashed).execute(res)
    new = out.get_value_or_throw('log')
    ctx.check(new is not log, 'a new log must be created')
    ctx.check(len(new) == len(events), 'one abstracted trace per trace')
    total = 0
    for tr, ev, ins in zip(new, events, insts):
        exp, pos = [], 0
        for nd, st, ln in ins:
            gap(exp, ev, pos, st, strat)
            exp.append(('act', nd, ev[st:st + ln]))
            pos = st + ln
        gap(exp, ev, pos, len(ev), strat)
        ctx.check(len(tr) == len(exp), 'abstracted trace has %d events, expected %d' % (len(tr), len(exp)))
        for g, x in zip(tr, exp):
            if x[0] == 'act':
                node = tree.nodes[x[1]]
                ctx.check(g[CN] == (node.unique_name() if hashed else node.name), 'name of the abstracted event')
                und = g['UnderlyingEvents']
                ctx.check(len(und) == len(x[2]), 'abstracted event has %d underlying events, expected %d' % (len(und), len(x[2])))
                acts = []
                for u, o in zip(und, x[2]):
                    ctx.check(same_payload(ctx, u.payload, o.payload), 'underlying event differs from the original')
                    ctx.check(u.payload is not o.payload, 'underlying events must be copies')
                    if 'UnderlyingActivities' in list(o):
                        acts += o['UnderlyingActivities']
                ua = g['UnderlyingActivities']
                ctx.check(len(ua) == len(acts) + 1 and all(p is q for p, q in zip(ua, acts + [node])), 'underlying activities')
            elif x[0] == 'undef':
                ctx.check(g[CN] == 'UndefinedActivity' and 'UnderlyingEvents' not in list(g), 'undefined activity event')
            else:
                ctx.check(same_payload(ctx, g.payload, x[1].payload), 'event outside instances changed')
        for g in tr:
            total += len(leaves(g))
            k = elp.count_underlying_events(g)
            ctx.check(k == len(leaves(g)), 'number of underlying events')
            got = []
            elp.execute_with_underlying_events(g, got.append)
            ctx.check(len(got) == k, 'every underlying event is visited once')
            ctx.check(sorted(id(x) for x in got) == sorted(id(x) for x in leaves(g)), 'exactly the underlying events are visited')
    ctx.check(elp.calculate_underlying_events_count(new) == total, 'total number of underlying events')
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import PrintNumberOfUnderlyingEvents
    with textsym.capture(ctx) as c:
        res = PPR().with_log(new)
        ctx.check(PrintNumberOfUnderlyingEvents().execute(res).get_value_or_throw('log') is new, 'printing the number of underlying events changed the log')
        m = re.findall(r'\d+', str.__str__(c.printed()))
    ctx.check(m == [str(total)], 'printed number of underlying events')
    for t, st in zip(log, snap):
        ctx.check(len(t) == len(st), 'the original trace changed its length')
        for e, (e0, p0) in zip(t, st):
            ctx.check(e is e0 and same_payload(ctx, e.payload, p0), 'the original event changed')
    from ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
    flat = SubstituteUnderlyingEvents().execute(PPR().with_log(new)).get_value_or_throw('log')
    orig = below if below is not None else events
    ctx.check(len(flat) == len(orig), 'flattening keeps the number of traces')
    for tr, ev, ins in zip(flat, orig, insts):
        if strat == 'InsertAllEvents' or below is not None:
            keep = ev
        else:
            keep = [e for k, e in enumerate(ev) if any(s <= k < s + l for _, s, l in ins)]
        got = [e for e in tr if not (strat == 'InsertAsSingleEvent' and e[CN] == 'UndefinedActivity')]
        ctx.check(len(got) == len(keep), 'flattened trace has %d events, expected %d' % (len(got), len(keep)))
        for g, e in zip(got, keep):
            ctx.check(same_payload(ctx, g.payload, e.payload), 'flattened event differs from the original')
    return new, [list(t) for t in flat]


def gap(exp, ev, a, z, strat):
    if a >= z:
        return
    if strat == 'InsertAsSingleEvent':
        exp.append(('undef',))
    elif strat == 'InsertAllEvents':
        exp.extend(('evt', e) for e in ev[a:z])
