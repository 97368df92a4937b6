"""In-place mutations change exactly what they should."""
from .common import *
from symex.harness import ASCII

ASSUMPTIONS = ['user callbacks are pure functions of the event / name']
BOUNDS_TEXT = ('all logs with up to 4 events in up to 3 traces (+ 2-letter 6-event logs, 24-40-event traces and a 12-trace log '
               'with 2-3 symbolic events), arbitrary selection per event, arbitrary renaming (one symbolic character appended '
               'or replaced), lifecycle attribute present or absent per event')

START, END = 'ARTIFICIAL_START', 'ARTIFICIAL_END'
LC = 'lifecycle:transition'
LC_VALUES = [None, 0, False, 1, [], '', 'start', 'complete']


def setup(symbolic):
    import ficus.legacy.pipelines.mutations.mutations_parts


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    c = []
    for op in ('names', 'events', 'extract', 'lifecycle', 'startend'):
        full = {'names': 4, 'events': 4, 'extract': 4, 'lifecycle': 4, 'startend': 4}[op]
        for d in std_cfgs(tier, full, extra=x, ab=((2, (6,)),), longs=True, lens=True, op=op):
            d = dict(d)
            d['name'] = op + '-' + d['name']
            c.append(d)
    return c


def harness(ctx, cfg):
    from ficus.legacy.mutations import event_log_mutations as m
    from ficus.legacy.pipelines.mutations import mutations_parts as mp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    op = cfg['op']
    n = sum(map(len, b.names))
    tr0 = list(b.log)
    small = n <= 6
    for t in b.events:
        for e in t:
            if (ctx.bool('lc%d' % e['uid']) if (small and op == 'lifecycle') else e['uid'] % 3 != 1):
                e[LC] = LC_VALUES[ctx.index('lcv%d' % e['uid'], len(LC_VALUES))] if op == 'lifecycle' and n <= 2 else LC_VALUES[-1 - e['uid'] % 3] if op == 'lifecycle' else ctx.const('complete')
    snap = b.snapshot()
    inp = PipelinePartResult().with_log(b.log).with_custom_data('other', 5)
    piv = ctx.name('pivot', 1, alpha(cfg['alpha']) if cfg.get('alpha') else ASCII)
    repl = ctx.name('repl', 1)
    via = ctx.index('via', 2) if op in ('names', 'events', 'lifecycle') else 1

    calls = []
    if op == 'names':
        def f(s):
            return repl if bool(s == piv) else s + 'x'
        if via:
            out = mp.PreprocessEventsNames(f).execute(inp)
        else:
            m.preprocess_event_names_inplace(b.log, f)
            out = inp
        exp = lambda e, p: dict(p, **{CN: f(p[CN])})
    elif op == 'events':
        def g(e):
            calls.append(e)
            if bool(e[CN] == piv):
                e['mark'] = 1
        if via:
            out = mp.PreprocessEvents(g).execute(inp)
        else:
            m.preprocess_events(b.log, g)
            out = inp
        exp = lambda e, p: dict(p, mark=1) if bool(p[CN] == piv) else p
    elif op == 'extract':
        sel = {id(e): (ctx.bool('s%d' % e['uid']) if small else bool(e[CN] == piv)) for t in b.events for e in t}
        use_sel = ctx.bool('usesel')
        ex = lambda e: repl + e[CN] + 'uv'[e['uid'] % 2]
        if use_sel:
            out = mp.ApplyClassExtractor(ex, lambda e: sel[id(e)]).execute(inp)
        else:
            out = mp.ApplyClassExtractor(ex).execute(inp)
        exp = lambda e, p: dict(p, **{CN: repl + p[CN] + 'uv'[p['uid'] % 2]}) if (sel[id(e)] or not use_sel) else p
    elif op == 'lifecycle':
        if via:
            out = mp.RemoveLifecycleTransitionsAttributes().execute(inp)
        else:
            m.remove_lifecycle_attribute(b.log)
            out = inp
        exp = lambda e, p: {k: v for k, v in p.items() if k != LC}
    else:
        out = mp.AddArtificialStartEndEvents().execute(inp)
        exp = lambda e, p: p
    rlog = out.get_value_or_throw('log')
    ctx.check(rlog is b.log, 'the result context must hold the mutated log')
    ctx.check(len(rlog) == len(tr0) and all(x is y for x, y in zip(rlog, tr0)), 'traces lost, added or reordered')
    for t, st in zip(rlog, snap):
        evs = list(t)
        if op == 'startend':
            ctx.check(len(evs) == len(st) + 2, 'exactly one start and one end event must be added')
            ctx.check(evs[0][CN] == START and len(evs[0]) == 1 and evs[-1][CN] == END and len(evs[-1]) == 1,
                      'first event must be the artificial start and last the artificial end')
            evs = evs[1:-1]
        ctx.check(len(evs) == len(st), 'number of events changed')
        for e, (e0, p0) in zip(evs, st):
            ctx.check(e is e0, 'event replaced or reordered')
            ctx.check(same_map(ctx, e.payload, exp(e0, p0)), 'payload of an event is not what the mutation defines')
    if op == 'startend':
        heads = [id(e) for t in rlog for e in (t[0], t[-1])]
        ctx.check(len(heads) == len(set(heads)), 'artificial events must be distinct objects')
    if op == 'events':
        allv = [e for t in b.events for e in t]
        ctx.check(len(calls) == len(allv) and all(x is y for x, y in zip(calls, allv)), 'mutator must see each event once, in order')


def same_map(ctx, p, q):
    if set(p.keys()) != set(q.keys()):
        return False
    return ctx.all([p[k] == q[k] for k in q])
