"""Removing events / traces keeps exactly the rest."""
from .common import *
from symex.harness import ASCII

ASSUMPTIONS = ['the predicate given by the user is a pure function of the event']
BOUNDS_TEXT = ('all logs with up to 5 events in up to 3 traces with arbitrary name equality pattern, 0-3 removed names, '
               'arbitrary boolean predicate per event, symbolic minimal trace length -2..9; 2/3-letter alphabets up to 8 '
               'events, names of length 0-3, traces that hold one event object twice, traces of 24-40 events and 12-trace logs with 2-3 symbolic events')


def setup(symbolic):
    import ficus.legacy.pipelines.mutations.mutations_parts
    import ficus.legacy.pipelines.filtering.filter_parts


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    c = []
    for op in ('name', 'names0', 'names1', 'names2', 'names3', 'pred', 'count'):
        full = {'name': 5, 'names0': 3, 'names1': 4, 'names2': 4, 'names3': 3, 'pred': 4, 'count': 3}[op]
        for d in std_cfgs(tier, full, extra=x, ab=((2, (7,)), (2, (4, 3))) if op in ('name', 'names2') else (),
                          longs=op in ('name', 'names2', 'pred', 'count'), lens=op in ('name', 'names2'), op=op):
            d = dict(d)
            d['name'] = op + '-' + d['name']
            c.append(d)
        for s in ((1,), (2, 1), (3,)):
            c.append({'name': '%s-shared%s' % (op, 'x'.join(map(str, s))), 'traces': ['S' * k for k in s], 'op': op, 'share': 1})
    return c


def harness(ctx, cfg):
    from ficus.legacy.mutations import event_log_mutations as m
    from ficus.legacy.pipelines.mutations import mutations_parts as mp
    from ficus.legacy.pipelines.filtering import filter_parts as fp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    op = cfg['op']
    rng = alpha(cfg['alpha']) if cfg.get('alpha') else ASCII
    via = ctx.index('via', 3 if cfg['op'] == 'count' else 2)
    snap = b.snapshot()
    tr0 = list(b.log)

    def run(fn, part):
        if via == 0:
            return fn()
        if via == 2:
            return fp.FilterTracesByCount().execute(PipelinePartResult().with_log(b.log)).get_value_or_throw('log')
        inp = PipelinePartResult().with_log(b.log)
        r = part().execute(inp)
        return r.get_value_or_throw('log')
    if op == 'name':
        x = ctx.name('rm', cfg['len'] if cfg.get('len') else 1, rng)
        res = run(lambda: m.remove_event_from_log(b.log, x), lambda: mp.RemoveEventFromLogByName(x))
        keep = [[bool(n != x) for n in t] for t in b.names]
    elif op.startswith('names'):
        xs = [ctx.name('rm%d' % i, cfg['len'] if cfg.get('len') else 1, rng) for i in range(int(op[5:]))]
        res = run(lambda: m.remove_events_from_log(b.log, set(xs)), lambda: mp.RemoveEventsFromLogByNames(list(xs)))
        keep = [[all(bool(n != x) for x in xs) for n in t] for t in b.names]
    elif op == 'pred':
        # arbitrary predicate: one free boolean per event (long logs: depends on the symbolic name)
        if sum(map(len, b.names)) <= 8:
            fl = {}
            for t in b.events:
                for e in t:
                    if id(e) not in fl:
                        fl[id(e)] = ctx.bool('p%d' % e['uid'])
        else:
            c = ctx.name('pc', 1, rng)
            fl = {id(e): bool(e[CN] == c) for t in b.events for e in t}
        pred = lambda e: fl[id(e)]
        res = run(lambda: m.filter_log(b.log, pred), lambda: mp.RemoveEventsFromLogPredicate(pred))
        keep = [[not fl[id(e)] for e in t] for t in b.events]
    else:
        k = 0 if via == 2 else ctx.int('min', -2, 41, 1)
        res = run(lambda: m.remove_empty_traces(b.log, k), lambda: fp.FilterTracesByCount(k))
        exp = [i for i, t in enumerate(b.names) if bool(len(t) > k)]
        ctx.check(len(res) == len(exp), 'number of surviving traces: %d, expected %d' % (len(res), len(exp)))
        for t, i in zip(res, exp):
            ctx.check(len(t) == len(b.events[i]) and all(x is y for x, y in zip(t, b.events[i])),
                      'a surviving trace differs from the original one')
        finish(ctx, b, snap, tr0)
        return
    exp = []
    for t, kt in zip(b.events, keep):
        tt = [e for e, k in zip(t, kt) if k]
        if tt:
            exp.append(tt)
    ctx.check(len(res) == len(exp), 'number of traces %d, expected %d' % (len(res), len(exp)))
    for t, et in zip(res, exp):
        ctx.check(len(t) == len(et), 'trace of %d events, expected %d' % (len(t), len(et)))
        for x, y in zip(t, et):
            ctx.check(ctx.all([same_payload(ctx, x.payload, dict(y.payload))]), 'event attributes differ')
            ctx.check(x['uid'] == y['uid'], 'wrong event kept / order changed')
    finish(ctx, b, snap, tr0)


def finish(ctx, b, snap, tr0):
    ctx.check(len(b.log) == len(tr0) and all(x is y for x, y in zip(b.log, tr0)), 'the input log lost or reordered traces')
    b.check_untouched(snap)
