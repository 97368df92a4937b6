"""Discovery of Petri nets with pm4py."""
import inspect
from .common import *
from .C22 import snap, same

ASSUMPTIONS = ['the discovery algorithms and the viewer of pm4py are stand-ins with the signatures of the real functions; they record what they are given']
BOUNDS_TEXT = ('logs of up to 4 symbolic events in up to 3 traces (empty ones included) with trace attributes, symbolic thresholds, all four algorithms, shown and saved, two discoveries in a row'
               '; a log of 7 traces with up to 13 events and a few symbolic names')
CALLS = []
FUNS = ('discover_petri_net_inductive', 'discover_petri_net_alpha', 'discover_petri_net_alpha_plus', 'discover_petri_net_heuristics', 'save_vis_petri_net', 'view_petri_net')
PARTS = {'DiscoverPetriNetInductive': FUNS[0], 'DiscoverPetriNetAlpha': FUNS[1], 'DiscoverPetriNetAlphaPlus': FUNS[2], 'DiscoverPetriNetHeuristic': FUNS[3]}


def _stand_in(name, sig):
    def f(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        CALLS.append((name, dict(b.arguments)))
        n = len(CALLS)
        return ('net', n), ('initial', n), ('final', n)
    return f


def setup(symbolic):
    import pm4py
    for n in FUNS:
        setattr(pm4py, n, _stand_in(n, inspect.signature(getattr(pm4py, n))))
    import ficus.legacy.pipelines.discovery.discovery_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for p in PARTS:
        for s in shapes(5 if t else 4, 3, True):
            out.append(tcfg('%s-%s' % (p, 'x'.join(map(str, s))), ['S' * n for n in s], part=p, kw=int(sum(s) % 2 == 0)))
        out.append(tcfg(p + '-long', ['Sbcdabcdabcda', '', 'ab', 'S', '', 'cab', 'a'], part=p, kw=0))
        out.append(tcfg(p + '-len', ['SS', 'S'], lens=[0, 2, 1], part=p, kw=1))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.discovery import discovery_parts as dp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    del CALLS[:]
    b = LogBuilder(ctx, cfg)
    for i, t in enumerate(b.log):
        t.attributes['concept:name'] = ctx.name('case%d' % i)
    before = b.snapshot()
    kw, want = {}, {}
    if cfg['part'] == 'DiscoverPetriNetInductive':
        want = {'noise_threshold': 0}
        if cfg['kw']:
            kw['noise_threshold'] = want['noise_threshold'] = ctx.real('noise', 0, 1)
    elif cfg['part'] == 'DiscoverPetriNetHeuristic':
        want = {'dependency_threshold': 0.5, 'and_threshold': 0.5, 'loop_two_threshold': 0.5}
        if cfg['kw']:
            for k, f in (('dependency_threshold', 'dependency_threshold'), ('and_threshold', 'and_threshold'), ('two_loops_threshold', 'loop_two_threshold')):
                kw[k] = want[f] = ctx.real(k, 0, 1)
    part = getattr(dp, cfg['part'])(**kw)
    res = PipelinePartResult().with_log(b.log)
    out = part.execute(res)
    ctx.check(len(CALLS) == 1 and CALLS[0][0] == PARTS[cfg['part']], 'algorithm %r' % [c[0] for c in CALLS])
    args = CALLS[0][1]
    for k, v in want.items():
        ctx.check(args[k] == v, 'parameter ' + k)
    rest = {k: v for k, v in args.items() if k not in want and k != 'log'}
    ctx.check(rest == {k: v for k, v in dict(multi_processing=False, activity_key='concept:name', timestamp_key='time:timestamp', case_id_key='case:concept:name').items() if k in rest},
              'a parameter nobody set')
    pl = args['log']
    ctx.check(len(pl) == len(b.log), 'number of traces')
    for t, u in zip(b.log, pl):
        ctx.check(len(t) == len(u), 'number of events')
        ctx.check(same(ctx, snap(t.attributes), snap(dict(u.attributes))), 'attributes of a trace')
        for e, p in zip(t, u):
            ctx.check(same(ctx, snap(e.payload), snap(dict(p.items()))), 'an event')
    net = out.get_value_or_throw('petri_net')
    ctx.check((net.petri_net, net.start_marking, net.end_marking) == (('net', 1), ('initial', 1), ('final', 1)), 'the discovered net')
    ctx.check(out.get_value_or_throw('log') is b.log, 'the log was replaced')
    b.check_untouched(before)
    for path in (None, 'a/b.png'):
        del CALLS[:]
        again = dp.DrawPetriNet(path).execute(out)
        ctx.check(len(CALLS) == 1, 'drawn once')
        f, a = CALLS[0]
        ctx.check(f == (FUNS[5] if path is None else FUNS[4]), 'saved or shown')
        ctx.check((a['petri_net'], a['initial_marking'], a['final_marking']) == (('net', 1), ('initial', 1), ('final', 1)), 'the drawn net')
        if path is not None:
            ctx.check(a['file_path'] == path, 'path')
        ctx.check(again.get_value_or_throw('petri_net') is net, 'drawing replaced the net')
    # the last discovery counts
    CALLS[:] = [None]
    last = dp.DiscoverPetriNetAlpha().execute(out).get_value_or_throw('petri_net')
    ctx.check((last.petri_net, last.start_marking, last.end_marking) == (('net', 2), ('initial', 2), ('final', 2)), 'the net of a second discovery')
