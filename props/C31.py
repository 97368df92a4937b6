"""What remote parts do with the results delivered to them: diagrams, printed logs and counts."""
from .common import *
from . import C27, drawsym, pbsym, textsym

ASSUMPTIONS = C27.ASSUMPTIONS[:1] + ['the protobuf runtime is trusted (stand-ins with the same descriptors carry symbolic values; every path is replayed through the real messages and their real encoding)',
                                     'a colours log gives one colour per name; scales are positive; graphs, Petri nets and data sets delivered to parts are decided by C29 and C32']
BOUNDS_TEXT = ('every part that draws colours logs (plotted and on a canvas): up to 4 rectangles in 3 traces with symbolic names, lengths and colours, every legend, title, scale and path option; printing parts: '
               'logs of up to 3 traces and 4 events with symbolic names of 0-2 characters, symbolic counts over the whole wire range'
               '; colours logs of 16 rectangles in 5 traces with up to two arbitrary names and lengths, names logs of 23 events')

PLOT = {'TracesDiversityDiagram2': (), 'DrawPlacementsOfEventByName2': ('x',), 'DrawPlacementOfEventsByRegex2': ('x.*',), 'DrawFullActivitiesDiagram2': (), 'DrawShortActivitiesDiagram2': ()}


def setup(symbolic):
    drawsym.install()
    pbsym.install(symbolic)
    import ficus.grpc_pipelines.drawing_parts
    import ficus.grpc_pipelines.util_parts
    import ficus.grpc_pipelines.activities_parts
    import ficus.legacy.analysis.event_log_analysis_canvas


def configs(tier):
    t = tier == 'thorough'
    out = []
    for i, name in enumerate(PLOT):
        for s in ((), (1,), (2, 0, 1)) + (((2, 2), (3, 1)) if t else ()) if t or not i else ((1,),):
            out.append({'name': '%s-%s' % (name, 'x'.join(map(str, s))), 'kind': 'plot', 's': list(s), 'part': name})
        for s in ((), (1,), (2, 0, 1)) + (((2, 2), (3, 1)) if t else ()) if t or not i else ((2,),):
            out.append({'name': '%s-canvas-%s' % (name, 'x'.join(map(str, s))), 'kind': 'canvas', 's': list(s), 'part': name})
        if t or not i:
            out.append({'name': name + '-canvas-scales', 'kind': 'canvas', 's': [1, 1], 'scales': 1, 'part': name})
            out.append({'name': name + '-colour', 'kind': 'plot', 's': [1], 'channel': 1, 'part': name})
        out += [{'name': '%s-%s-long' % (name, k), 'kind': k, 's': [7, 0, 6, 1, 2], 'free': 2 if t or not i else 1, 'part': name} for k in ('plot', 'canvas')]
        out.append({'name': name + '-defaults', 'kind': 'defaults', 's': [1, 2], 'part': name})
    for s in shapes(4, 3, empties=True):
        out.append({'name': 'log-' + 'x'.join(map(str, s)), 'kind': 'log', 's': list(s)})
    out.append({'name': 'log-long', 'kind': 'log', 's': [12, 0, 1, 0, 0, 7, 3]})
    out.append({'name': 'info', 'kind': 'info'})
    out.append({'name': 'underlying', 'kind': 'underlying'})
    return out


def message(log):
    from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M, util_pb2 as U
    from ficus.grpc_pipelines import constants as K
    traces = []
    for tr in log:
        traces.append(P.GrpcColorsTrace(event_colors=[P.GrpcColoredRectangle(
            color=U.GrpcColor(red=r.color.red, green=r.color.green, blue=r.color.blue), start_index=0, length=r.length, name=r.name) for r in tr]))
    return {'colors_event_log': pbsym.wire(P.GrpcContextValue(colors_log=P.GrpcColorsEventLog(traces=traces)))}


def harness(ctx, cfg):
    if cfg['kind'] in ('log', 'info', 'underlying'):
        return k_print(ctx, cfg)
    C27.harness(ctx, cfg, {'plot': plot, 'canvas': canvas, 'defaults': defaults})


def part(cfg, canvas, **kw):
    from ficus.grpc_pipelines import drawing_parts as dp
    return getattr(dp, cfg['part'] + ('Canvas' if canvas else ''))(*PLOT[cfg['part']], **kw)


def plot(ctx, cfg):
    C27.k_plot(ctx, cfg, lambda log, **kw: part(cfg, False, **kw).execute_callback(message(log)))


def canvas(ctx, cfg):
    C27.k_canvas(ctx, cfg, lambda log, **kw: part(cfg, True, **kw).execute_callback(message(log)))


def defaults(ctx, cfg):
    """a plotted diagram has a legend, no scaling and is shown; a canvas has no legend and is displayed"""
    log, spec, names, cl, channels = C27.colours_log(ctx, cfg, 2)
    msg = message(log)
    part(cfg, False).execute_callback(msg)
    ax = C27.figure(ctx, 'defaults', None)
    o = type('O', (), {'ws': 1, 'hs': 1})
    col = C27.Colours(ctx, 'defaults')
    C27.check_rows(ctx, o, ax, spec, 'defaults', col.see)
    labels = {}
    for n, k in zip(names, cl):
        labels.setdefault(k, n)
    C27.legend(ctx, ax, True, sorted(labels), labels, {k: [v] for k, v in col.m.items()}, 'defaults')
    drawsym.begin()
    part(cfg, True).execute_callback(msg)
    cs = drawsym.STATE['canvases']
    ctx.check(len(cs) == 1 and drawsym.STATE['displayed'] == [cs[0]], 'defaults: canvas not displayed')
    rects = [r for r in cs[0].rects if r[4] != 'white']
    total = 0
    for r in rects:
        total = total + r[2]
    want = 0
    for sp in spec:
        for l, _ in sp:
            want = want + l
    ctx.check(total == want, 'defaults: canvas is scaled or has a legend')
    ctx.check(ctx.all([r[3] == 1 for r in rects]), 'defaults: height on the canvas')


def k_print(ctx, cfg):
    from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M
    from ficus.grpc_pipelines import util_parts, grpc_pipelines, activities_parts
    if cfg['kind'] == 'log':
        i = 0
        names = []
        for n in cfg['s']:
            t = []
            for _ in range(n):
                t.append(ctx.name('n%d' % i, (1, 2, 0, 1)[i % 4], ((0x20, 0x26), (0x28, 0x5B), (0x5D, 0x7E))))
                i += 1
            names.append(t)
        msg = P.GrpcContextValue(names_log=P.GrpcNamesEventLogContextValue(log=M.GrpcNamesEventLog(traces=[M.GrpcNamesTrace(events=t) for t in names])))
        with textsym.capture(ctx) as c:
            util_parts.PrintEventLog2().execute_callback({'names_event_log': pbsym.wire(msg)})
            got = c.printed()
        want = ctx.const('')
        for t in names:
            want = want + '['
            for j, n in enumerate(t):
                want = want + (", '" if j else "'") + n + "'"
            want = want + ']\n'
        ctx.check(got == want, 'printed log')
        return
    lo, hi = 0, 2 ** 31 - 1
    if cfg['kind'] == 'info':
        v = [ctx.int(x, lo, hi) for x in ('events', 'traces', 'classes')]
        msg = P.GrpcContextValue(event_log_info=P.GrpcEventLogInfo(events_count=v[0], traces_count=v[1], event_classes_count=v[2]))
        with textsym.capture(ctx) as c:
            grpc_pipelines.PrintEventLogInfo2().execute_callback({'event_log_info': pbsym.wire(msg)})
            got = c.printed()
        # every count follows its name
        for k, x in zip(('events_count', 'traces_count', 'event_classes_count'), v):
            ctx.check(k in got, 'a count is not printed')
            rest = got.split(k, 1)[1]
            for sep in ('=', ': ', ','):
                parts = rest.split(sep, 1)
                rest = parts[-1] if sep != ',' else parts[0]
            for sep in (')', '\n'):
                rest = rest.split(sep, 1)[0]
            ctx.check(rest == (str(x) if type(x) is int else num(x)), 'printed count')
        return
    v = ctx.int('count', 0, 2 ** 32 - 1)
    with textsym.capture(ctx) as c:
        activities_parts.PrintNumberOfUnderlyingEvents2().execute_callback({'underlying_events_count': pbsym.wire(P.GrpcContextValue(uint32=v))})
        got = c.printed()
    ctx.check(got == ctx.const('Underlying events count: ') + (str(v) if type(v) is int else num(v)) + '\n', 'printed number of underlying events')


def num(x):
    from symex.strs import SymStr, IntTok
    return SymStr((IntTok(x),))

