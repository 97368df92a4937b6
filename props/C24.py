"""Context values on the wire."""
from .common import *
from . import pbsym
import struct

ASSUMPTIONS = ['the protobuf runtime is trusted (stand-ins with the same descriptors carry symbolic values; every path is replayed through the real messages and their real encoding)',
               'numbers fit the wire type of their field; texts are printable; ids inside one graph or net are distinct']
BOUNDS_TEXT = ('texts of 0-3 symbolic characters, symbolic numbers over the whole range of their wire type, symbolic reals; logs of up to 3 traces and 4 events, colour logs of up '
               'to 4 rectangles, graphs and nets of up to 3 nodes per kind and 4 arcs, markings absent / empty / up to 2 places, data sets of up to 3x2; each also with about ten times as many items')
FLOATS = (0.0, 1.0, -0.5, 0.1, 1e10, 123456.789, float('inf'))
U32, U64, I64 = (0, 2 ** 32 - 1), (0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1)


class FakeFrame:
    def __init__(self, data=None, columns=None, index=None):
        self.rows, self.columns, self.index, self.extra = [list(r) for r in data], list(columns), list(index), {}
        if any(len(r) != len(self.columns) for r in self.rows) or len(self.index) != len(self.rows):
            raise ValueError('shape of the data')

    def __setitem__(self, k, v):
        self.extra[k] = list(v)


def frame(df, ncols):
    """(rows, columns, index, further columns)"""
    if type(df) is FakeFrame:
        return df.rows, df.columns, df.index, df.extra
    return ([[float(x) for x in df.iloc[i, :ncols]] for i in range(len(df))], list(df.columns)[:ncols], list(df.index),
            {c: [int(x) for x in df[c]] for c in list(df.columns)[ncols:]})


def setup(symbolic):
    pbsym.install(symbolic)
    import ficus.grpc_pipelines.context_values
    import ficus.grpc_pipelines.grpc_pipelines
    if symbolic:
        import pandas as pd
        from symex import instrument
        instrument.HANDLERS[pd.DataFrame] = FakeFrame


def configs(tier):
    t = tier == 'thorough'
    out = []
    for L in (0, 1, 2, 3):
        out.append({'name': 'string%d' % L, 'k': 'string', 'len': L})
        out.append({'name': 'enum%d' % L, 'k': 'enum', 'len': L})
    for k in ('uint32', 'bool', 'float', 'info', 'infoback', 'color', 'pipeline'):
        out.append({'name': k, 'k': k})
    for n in range(4):
        out.append({'name': 'strings%d' % n, 'k': 'strings', 'n': n})
    for s in shapes(5 if t else 4, 3, True):
        for k in ('names', 'hashes', 'colors'):
            out.append({'name': '%s-%s' % (k, 'x'.join(map(str, s))), 'k': k, 'shape': list(s)})
    for k in ('names', 'hashes', 'colors'):
        out.append({'name': k + '-long', 'k': k, 'shape': [1, 24]})
        out.append({'name': k + '-wide', 'k': k, 'shape': [2, 0] + [1] * 14})
    out += [{'name': 'strings12', 'k': 'strings', 'n': 12}, {'name': 'graph-long', 'k': 'graph', 'n': 12, 'm': 14}, {'name': 'count9', 'k': 'count', 'n': 9}, {'name': 'freq9', 'k': 'freq', 'n': 9},
            {'name': 'data-long', 'k': 'data', 'r': 12, 'c': 6, 'lab': 0}, {'name': 'data-long-lab', 'k': 'data', 'r': 12, 'c': 6, 'lab': 1},
            {'name': 'net-long', 'k': 'net', 'p': 9, 't': [['ii', 'o'], ['i', 'oo'], ['iii', ''], ['', 'o'], ['i', 'o'], ['i', 'ooo']], 'm': [5, 4]}]
    for a in range(4):
        for b in range(5):
            if a or not b:
                out.append({'name': 'graph-%d-%d' % (a, b), 'k': 'graph', 'n': a, 'm': b})
    for p in range(4):
        for tr in ((), (('', ''),), (('i', 'o'),), (('ii', ''), ('', 'oo')), (('i', 'oi'), ('o', ''), ('', ''))):
            for m in ((None, None), (0, None), (1, 2), (2, 0), (None, 1)):
                if p or all('i' not in a and 'o' not in b for a, b in tr):
                    out.append({'name': 'net-%d-%s-%s' % (p, '_'.join(a + '.' + b for a, b in tr), m), 'k': 'net', 'p': p, 't': [list(x) for x in tr], 'm': list(m)})
    for n in range(4):
        out.append({'name': 'count%d' % n, 'k': 'count', 'n': n})
        out.append({'name': 'freq%d' % n, 'k': 'freq', 'n': n})
    for r in range(4):
        for c in range(3):
            for l in (0, 1):
                out.append({'name': 'data-%dx%d-%d' % (r, c, l), 'k': 'data', 'r': r, 'c': c, 'lab': l})
    return out


def f32(ctx, v):
    if ctx.symbolic and type(v) is not float:
        return v
    return struct.unpack('f', struct.pack('f', v))[0]


def wire(ctx, value, field):
    msg = value.to_grpc_context_value()
    from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P
    ctx.check(type(msg) is P.GrpcContextValue, 'a context value is not encoded as a context value message')
    m = pbsym.wire(msg)
    ctx.check(m.WhichOneof('contextValue') == field, 'encoded as %s instead of %s' % (m.WhichOneof('contextValue'), field))
    again = value.to_grpc_context_value()
    ctx.check(again == msg, 'encoding the same value twice differs')
    return getattr(m, field)


def seq(ctx, got, want, what):
    ctx.check(len(got) == len(want), '%s: %d items, expected %d' % (what, len(got), len(want)))
    for g, w in zip(got, want):
        ctx.check(g == w, what + ': differs')


def harness(ctx, cfg):
    from ficus.grpc_pipelines import context_values as V
    from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M, util_pb2 as U
    k = cfg['k']
    if k == 'string':
        s = ctx.name('s', cfg['len'])
        ctx.check(wire(ctx, V.StringContextValue(s), 'string') == s, 'text')
    elif k == 'enum':
        s, n = ctx.name('s', cfg['len']), ctx.name('n', 3 - cfg['len'])
        e = wire(ctx, V.EnumContextValue(s, n), 'enum')
        ctx.check(ctx.all([e.enumType == s, e.value == n]), 'enumeration')
    elif k == 'uint32':
        v = ctx.int('v', *U32)
        ctx.check(wire(ctx, V.Uint32ContextValue(v), 'uint32') == v, 'number')
    elif k == 'bool':
        v = ctx.bool('v')
        ctx.check(wire(ctx, V.BoolContextValue(v), 'bool') is v, 'boolean')
    elif k == 'float':
        v = ctx.real('v', -10 ** 6, 10 ** 6)
        ctx.check(wire(ctx, V.FloatContextValue(v), 'float') == f32(ctx, v), 'real number')
        v = FLOATS[ctx.index('w', len(FLOATS))]
        ctx.check(wire(ctx, V.FloatContextValue(v), 'float') == f32(ctx, v), 'real number')
    elif k == 'strings':
        xs = [ctx.name('s%d' % i, (1, 0, 2)[i % 3]) for i in range(cfg['n'])]
        g = list(xs)
        seq(ctx, wire(ctx, V.StringsContextValue(xs), 'strings').strings, g, 'texts')
        ctx.check(len(xs) == len(g), 'the given list changed')
    elif k == 'names':
        xs = [[ctx.name('n%d_%d' % (i, j), (1, 2, 0)[(i + j) % 3]) for j in range(n)] for i, n in enumerate(cfg['shape'])]
        m = wire(ctx, V.NamesLogContextValue(xs), 'names_log')
        ctx.check(len(m.log.traces) == len(xs), 'number of traces')
        for t, x in zip(m.log.traces, xs):
            seq(ctx, t.events, x, 'names of a trace')
        back = V.from_grpc_names_log(m)
        ctx.check(len(back) == len(xs) and type(back) is list, 'decoded number of traces')
        for t, x in zip(back, xs):
            seq(ctx, t, x, 'decoded names of a trace')
    elif k == 'hashes':
        xs = [[ctx.int('n%d_%d' % (i, j), *U64) for j in range(n)] for i, n in enumerate(cfg['shape'])]
        m = wire(ctx, V.HashesLogContextValue(xs), 'hashes_log')
        ctx.check(len(m.log.traces) == len(xs), 'number of traces')
        for t, x in zip(m.log.traces, xs):
            seq(ctx, t.events, x, 'hashes of a trace')
    elif k == 'info':
        a, b, c = (ctx.int(x, *U32) for x in 'abc')
        m = wire(ctx, V.EventLogInfo(events_count=a, event_classes_count=b, traces_count=c), 'event_log_info')
        ctx.check(ctx.all([m.events_count == a, m.event_classes_count == b, m.traces_count == c]), 'log information')
        i = V.from_grpc_event_log_info(m)
        ctx.check(ctx.all([i.events_count == a, i.event_classes_count == b, i.traces_count == c]), 'decoded log information')
    elif k == 'infoback':
        a = ctx.int('a', *U32)
        i = V.from_grpc_event_log_info(pbsym.wire(P.GrpcEventLogInfo(traces_count=a)))
        ctx.check(ctx.all([i.traces_count == a, i.events_count == 0, i.event_classes_count == 0]), 'decoded log information')
    elif k == 'color':
        a, b, c = (ctx.int(x, 0, 255) for x in 'rgb')
        col = V.from_grpc_color(pbsym.wire(U.GrpcColor(red=a, green=b, blue=c)))
        ctx.check(ctx.all([col.red == a, col.green == b, col.blue == c]), 'decoded colour')
    elif k == 'colors':
        xs = [[(ctx.int('r%d_%d' % (i, j), 0, 255), ctx.int('g%d_%d' % (i, j), 0, 255), ctx.int('b%d_%d' % (i, j), 0, 255), ctx.int('s%d_%d' % (i, j), *U32),
                ctx.int('l%d_%d' % (i, j), *U32), ctx.name('n%d_%d' % (i, j), 2)) for j in range(n)] for i, n in enumerate(cfg['shape'])]
        m = P.GrpcColorsEventLog(traces=[P.GrpcColorsTrace(event_colors=[P.GrpcColoredRectangle(
            color=U.GrpcColor(red=r, green=g, blue=b), start_index=s, length=l, name=n) for r, g, b, s, l, n in t]) for t in xs])
        back = V.from_grpc_colors_log(pbsym.wire(m))
        ctx.check(len(back) == len(xs), 'number of traces')
        for t, x in zip(back, xs):
            ctx.check(len(t) == len(x), 'number of rectangles')
            for q, (r, g, b, s, l, n) in zip(t, x):
                ctx.check(ctx.all([q.color.red == r, q.color.green == g, q.color.blue == b, q.start_pos == s, q.length == l, q.name == n]), 'decoded rectangle')
    elif k == 'graph':
        ids = [ctx.int('i%d' % i, *U64) for i in range(cfg['n'])]
        nodes = [(ids[i], ctx.name('d%d' % i, i % 3)) for i in range(cfg['n'])]
        edges = [(ids[j % len(ids)], ctx.int('t%d' % j, *U64), ctx.name('e%d' % j, (j + 1) % 3)) for j in range(cfg['m'])]
        m = P.GrpcGraph(nodes=[P.GrpcGraphNode(id=i, data=d) for i, d in nodes], edges=[P.GrpcGraphEdge(from_node=a, to_node=b, data=d) for a, b, d in edges])
        g = V.from_grpc_graph(pbsym.wire(m))
        ctx.check(len(g.nodes) == len(nodes) and len(g.edges) == len(edges), 'number of nodes or edges')
        for x, (i, d) in zip(g.nodes, nodes):
            ctx.check(ctx.all([x.id == i, x.data == d]), 'decoded node')
        for x, (a, b, d) in zip(g.edges, edges):
            ctx.check(ctx.all([x.from_node == a, x.to_node == b, x.data == d]), 'decoded edge')
    elif k == 'net':
        net(ctx, cfg, V, M)
    elif k in ('count', 'freq'):
        # the ids are symbolic; equal ids are excluded
        ids = [ctx.int('i%d' % i, *I64) for i in range(cfg['n'])]
        distinct(ctx, ids)
        if k == 'count':
            vs = [ctx.int('c%d' % i, *I64) for i in range(cfg['n'])]
            d = V.from_grpc_count_annotation(pbsym.wire(M.GrpcCountAnnotation(annotations=[M.GrpcEntityCountAnnotation(entityId=i, count=c) for i, c in zip(ids, vs)])))
            ws = [text(ctx, v) for v in vs]
        else:
            vs = [FLOATS[ctx.index('c%d' % i, len(FLOATS))] if i < 2 else 0.25 for i in range(cfg['n'])]
            d = V.from_grpc_frequency_annotation(pbsym.wire(M.GrpcFrequenciesAnnotation(annotations=[M.GrpcEntityFrequencyAnnotation(entityId=i, frequency=c)
                                                                                                      for i, c in zip(ids, vs)])))
            ws = [str(f32(ctx, v)) for v in vs]
        ctx.check(len(d) == len(ids), 'number of annotations')
        for (a, b), i, w in zip(d.items(), ids, ws):
            ctx.check(ctx.all([a == i, b == w]), 'decoded annotation')
    elif k == 'data':
        data(ctx, cfg, V, M, U)
    elif k == 'pipeline':
        from ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelineContextValue
        from ficus.grpc_pipelines.filtering_parts import FilterEventsByName2
        n = ctx.name('n', 2)
        m = wire(ctx, PipelineContextValue(Pipeline2(FilterEventsByName2(n), FilterEventsByName2('b'))), 'pipeline')
        ctx.check(len(m.parts) == 2, 'number of parts')
        for p, w in zip(m.parts, (n, 'b')):
            ctx.check(p.defaultPart.configuration.configurationParameters[0].value.string == w, 'option of an inner part')


def text(ctx, v):
    if not ctx.symbolic:
        return str(v)
    from symex.instrument import sstr
    return sstr(v)


def distinct(ctx, ids):
    for i in range(len(ids)):
        for j in range(i):
            ctx.assume(ctx.not_(ids[i] == ids[j]))


def net(ctx, cfg, V, M):
    places = [(ctx.int('p%d' % i, *I64), ctx.name('pn%d' % i, i % 4)) for i in range(cfg['p'])]
    trs = []
    n = 0
    for i, (a, b) in enumerate(cfg['t']):
        arcs = []
        for side in (a, b):
            l = []
            for _ in side:
                l.append((ctx.int('a%d' % n, *I64), places[n % len(places)][0], ctx.int('w%d' % n, *I64)))
                n += 1
            arcs.append(l)
        trs.append((ctx.int('t%d' % i, *I64), arcs[0], arcs[1], ctx.name('td%d' % i, (2, 0, 1)[i % 3])))
    distinct(ctx, [p[0] for p in places])
    distinct(ctx, [x[0] for x in trs])
    marks = []
    for x, c in zip('if', cfg['m']):
        marks.append(None if c is None else [(ctx.int('%sp%d' % (x, j), *I64), ctx.int('%sn%d' % (x, j), *I64)) for j in range(c)])

    def arc(a):
        return M.GrpcPetriNetArc(id=a[0], placeId=a[1], tokens_count=a[2])

    def marking(m):
        return None if m is None else M.GrpcPetriNetMarking(markings=[M.GrpcPetriNetSinglePlaceMarking(placeId=a, tokensCount=b) for a, b in m])
    msg = M.GrpcPetriNet(places=[M.GrpcPetriNetPlace(id=i, name=s) for i, s in places],
                         transitions=[M.GrpcPetriNetTransition(id=i, incomingArcs=[arc(x) for x in a], outgoingArcs=[arc(x) for x in b], data=d) for i, a, b, d in trs],
                         initial_marking=marking(marks[0]), final_marking=marking(marks[1]))
    g = V.from_grpc_petri_net(pbsym.wire(msg))
    ctx.check(len(g.places) == len(places) and len(g.transitions) == len(trs), 'number of places or transitions')
    for (key, p), (i, s) in zip(g.places.items(), places):
        ctx.check(ctx.all([key == i, p.id == i, p.name == s]), 'decoded place')
    for (key, x), (i, a, b, d) in zip(g.transitions.items(), trs):
        ctx.check(ctx.all([key == i, x.id == i, x.data == d]), 'decoded transition')
        for got, want, what in ((x.incoming_arcs, a, 'incoming'), (x.outgoing_arcs, b, 'outgoing')):
            ctx.check(len(got) == len(want), 'number of %s arcs' % what)
            for u, w in zip(got, want):
                ctx.check(ctx.all([u.id == w[0], u.place_id == w[1], u.tokens_count == w[2]]), 'decoded %s arc' % what)
    for got, want, what in ((g.initial_marking, marks[0], 'initial'), (g.final_marking, marks[1], 'final')):
        if want is None:
            ctx.check(got is None, 'an absent %s marking decodes to a marking' % what)
            continue
        ctx.check(got is not None and len(got.markings) == len(want), 'size of the %s marking' % what)
        for u, w in zip(got.markings, want):
            ctx.check(ctx.all([u.place_id == w[0], u.tokens_count == w[1]]), 'decoded %s marking' % what)


def data(ctx, cfg, V, M, U):
    r, c = cfg['r'], cfg['c']
    vals = [[FLOATS[(i * c + j + 1) % len(FLOATS)] if (i + j) % 2 else ctx.real('v%d_%d' % (i, j), -1000, 1000) for j in range(c)] for i in range(r)]
    cols = [ctx.name('c%d' % j, 2 - j % 3) for j in range(c)]
    rows = [ctx.name('r%d' % i, (1, 2, 0)[i % 3]) for i in range(r)]
    distinct(ctx, cols)
    ds = M.GrpcDataset(matrix=M.GrpcMatrix(rows=[M.GrpcMatixRow(values=v) for v in vals]), columnsNames=cols, rowNames=rows)
    labels = [ctx.int('l%d' % i, -2 ** 31, 2 ** 31 - 1) for i in range(r)]
    if cfg['lab']:
        lds = M.GrpcLabeledDataset(dataset=ds, labels=labels, labelsColors=[U.GrpcColor(red=1)])
        df = V.from_grpc_labeled_dataset(pbsym.wire(lds))
    else:
        df = V.from_grpc_ficus_dataset(pbsym.wire(ds))
    got = frame(df, c)
    ctx.check(len(got[0]) == r, 'number of rows')
    for g, w in zip(got[0], vals):
        seq(ctx, g, [f32(ctx, x) for x in w], 'row of a data set')
    seq(ctx, got[1], cols, 'columns of a data set')
    seq(ctx, got[2], rows, 'rows of a data set')
    if cfg['lab']:
        ctx.check(list(got[3].keys()) == ['cluster_labels'], 'the labels have to be the last column')
        seq(ctx, got[3]['cluster_labels'], labels, 'labels')
    else:
        ctx.check(not got[3], 'further columns')
