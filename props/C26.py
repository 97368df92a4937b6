"""Executing a remote pipeline: delivery of partial results, outcome, initial context."""
from .common import *
from . import pbsym

ASSUMPTIONS = ['the gRPC runtime is replaced by a channel that records the calls and yields the stream; the generated service stub on top of it is the real one',
               'a stream ends with a final result (or the connection fails); ids of parts in results are well-formed', 'names of values within one partial result differ',
               'what a part does with delivered values is the subject of C24, C27 and C29: here every callback only records']
BOUNDS_TEXT = ('pipelines of up to 4 asking parts, nested up to 3 deep through every wrapping part; every stream of up to 3 partial results, and of 9 of which two are arbitrary (to any asking part, to an unknown part, '
               'to a part that asks for nothing) and log messages followed by success, error, an empty final result or a connection failure, with 2 more messages after the final one; '
               'names and values of up to 2 delivered values symbolic; initial contexts of up to 2 values with symbolic names and texts, with and without an address; one pipeline executed twice')
PB = ('activities_parts', 'discovery_parts', 'drawing_parts', 'util_parts', 'grpc_pipelines', 'filtering_parts')
SINK = []


class Channel:
    def __init__(self, script, addr):
        self.script, self.addr, self.calls, self.closed = script, addr, [], False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def unary_stream(self, path, request_serializer=None, response_deserializer=None, **kw):
        def call(request, *a, **kw):
            self.calls.append((path, type(request).FromString(request_serializer(request))))
            return iter(self.script(self))
        return call

    def unary_unary(self, path, request_serializer=None, response_deserializer=None, **kw):
        def call(request, *a, **kw):
            self.calls.append((path, type(request).FromString(request_serializer(request))))
            from google.protobuf import empty_pb2
            return empty_pb2.Empty()
        return call


class Dropped(Exception):
    pass


def setup(symbolic):
    pbsym.install(symbolic)
    import importlib
    for m in PB:
        mod = importlib.import_module('ficus.grpc_pipelines.' + m)
        for c in list(vars(mod).values()):
            if isinstance(c, type) and c.__module__ == mod.__name__ and 'execute_callback' in vars(c):
                c.execute_callback = lambda self, values: SINK.append((self, dict(values)))


WRAPS = ('each', 'until', 'print', 'cluster')


def configs(tier):
    t = tier == 'thorough'
    out = []
    for n in range(0, 4 if t else 3):
        out.append({'name': 'flat-%d' % n, 'asks': 2, 'n': n})
    out.append({'name': 'flat1-3', 'asks': 1, 'n': 3})
    if t:
        out.append({'name': 'flat1-4', 'asks': 1, 'n': 4})
    for w in WRAPS:
        for n in ((0, 1, 2) if not t else (0, 1, 2, 3)):
            out.append({'name': 'in-%s-%d' % (w, n), 'wrap': [w], 'n': n})
        for v in WRAPS:
            out.append({'name': 'in-%s-%s' % (w, v), 'wrap': [w, v], 'n': 2 if t else 1})
            for u in WRAPS if t else ('print', 'each'):
                out.append({'name': 'in-%s-%s-%s' % (w, v, u), 'wrap': [w, v, u], 'n': 1})
    out.append({'name': 'same-part-twice', 'asks': 1, 'dup': 1, 'n': 2})
    out.append({'name': 'twice', 'asks': 2, 'n': 1, 'twice': 1})
    for k in range(3):
        for L in (1, 7):
            out.append({'name': 'context-%d-%d' % (k, L), 'asks': 0, 'n': 0, 'ctx': k, 'klen': L})
            out.append({'name': 'context-addr-%d-%d' % (k, L), 'asks': 0, 'n': 0, 'ctx': k, 'klen': L, 'addr': 1})
    for w in ([], ['each'], ['print', 'until']):
        out.append({'name': 'stream-9-' + '-'.join(w), 'asks': 3, 'n': 9, 'fixed': [1, 7], **({'wrap': w} if w else {})})
    out.append({'name': 'values-5', 'asks': 1, 'n': 1, 'vals': 5})
    out.append({'name': 'context-5', 'asks': 0, 'n': 0, 'ctx': 5, 'klen': 1, 'addr': 1})
    out.append({'name': 'values-2', 'asks': 1, 'n': 1, 'vals': 2})
    out.append({'name': 'values-0', 'asks': 1, 'n': 2, 'vals': 0})
    return out


def wrap(ctx, k, inner):
    from ficus.grpc_pipelines import activities_parts as a, util_parts as u, data_models as d
    if k == 'each':
        return a.ExecuteWithEachActivityLog2(d.ActivitiesLogsSource.Log, 0, inner)
    if k == 'until':
        return a.DiscoverActivitiesUntilNoMore2(after_activities_extraction_pipeline=inner)
    if k == 'print':
        return u.PrintEventlogInfoBeforeAfter(inner)
    return a.ClusterizeLogTracesDbscan(inner)


def asked(pipeline):
    """ids of the asking parts of a request, in order"""
    out = []
    for p in pipeline.parts:
        k = p.WhichOneof('part')
        if k == 'defaultPart':
            body = p.defaultPart
        else:
            m = getattr(p, k)
            out.append(m.frontendPartUuid.uuid)
            if k == 'simpleContextRequestPart':
                continue
            body = m.beforePipelinePart
        for o in body.configuration.configurationParameters:
            if o.value.WhichOneof('contextValue') == 'pipeline':
                out += asked(o.value.pipeline)
    return out


def harness(ctx, cfg):
    import importlib
    mod = importlib.import_module('ficus.grpc_pipelines.grpc_pipelines')
    from ficus.grpc_pipelines.discovery_parts import ViewGraph2
    from ficus.grpc_pipelines.filtering_parts import FilterEventsByName2
    from ficus.grpc_pipelines.context_values import StringContextValue
    from ficus.grpc_pipelines.models.backend_service_pb2 import GrpcPipelinePartExecutionResult, GrpcPipelineFinalResult, GrpcPipelinePartResult, \
        GrpcContextValueWithKeyName, GrpcPipelinePartLogMessage
    from ficus.grpc_pipelines.models.util_pb2 import GrpcUuid, GrpcGuid
    from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcContextValue
    import uuid
    del SINK[:]
    asking = []                                          # our own asking parts
    silent = FilterEventsByName2('a')

    def view():
        asking.append(ViewGraph2())
        return asking[-1]
    if 'wrap' in cfg:
        parts = [silent, view()]
        for i, w in enumerate(reversed(cfg['wrap'])):
            parts = [wrap(ctx, w, mod.Pipeline2(*parts))] + ([view()] if i == len(cfg['wrap']) - 1 else [])
    else:
        parts = [silent] + [view() for _ in range(cfg['asks'])]
        if cfg.get('dup'):
            parts.append(asking[0])
    pl = mod.Pipeline2(*parts)
    initial = {}
    given = []
    for i in range(cfg.get('ctx', 0)):
        k = ctx.name('key%d' % i, cfg['klen'])
        ctx.assume(ctx.all([ctx.not_(k == o) for o, _ in given] + [ctx.not_(k == 'backend')]))
        given.append((k, ctx.name('text%d' % i, 1)))
    addr = 'localhost:8080'
    items = [(k, StringContextValue(v)) for k, v in given]
    if cfg.get('addr'):
        addr = ctx.name('addr', 3)
        items.insert(ctx.index('at', len(items) + 1), ('backend', addr))
    for k, v in items:
        initial[k] = v
    before = list(initial.items())
    unknown = str(uuid.UUID(int=5))
    state = {}

    def run(no):
        del SINK[:]
        sent, ids = [], asked(pl.to_grpc_pipeline())
        targets = []
        for i in ids:
            if i not in targets:
                targets.append(i)
        nt = len(targets)
        chans = []

        def script(ch):
            state['consumed'] = 0
            for i in range(cfg['n']):
                k = ctx.index('r%d.m%d' % (no, i), nt + 3) if i in cfg.get('fixed', range(cfg['n'])) else i % (nt + 3)
                if k == nt:
                    yield GrpcPipelinePartExecutionResult(logMessage=GrpcPipelinePartLogMessage(message=ctx.name('r%d.t%d' % (no, i), 6)))
                    continue
                to = targets[k] if k < nt else (unknown if k == nt + 1 else str(silent.uuid))
                vals, cv = [], []
                for j in range(cfg.get('vals', 1)):
                    kn, v = ctx.name('r%d.k%d.%d' % (no, i, j), 1), ctx.name('r%d.v%d.%d' % (no, i, j), 1)
                    ctx.assume(ctx.all([ctx.not_(kn == o) for o, _ in vals]))
                    vals.append((kn, v))
                    cv.append(GrpcContextValueWithKeyName(key_name=kn, value=GrpcContextValue(string=v)))
                if k < nt:
                    sent.append((to, vals))
                yield GrpcPipelinePartExecutionResult(pipelinePartResult=GrpcPipelinePartResult(uuid=GrpcUuid(uuid=to), contextValues=cv))
            end = ctx.index('r%d.end' % no, 4)
            state['end'] = end
            if end == 3:
                raise Dropped()
            text = ctx.name('r%d.final' % no, 2)
            state['final'] = text
            fin = [GrpcPipelineFinalResult(success=GrpcGuid(guid=text)), GrpcPipelineFinalResult(error=text), GrpcPipelineFinalResult()][end]
            yield GrpcPipelinePartExecutionResult(finalResult=fin)
            if nt:
                yield GrpcPipelinePartExecutionResult(pipelinePartResult=GrpcPipelinePartResult(uuid=GrpcUuid(uuid=targets[0])))
            yield GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(error='late'))

        def channel(a, *args, **kw):
            chans.append(Channel(script, a))
            return chans[-1]
        mod.grpc.insecure_channel = channel
        failed = False
        try:
            res = pl.execute(initial)
        except Dropped:
            failed = True
        ctx.check(len(chans) == 1, 'one connection')
        ch = chans[0]
        ctx.check(ch.addr == addr, 'the backend is contacted at another address')
        ex = [r for p, r in ch.calls if p.endswith('/ExecutePipeline')]
        drop = [r for p, r in ch.calls if p.endswith('/DropExecutionResult')]
        ctx.check(len(ex) == 1 and len(ex) + len(drop) == len(ch.calls), 'calls made: %s' % [p for p, _ in ch.calls])
        got = [(kv.key.name, kv.value) for kv in ex[0].initialContext]
        ctx.check(len(got) == len(given), 'size of the initial context sent')
        for k, v in given:
            m = [w for n, w in got if n == k]
            ctx.check(len(m) == 1 and m[0].WhichOneof('contextValue') == 'string' and m[0].string == v, 'initial context value not sent as given')
        ctx.check(asked(ex[0].pipeline) == ids and len(ex[0].pipeline.parts) == len(parts), 'another pipeline is sent')
        # deliveries
        ctx.check(len(SINK) == len(sent), '%d deliveries, expected %d' % (len(SINK), len(sent)))
        for (part, vals), (to, want) in zip(SINK, sent):
            ctx.check(str(part.uuid) == to, 'a result was delivered to another part')
            own = [p for p in asking if str(p.uuid) == to]
            ctx.check(not own or part is own[0], 'a result was delivered to another object')
            ctx.check(len(vals) == len(want), 'number of values delivered')
            for k, v in want:
                m = [w for n, w in vals.items() if n == k]
                ctx.check(len(m) == 1 and m[0].WhichOneof('contextValue') == 'string' and m[0].string == v, 'a value was not delivered as sent')
        # outcome
        ctx.check(failed == (state['end'] == 3), 'a broken connection is not reported' if not failed else 'failure')
        if state['end'] == 0:
            ctx.check(len(drop) == 1 and drop[0].guid == state['final'], 'the remote context is not dropped exactly once')
        else:
            ctx.check(not drop, 'a remote context is dropped without success')
        if not failed:
            ctx.check(res.WhichOneof('result') == 'finalResult', 'the outcome is no final result')
            k = res.finalResult.WhichOneof('executionResult')
            ctx.check(k == ('success', 'error', None)[state['end']], 'the outcome is %s' % k)
            if k == 'success':
                ctx.check(res.finalResult.success.guid == state['final'], 'another execution id')
            elif k == 'error':
                ctx.check(res.finalResult.error == state['final'], 'another error')
        after = list(initial.items())
        ctx.check(len(after) == len(before), "the caller's initial context changed")
        for (k, v), (k0, v0) in zip(after, before):
            ctx.check(k is k0 and v is v0, "the caller's initial context changed")
    for no in range(2 if cfg.get('twice') else 1):
        run(no)
