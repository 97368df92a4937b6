"""More planted bugs: pipelines, contexts, conversion, remote client, drawing, reports."""
from seeds import S, PRE

PL = 'legacy/pipelines/pipelines.py'
PR = 'legacy/pipelines/contexts/part_results.py'
PM = 'legacy/log/pm4py_converters.py'
HL = 'legacy/pipelines/analysis/high_level.py'
CV = 'grpc_pipelines/context_values.py'
GP = 'grpc_pipelines/grpc_pipelines.py'
AP = 'grpc_pipelines/activities_parts.py'
CN = 'legacy/analysis/event_log_analysis_canvas.py'
AN = 'legacy/analysis/event_log_analysis.py'
PG = 'legacy/analysis/patterns/patterns_graphs.py'
DP = 'legacy/pipelines/discovery/discovery_parts.py'
GR = 'legacy/discovery/graph.py'
PN = 'legacy/discovery/petri_net.py'
UP = 'legacy/analysis/patterns/util.py'
APS = 'legacy/pipelines/analysis/analysis_parts.py'
PP = 'legacy/pipelines/analysis/patterns/patterns_parts.py'

S('c19-copy-result', 'C19',
  [(PL, """        self.pipeline(current_input_copy)
        return current_input
""", """        result = self.pipeline(current_input_copy)
        return current_input if isinstance(result, PipelinePartResult) else result
""")],
  """
from ficus.legacy.pipelines.pipelines import *
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
class P(InternalPipelinePart):
    def execute(self, c):
        return 5
r = PipelinePartResult()
assert WithInputCopy(Pipeline(P()))(r) is r
""", 'a pipeline on copied input whose last part returns something else than a context', 'the outer input is not passed on')

S('c20-none-absent', 'C20',
  [(PR, "        return key in self.values\n", "        return self.values.get(key) is not None\n")],
  """
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
r = PipelinePartResult().with_custom_data('k', None)
assert r.has_value('k') and r.get_value_or_throw('k') is None
""", 'None stored as custom data', 'a stored key is reported absent')

S('c22-event-share', 'C22',
  [(PM, "    return MyEvent(copy.deepcopy(event._dict))", "    return MyEvent(dict(event._dict))")],
  """
from ficus.legacy.log.pm4py_converters import from_pm4py_log
from pm4py.objects.log.obj import EventLog, Event, Trace
l = EventLog([Trace([Event({'concept:name': 'a', 'nested': [1]})])])
m = from_pm4py_log(l)
m[0][0]['nested'].append(2)
assert l[0][0]['nested'] == [1]
""", 'an attribute with a mutable value, edited after the conversion', 'the edit reaches the pm4py log')

S('c23-prev-level', 'C23',
  [(HL, """            if sum(map(len, traces_activities(current_input))) == 0:
                return prev_input
""", """            if min(map(len, traces_activities(current_input)), default=0) == 0 and activity_level > self.initial_activity_level:
                return prev_input
""")],
  PRE + """
from ficus.legacy.pipelines.analysis.high_level import *
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from ficus.legacy.pipelines.pipelines import *
calls = []
class P(InternalPipelinePart):
    def __init__(self, k):
        self.k = k
    def execute(self, c):
        calls.append((self.k, sum(map(len, traces_activities(c))) if self.k == 'b' else 0))
        return c
r = PipelinePartResult().with_log(mk('ab', 'c'))
DiscoverActivitiesInstancesFromRepeatsUntilNoMore(lambda e: e['concept:name'], before_log_creation_pipeline=Pipeline(P('b')),
    after_log_creation_pipeline=Pipeline(P('a')))(r)
assert all(n for k, n in calls if k == 'b'), calls
""", 'a log in which nothing repeats', 'an abstraction is done although there is nothing to abstract')

S('c24-row-rounded', 'C24',
  [(CV, "            row_vec.append(value)\n", "            row_vec.append(round(value, 12))\n")],
  """
from ficus.grpc_pipelines.context_values import *
from ficus.grpc_pipelines.models.pm_models_pb2 import *
d = GrpcDataset(matrix=GrpcMatrix(rows=[GrpcMatixRow(values=[1e-14])]), columnsNames=['c'], rowNames=['r'])
assert from_grpc_ficus_dataset(d).values[0][0] == d.matrix.rows[0].values[0] != 0
""", 'a data set with values far below one', 'small values are delivered as zero')

S('c25-empty-regex', 'C25',
  [(AP, """                          self.distance.name)

        if self.class_extractor is not None:
            append_string_value(config, const_event_class_regex, self.class_extractor)

        return config
""", """                          self.distance.name)

        if self.class_extractor:
            append_string_value(config, const_event_class_regex, self.class_extractor)

        return config
""")],
  """
from ficus.grpc_pipelines.activities_parts import *
p = ClusterizeActivitiesFromTracesKMeans(class_extractor='').to_grpc_part()
c = p.complexContextRequestPart.beforePipelinePart.configuration
assert any(x.key.name == 'event_class_regex' for x in c.configurationParameters), [x.key.name for x in c.configurationParameters]
""", 'a class extractor given as the empty text', 'the option is left out')

S('c25-default-config', 'C25',
  [(GP, """def _create_default_pipeline_part(name: str, config=GrpcPipelinePartConfiguration()):
    return GrpcPipelinePart(configuration=config, name=name)
""", """def _create_default_pipeline_part(name: str, config=GrpcPipelinePartConfiguration()):
    given = [x for x in config.configurationParameters
             if not x.value.HasField('pipeline') or len(x.value.pipeline.parts) > 0]
    return GrpcPipelinePart(configuration=GrpcPipelinePartConfiguration(configurationParameters=given), name=name)
""")],
  """
from ficus.grpc_pipelines.activities_parts import *
from ficus.grpc_pipelines.data_models import *
p = ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, Pipeline2()).to_grpc_part()
assert any(x.value.HasField('pipeline') for x in p.defaultPart.configuration.configurationParameters)
""", 'a part whose inner pipeline is empty', 'the pipeline option is left out')

REMOTE = """
import uuid
import ficus.grpc_pipelines.grpc_pipelines as g
from ficus.grpc_pipelines.grpc_pipelines import *
from ficus.grpc_pipelines.util_parts import *
got = []
class Chan:
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
class Stub:
    stream = []
    dropped = []
    def __init__(self, c):
        pass
    def ExecutePipeline(self, r):
        return iter(Stub.stream)
    def DropExecutionResult(self, x):
        Stub.dropped.append(x)
g.grpc.insecure_channel = lambda *a, **k: Chan()
g.GrpcBackendServiceStub = Stub
class P(PipelinePart2WithCallback):
    def to_grpc_part(self):
        return GrpcPipelinePartBase()
    def execute_callback(self, values):
        got.append({k: v.uint32 for k, v in values.items()})
def part(p, **kv):
    return GrpcPipelinePartExecutionResult(pipelinePartResult=GrpcPipelinePartResult(uuid=GrpcUuid(uuid=str(p.uuid)),
        contextValues=[GrpcContextValueWithKeyName(key_name=k, value=GrpcContextValue(uint32=v)) for k, v in kv.items()]))
"""

S('c26-once', 'C26',
  [(GP, "                        part = uuid_to_pipeline_with_callback[issued_part_uuid]\n",
    "                        part = uuid_to_pipeline_with_callback.pop(issued_part_uuid)\n")],
  REMOTE + """
p = P()
Stub.stream = [part(p, a=1), part(p, a=2), GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(success=GrpcGuid(guid='x')))]
Pipeline2(p).execute({})
assert got == [{'a': 1}, {'a': 2}], got
""", 'a part inside an inner pipeline that delivers twice', 'the second result is lost')

S('c26-values-kept', 'C26',
  [(GP, """            last_result = None

            for part_result in stub.ExecutePipeline(request):
""", """            last_result = None
            map = dict()

            for part_result in stub.ExecutePipeline(request):
"""), (GP, """                        map = dict()
                        for context_value_with_name""", """                        for context_value_with_name""")],
  REMOTE + """
p, q = P(), P()
Stub.stream = [part(p, a=1), part(q, b=2), GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(success=GrpcGuid(guid='x')))]
Pipeline2(p, q).execute({})
assert got == [{'a': 1}, {'b': 2}], got
""", 'two results with different keys in one execution', 'a part is given values delivered to another part')

S('c27-canvas-scale', 'C27',
  [(CN, "                current_x += rect_width\n", "                current_x += rect.length if width_scale < 1 else rect_width\n")],
  """
import ficus.legacy.analysis.event_log_analysis_canvas as c
from ficus.legacy.analysis.event_log_analysis import *
rects = []
class Cv:
    def __init__(self, width, height, **k):
        self.width, self.height = width, height
    def fill_rect(self, *a):
        rects.append((getattr(self, 'fill_style'), a))
    def __getattr__(self, n):
        return lambda *a, **k: None
import contextlib
c.Canvas, c.display, c.hold_canvas = Cv, lambda x: None, contextlib.nullcontext
c.draw_colors_event_log_canvas([[ColoredRectangle(Color(1, 2, 3), 0, 2, 'a'), ColoredRectangle(Color(4, 5, 6), 2, 1, 'b')]], width_scale=0.5)
r = [x[1] for x in rects if x[0] != 'white']
assert r[0][0] + r[0][2] == r[1][0], r
""", 'a diagram scaled down', 'rectangles of a trace leave gaps')

S('c27-short-gap', 'C27',
  [(PG, "                last_drew_index = dto.start_pos + dto.length\n", "                last_drew_index = max(last_drew_index + 1, dto.start_pos) + dto.length - (1 if last_drew_index == dto.start_pos == 0 and draw_short_diagram else 0)\n")],
  PRE + """
import ficus.legacy.analysis.patterns.patterns_graphs as g
from ficus.legacy.analysis.patterns.patterns_models import *
import matplotlib.pyplot as plt
def run(log, inst, short):
    nodes = {}
    acts = [[ActivityInTraceInfo(ActivityNode(n, SubArrayWithTraceIndex(0, 1, 0), {1}, None, 0), s, l) for n, s, l in t] for t in inst]
    out = []
    orig = plt.Rectangle
    class R(orig):
        def __init__(self, xy, w, h, **k):
            out.append((xy[0], w))
            super().__init__(xy, w, h, **k)
    plt.Rectangle = R
    try:
        import tempfile, os
        with tempfile.TemporaryDirectory() as d:
            (g.draw_short_activity_diagram if short else g.draw_full_activity_diagram)(log, acts, {}, plot_legend=False, save_path=os.path.join(d, 'x.png'))
    finally:
        plt.Rectangle = orig
    return out
for short in (False, True):
    for n, inst in ((3, [[('A', 0, 1), ('B', 1, 2)]]), (4, [[('A', 0, 2), ('B', 2, 2)]]), (5, [[('A', 1, 2), ('B', 3, 2)]]), (5, [[('A', 0, 2), ('B', 2, 1)]]), (3, [[('A', 0, 3)]])):
        r = run(mk('abcdefg'[:n]), inst, short)
        want, pos = [], 0
        for _, s, l in inst[0]:
            if s > pos:
                want.append(1 if short else s - pos)
            want.append(1 if short else l)
            pos = s + l
        if pos < n:
            want.append(1 if short else n - pos)
        assert [w for _, w in r] == want, (short, inst, r, want)
""", 'adjacent instances', 'the gap after them is drawn too short or not at all')

S('c28-predicate-colour', 'C28',
  [(AN, """        if events_predicate(name):
            if name in cached_colors:
                return cached_colors[name]
""", """        if name in cached_colors:
            return cached_colors[name]

        if events_predicate(name):
""")],
  PRE + """
import ficus.legacy.analysis.event_log_analysis as a
import matplotlib.pyplot as plt, tempfile, os
out = []
orig = plt.Rectangle
class R(orig):
    def __init__(self, xy, w, h, **k):
        out.append(k.get('fc'))
        super().__init__(xy, w, h, **k)
a.plt.Rectangle = R
with tempfile.TemporaryDirectory() as d:
    a.draw_placements_of_concrete_events(mk('ab'), {'b': '#112233'}, {'a'}, save_path=os.path.join(d, 'x.png'))
assert out[1] == '#000000', out
""", 'colours cached by another diagram for an event that is not selected', 'the event is not black')

S('c29-parallel-edge', 'C29',
  [(GR, """        for edge in graph.edges:
            g.edge(str(edge.from_node), str(edge.to_node), edge.data)
""", """        drawn_edges = set()
        for edge in graph.edges:
            if (edge.from_node, edge.to_node, edge.data) not in drawn_edges:
                drawn_edges.add((edge.from_node, edge.to_node, edge.data))
                g.edge(str(edge.from_node), str(edge.to_node), edge.data)
""")],
  """
import ficus.legacy.discovery.graph as m, ficus.legacy.discovery.petri_net as pn
shown = []
pn.display = shown.append
g = m.Graph()
g.nodes = [m.GraphNode(1, 'a'), m.GraphNode(2, 'b')]
g.edges = [m.GraphEdge(1, 2, 'x'), m.GraphEdge(1, 2, 'x')]
m.draw_graph(g)
assert shown[0].source.count('1 -> 2') == 2, shown[0].source
""", 'two edges between the same nodes with the same text', 'the second edge is not drawn')

S('c29-both-markings', 'C29',
  [(PN, "            elif place.id in final_marking_places:\n                g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')\n",
        "            elif place.id in final_marking_places and len(final_marking_places) <= len(initial_marking_places):\n                g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')\n")],
  """
import ficus.legacy.discovery.petri_net as m
shown = []
m.display = shown.append
n = m.PetriNet()
n.places = {i: m.Place(i, 'p') for i in (1, 2, 3)}
n.initial_marking = m.Marking([m.SinglePlaceMarking(1, 1)])
n.final_marking = m.Marking([m.SinglePlaceMarking(2, 1), m.SinglePlaceMarking(3, 1)])
m.draw_petri_net(n)
assert shown[0].source.count('doublecircle') == 2, shown[0].source
""", 'a net with more final than initial places', 'final places are drawn as ordinary ones')

S('c32-single-label', 'C32',
  [(AN, "            selected_components = [components[i][ix] for i in range(len(components))]\n",
    "            selected_components = [components[i][ix] for i in range(len(components))] if len(ix[0]) != 1 else \\\n                [components[i][ix[0][0]:ix[0][0] + len(np.unique(y))] for i in range(len(components))]\n")],
  """
import pandas as pd, numpy as np, tempfile, os
import ficus.legacy.analysis.event_log_analysis as a
import matplotlib.axes as ax
pts = []
orig = ax.Axes.scatter
ax.Axes.scatter = lambda self, *c, **k: (pts.append(len(c[0])), orig(self, *c, **k))[1]
df = pd.DataFrame([[0.0, 1], [1, 0], [2, 2], [3, 1.]], columns=['u', 'v'])
df['l'] = [0, 1, 1, 1]
with tempfile.TemporaryDirectory() as d:
    a.visualize_dataset_pca(df, a.NComponents.Two, {}, (5, 5), (0, 0), 10, 1, os.path.join(d, 'x.png'), 'l')
assert pts == [1, 3], pts
""", 'a label that only one row has, which is not the last row', 'rows of other labels are drawn with the label')

S('c33-instance-names', 'C33',
  [(PP, """                    if node in visited:
                        continue

                    fout.write(f'{node.unique_name()}={node.name}\\n')
                    visited.add(node)
""", """                    if node.name in visited:
                        continue

                    fout.write(f'{node.unique_name()}={node.name}\\n')
                    visited.add(node.name)
""")],
  PRE + """
import tempfile, os
from ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
nodes = [ActivityNode('n', SubArrayWithTraceIndex(0, 1, 0), {1}, None, l) for l in (0, 1)]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    SaveAllActivitiesInstancesNames(p)(PipelinePartResult().with_trace_activities([[ActivityInTraceInfo(n, i, 1) for i, n in enumerate(nodes)]]))
    assert len(open(p).read().split()) == 2
""", 'two used activities of the same name on different levels', 'one of them is not listed')

S('c31-empty-trace', 'C31',
  [('grpc_pipelines/util_parts.py', "            print(list(trace.events))", "            print(list(trace.events)) if len(trace.events) > 0 else print(end='')")],
  """
import io, contextlib
from ficus.grpc_pipelines.util_parts import *
v = GrpcContextValue()
v.names_log.log.traces.add().events.extend(['a'])
v.names_log.log.traces.add()
o = io.StringIO()
with contextlib.redirect_stdout(o):
    PrintEventLog2().execute_callback({'names_event_log': v})
assert len(o.getvalue().splitlines()) == 2, o.getvalue()
""", 'a delivered log with an empty trace', 'the trace has no line')

S('c34-threshold-zero', 'C34',
  [(DP, "loop_two_threshold=self.two_loops_threshold)", "loop_two_threshold=self.two_loops_threshold or self.and_threshold)")],
  PRE + """
import ficus.legacy.pipelines.discovery.discovery_parts as d
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
seen = []
d.pm4py.discover_petri_net_heuristics = lambda l, **k: (seen.append(k), (1, 2, 3))[1]
d.DiscoverPetriNetHeuristic(two_loops_threshold=0)(PipelinePartResult().with_log(mk('ab')))
assert seen[0]['loop_two_threshold'] == 0, seen
""", 'a threshold of zero for loops of length two', 'another threshold is used')

S('c35-sorted-levels', 'C35',
  [(UP, "    return sorted(list(activities_by_levels.items()), key=lambda x: x[0])",
    "    return sorted(list(activities_by_levels.items()), key=lambda x: str(x[0]))")],
  """
from ficus.legacy.analysis.patterns.util import *
from ficus.legacy.analysis.patterns.patterns_models import *
a = [ActivityNode('n', SubArrayWithTraceIndex(0, 1, 0), {1}, None, l) for l in (2, 10)]
assert [l for l, _ in split_activities_by_level(a)] == [2, 10]
""", 'levels of different numbers of digits', 'levels are not in ascending order')
