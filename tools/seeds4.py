"""More planted bugs: filters, remote pipelines, drawings, data sets."""
from seeds import S, PRE
from seeds2 import REMOTE

ELP = 'legacy/analysis/patterns/event_log_patterns.py'
FIL = 'legacy/filtering/event_log_filters.py'
ENT = 'legacy/analysis/event_log_analysis_entropy.py'
PIP = 'legacy/pipelines/pipelines.py'
GP = 'grpc_pipelines/grpc_pipelines.py'
CV = 'grpc_pipelines/context_values.py'
AP = 'grpc_pipelines/activities_parts.py'
DP = 'grpc_pipelines/discovery_parts.py'
EA = 'legacy/analysis/event_log_analysis.py'
CAN = 'legacy/analysis/event_log_analysis_canvas.py'
PG = 'legacy/analysis/patterns/patterns_graphs.py'
PN = 'legacy/discovery/petri_net.py'
GR = 'legacy/discovery/graph.py'
GPA = 'legacy/pipelines/analysis/patterns/patterns_graph_parts.py'
PP = 'legacy/pipelines/analysis/patterns/patterns_parts.py'
HL = 'legacy/pipelines/analysis/high_level.py'
LDP = 'legacy/pipelines/discovery/discovery_parts.py'
AN = 'legacy/pipelines/analysis/analysis_parts.py'
UT = 'legacy/util.py'

S('c08-stale-positions', 'C08',
  [(FIL, """    removed_events_count = 0
    while True:
        if removed_events_count >= max_events_to_remove:
            return log

        trace_counts = calculate_events_in_each_trace(log)
        info = create_log_information(log)
        positions = create_events_positions(log)
""", """    removed_events_count = 0
    positions = create_events_positions(log)
    while True:
        if removed_events_count >= max_events_to_remove:
            return log

        trace_counts = calculate_events_in_each_trace(log)
        info = create_log_information(log)
""")],
  PRE + """
import itertools
from ficus.legacy.filtering.event_log_filters import *
def ref(log, k):
    for _ in range(k):
        if calculate_position_entropies_fast_sum(log) <= 0:
            return log
        n, _ = next_event_remove_pos_entropy_indirect(log)
        if n is None:
            return log
        log = remove_event_from_log(log, n)
    return log
import random
r = random.Random(1)
for _ in range(200):
    ts = [''.join(r.choice('abcd') for _ in range(r.randint(1, 5))) for _ in range(3)]
    log = mk(*ts)
    assert names(filter_events_pos_entropy_indirect(log, 0, 2)) == names(ref(log, 2)), ts
""", 'at least two removals', 'the positions of the log before the first removal decide the second')

S('c08-untouched-second', 'C08',
  [(FIL, """        min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                             untouchable_event_func)
        if min_event_name is None:
            return log

        print(f'Removing event""", """        min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(
            log, trace_counts, info, positions,
            untouchable_event_func if removed_events_count == 0 else default_untouchable_func)
        if min_event_name is None:
            return log

        print(f'Removing event""")],
  PRE + """
import random
from ficus.legacy.filtering.event_log_filters import *
r = random.Random(1)
for _ in range(200):
    ts = [''.join(r.choice('abcd') for _ in range(r.randint(1, 5))) for _ in range(3)]
    log = mk(*ts)
    out = filter_events_pos_entropy_indirect(log, 0, 3, lambda n: n == 'a')
    assert sum(t.count('a') for t in ts) == sum(t.count('a') for t in names(out)), ts
""", 'a second removal with untouchable events', 'an untouchable event is removed by the second step')

S('c06-log-base', 'C06',
  [(ENT, "    entropy = _do_calculate_position_entropy(probabilities, non_empty_traces_count)\n    return entropy",
    "    entropy = _do_calculate_position_entropy(probabilities, len(cached_positions.traces_positions))\n    return entropy")],
  PRE + """
from ficus.legacy.analysis.event_log_analysis_entropy import *
from ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace
log = mk('ab', 'ba', 'c', 'a')
ign = PositionEntropyIgnoredEvents({'c'}, calculate_events_in_each_trace(log))
x, y = calculate_position_entropies(log, ign), calculate_position_entropies_fast(log, ign)
assert all(abs(x[k] - y[k]) < 1e-9 for k in x), (x, y)
""", 'a trace that becomes empty once the ignored classes are left out', 'the fast entropy uses the number of all traces')

S('c07-laplace-size', 'C07',
  [(ENT, """    def dpr(first: str, second: str, context: LogInformation) -> float:
        pair_count = context.dfg.pairs.get((second, first), 0)
        return dfr_or_dpr(pair_count, len(context.events_count), context.events_count[first])""",
    """    def dpr(first: str, second: str, context: LogInformation) -> float:
        pair_count = context.dfg.pairs.get((second, first), 0)
        return dfr_or_dpr(pair_count, len(context.events_count), context.events_count.get(second, context.events_count[first]))""")],
  PRE + """
from ficus.legacy.analysis.event_log_analysis_entropy import *
log = mk('aab', 'b', 'cb')
info = {'a': 2, 'b': 3, 'c': 1}
pairs = {('S', 'a'): 1, ('a', 'a'): 1, ('a', 'b'): 1, ('b', 'E'): 3, ('S', 'b'): 1, ('S', 'c'): 1, ('c', 'b'): 1}
def ent(e):
    t = 0
    for vec in ([(e, x) for x in ['a', 'b', 'c', 'E']], [(x, e) for x in ['a', 'b', 'c', 'S']]):
        for p in vec:
            al = 1 / info[e]
            q = (al + pairs.get(p, 0)) / (al * 4 + info[e])
            t -= q * math.log2(q)
    return t
r = calculate_laplace_entropies(log)
assert all(abs(r[k] - ent(k)) < 1e-9 for k in info), r
""", 'classes with different numbers of events', 'the smoothing uses the count of the other class')

S('c19-truthy', 'C19',
  [(PIP, "        if self.condition(current_input):", "        if self.condition(current_input) is True:")],
  """
from ficus.legacy.pipelines.pipelines import *
class P(InternalPipelinePart):
    def execute(self, x):
        x.append(1)
        return x
r = Pipeline(IfPipeline(lambda x: len(x), Pipeline(P())))([5])
assert r == [5, 1], r
""", 'a condition that answers with a true value other than True', 'the pipeline is skipped')

S('c19-empty-result', 'C19',
  [(PIP, "            current_input = part.execute(current_input)\n\n        return current_input\n\n    def __call__(self, *args, **kwargs):\n        return self.execute(args[0] if",
    "            current_input = part.execute(current_input) or current_input\n\n        return current_input\n\n    def __call__(self, *args, **kwargs):\n        return self.execute(args[0] if")],
  """
from ficus.legacy.pipelines.pipelines import *
class P(InternalPipelinePart):
    def execute(self, x):
        return []
r = Pipeline(P())([5])
assert r == [], r
""", 'a part whose result is empty', 'the input of the part is passed on instead')

S('c26-empty-values', 'C26',
  [(GP, "                if last_result.HasField('pipelinePartResult'):", "                if last_result.HasField('pipelinePartResult') and part_result.pipelinePartResult.contextValues:")],
  REMOTE + """
p = P()
Stub.stream = [part(p), GrpcPipelinePartExecutionResult(finalResult=GrpcPipelineFinalResult(success=GrpcGuid(guid='x')))]
Pipeline2(p).execute({})
assert got == [{}], got
""", 'a result without values', 'the part is not told')

S('c24-zero-count', 'C24',
  [(CV, "        map[annotation.entityId] = str(annotation.count)", "        map[annotation.entityId] = str(annotation.count or '')")],
  """
from ficus.grpc_pipelines.context_values import *
a = GrpcCountAnnotation(annotations=[GrpcEntityCountAnnotation(entityId=3, count=0)])
assert from_grpc_count_annotation(a) == {3: '0'}
""", 'an arc that was never taken', 'its count is lost')

S('c24-place-id', 'C24',
  [(CV, "        place = from_grpc_petri_net_place(grpc_place)\n        petri_net.places[place.id] = place",
    "        place = from_grpc_petri_net_place(grpc_place)\n        petri_net.places.setdefault(place.id or len(petri_net.places), place)")],
  """
from ficus.grpc_pipelines.context_values import *
n = from_grpc_petri_net(GrpcPetriNet(places=[GrpcPetriNetPlace(id=1, name='x'), GrpcPetriNetPlace(id=0, name='y')]))
assert {k: v.name for k, v in n.places.items()} == {1: 'x', 0: 'y'}, n.places
""", 'a place with the number zero that is not listed first', 'the place is lost or filed under another number')

S('c24-edge-data', 'C24',
  [(CV, "GraphEdge(from_node=edge.from_node, to_node=edge.to_node, data=edge.data)", "GraphEdge(from_node=edge.from_node, to_node=edge.to_node, data=edge.data.strip())")],
  """
from ficus.grpc_pipelines.context_values import *
g = from_grpc_graph(GrpcGraph(edges=[GrpcGraphEdge(from_node=1, to_node=2, data=' 5')]))
assert g.edges[0].data == ' 5'
""", 'an edge text with blanks around it', 'the blanks are lost')

S('c25-zero-tolerance', 'C25',
  [(AP, """        config = GrpcPipelinePartConfiguration()
        append_float_value(config, const_tolerance, self.tolerance)
""", """        config = GrpcPipelinePartConfiguration()
        append_float_value(config, const_tolerance, self.tolerance or 1e-5)
""")],
  """
from ficus.grpc_pipelines.activities_parts import *
p = ClusterizeLogTracesDbscan(Pipeline2(), tolerance=0.0).to_grpc_part()
v = {x.key.name: x.value for x in p.complexContextRequestPart.beforePipelinePart.configuration.configurationParameters}
assert v['tolerance'].float == 0.0
""", 'a tolerance of zero', 'the default is sent instead')

S('c25-thresholds', 'C25',
  [(DP, "        append_float_value(config, const_edge_cutoff_threshold, self.edge_cutoff_threshold)", "        append_float_value(config, const_edge_cutoff_threshold, max(self.edge_cutoff_threshold, self.node_cutoff_threshold))")],
  """
from ficus.grpc_pipelines.discovery_parts import *
p = DiscoverFuzzyGraph(node_cutoff_threshold=0.5, edge_cutoff_threshold=0.25).to_grpc_part()
v = {x.key.name: x.value.float for x in p.defaultPart.configuration.configurationParameters}
assert v[const_edge_cutoff_threshold] == 0.25, v
""", 'a node threshold above the edge threshold', 'the edge threshold that is sent is the node threshold')

S('c27-gap-end', 'C27',
  [(PG, "                last_drew_index = dto.start_pos + dto.length\n", "                last_drew_index += dto.length + max(0, dto.start_pos - last_drew_index if index == 0 else 0)\n")],
  PRE + """
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from ficus.legacy.analysis.patterns import patterns_graphs as g
from ficus.legacy.analysis.patterns.patterns_models import *
from ficus.legacy.analysis.event_log_analysis import TraceDiversityLikeDiagramContext
log = mk('abcdef')
got = []
class D:
    def add_collection(self, c):
        got.extend(c)
g.PatchCollection = lambda p, **k: [(r.get_x(), r.get_width()) for r in p]
ctx = TraceDiversityLikeDiagramContext(log, D(), 1, 1, 0, 1)
g._sub_traces_draw_func(ctx, log, {}, [[g.SubTraceDrawingDto(0, 1, 'x'), g.SubTraceDrawingDto(3, 1, 'y')]], False)
assert sum(w for _, w in got) == 6, got
""", 'two instances with a gap between them and events after the last one', 'the row is longer than the trace')

S('c27-placement-gap', 'C27',
  [(PG, """                        last_draw_index = activity.start_pos
                        current_x += width
""", """                        last_draw_index += width
                        current_x += width
""")],
  PRE + """
import matplotlib
matplotlib.use('Agg')
from ficus.legacy.analysis.patterns import patterns_graphs as g
from ficus.legacy.analysis.patterns.patterns_models import *
log = mk('abcdef')
node = ActivityNode('x', None, {1}, None, 0)
got = []
orig = g.plt.Rectangle
g.plt.Rectangle = lambda xy, w, h, fc=None: got.append((xy[0], w)) or orig(xy, w, h, fc=fc)
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    g.draw_activity_placement_diagram(log, node, [[ActivityInTraceInfo(node, 2, 1)]], width_scale=2, save_path=os.path.join(d, 'x.png'))
assert sum(w for _, w in got) == 12, got
""", 'a horizontal scale other than one and events before the instance', 'the rest of the row has the wrong width')

S('c29-initial-final', 'C29',
  [(PN, "            elif place.id in final_marking_places:", "            elif place.id in final_marking_places and not show_places_names:")],
  """
import os, tempfile
from ficus.legacy.discovery import petri_net as p
got = []
p._draw_graph_like_formalism = lambda f, **k: f(G())
class G:
    def node(self, *a, **k):
        got.append((a, k))
    def edge(self, *a, **k):
        pass
n = p.PetriNet()
n.places = {1: p.Place(1, 'x')}
n.final_marking = p.Marking([p.SinglePlaceMarking(1, 1)])
p.draw_petri_net(n, show_places_names=True)
assert got[0][1]['shape'] == 'doublecircle', got
""", 'a final place in a net drawn with place names', 'the final place is not marked')

S('c29-arc-label', 'C29',
  [(PN, """            for arc in transition.outgoing_arcs:
                label = annotation[arc.id] if annotation is not None and arc.id in annotation else ''""",
    """            for arc in transition.outgoing_arcs:
                label = label if annotation is not None and arc.id not in annotation and transition.incoming_arcs else \\
                    annotation[arc.id] if annotation is not None and arc.id in annotation else ''""")],
  """
from ficus.legacy.discovery import petri_net as p
got = []
p._draw_graph_like_formalism = lambda f, **k: f(G())
class G:
    def node(self, *a, **k):
        pass
    def edge(self, *a, **k):
        got.append(a)
n = p.PetriNet()
n.places = {1: p.Place(1, 'x'), 2: p.Place(2, 'y')}
t = p.Transition(3)
t.incoming_arcs.append(p.Arc(4, 1, 1))
t.outgoing_arcs.append(p.Arc(5, 2, 1))
n.transitions = {3: t}
p.draw_petri_net(n, annotation={4: '7'})
assert got == [('1', '3', '7'), ('3', '2', '')], got
""", 'an annotation that names the incoming but not the outgoing arc', 'the outgoing arc gets the text of the incoming one')

S('c29-level-path', 'C29',
  [(GPA, """    names = os.path.splitext(base_path)
    name_without_ext = names[0]
    file_ext = names[1]
""", """    name_without_ext, dot, file_ext = base_path.partition('.')
    file_ext = dot + file_ext
""")],
  """
from ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import default_activities_level_save_path_mutator as f
assert f('./x/a.png', 2) == './x/a_2.png', f('./x/a.png', 2)
""", 'a path with a dot in a directory', 'the graph of a level is saved somewhere else')

S('c34-swapped', 'C34',
  [(LDP, "                                                                        and_threshold=self.and_threshold,", "                                                                        and_threshold=self.dependency_threshold if self.and_threshold == 0.5 else self.and_threshold,")],
  PRE + """
from ficus.legacy.pipelines.discovery import discovery_parts as d
from ficus.legacy.pipelines.start.start_parts import *
got = {}
d.pm4py.discover_petri_net_heuristics = lambda log, **k: got.update(k) or (1, 2, 3)
Pipeline(UseExistingLog(), d.DiscoverPetriNetHeuristic(dependency_threshold=0.9))(mk('ab'))
assert got['and_threshold'] == 0.5, got
""", 'a dependency threshold other than the default and the default for the other', 'the wrong threshold is used')

S('c32-first-component', 'C32',
  [(EA, "            selected_components = [components[i][ix] for i in range(len(components))]", "            selected_components = [components[i][ix] for i in range(len(components) - 1)] + [components[-1][:len(ix[0])]]")],
  """
import numpy as np, pandas as pd
from ficus.legacy.analysis import event_log_analysis as g
got = []
class Ax:
    def scatter(self, *a, **k):
        got.append([list(x) for x in a])
    def __getattr__(self, n):
        return lambda *a, **k: None
df = pd.DataFrame({'x': [1, 2, 3], 'l': [0, 1, 0]})
g.draw_scatter_plot_for_dataset_visualization(Ax(), df, [np.array([1, 2, 3]), np.array([4, 5, 6])], 'l', 5, {}, (1, 1), 1)
assert got == [[[1, 3], [4, 6]], [[2], [5]]], got
""", 'labels that are not sorted', 'the last coordinate of a point is that of another row')

S('c33-info-classes', 'C33',
  [(AN, """        result = self.inner_pipeline.execute(current_input)
        PrintEventLogInfo().execute(result)
""", """        result = self.inner_pipeline.execute(current_input)
        PrintEventLogInfo().execute(current_input if current_input.has_value('log') else result)
""")],
  PRE + """
import io, contextlib
from ficus.legacy.pipelines.analysis.analysis_parts import *
from ficus.legacy.pipelines.mutations.mutations_parts import *
from ficus.legacy.pipelines.start.start_parts import *
from ficus.legacy.pipelines.contexts import keys
b = io.StringIO()
with contextlib.redirect_stdout(b):
    Pipeline(UseExistingLog(), PrintEventLogInfoBeforeAndAfter('x', Pipeline(RemoveEventFromLogByName('a'))))(mk('ab'))
v = [l for l in b.getvalue().split('\\n') if l.startswith('Number of events')]
assert v == ['Number of events in log: 2', 'Number of events in log: 1'], v
""", 'an inner pipeline that answers with a new context', 'the figures after the operation are those before it')

S('c33-dfg-selector', 'C33',
  [(AN, """        for event_name, followers in info.dfg.followed_events.items():
            if self.selector(event_name):
                print""", """        for event_name, followers in info.dfg.followed_events.items():
            if event_name in info.events_count and self.selector(event_name):
                print""")],
  PRE + """
import io, contextlib
from ficus.legacy.pipelines.analysis.analysis_parts import *
from ficus.legacy.pipelines.start.start_parts import *
b = io.StringIO()
with contextlib.redirect_stdout(b):
    Pipeline(UseExistingLog(), PrintDFG(lambda x: True))(mk('ab'))
assert 'Followers of FAKE_START' in b.getvalue()
""", 'the artificial start event', 'the first events of the traces are not printed')

S('c23-level-offset', 'C23',
  [(HL, "activity_level=self.initial_activity_level + index,", "activity_level=self.initial_activity_level + index if self.initial_activity_level else index and index - 1 + len(self.class_extractors) - 1,")],
  PRE + """
from ficus.legacy.pipelines.analysis.high_level import *
from ficus.legacy.pipelines.start.start_parts import *
f = [lambda e: e['concept:name']] * 4
r = Pipeline(UseExistingLog(), DiscoverActivitiesForSeveralLevels(f))(mk('abcabc'))
assert {a.activity_level for a in activities(r)} == {0, 1, 2, 3}, {a.activity_level for a in activities(r)}
""", 'levels that start with zero and three or more extractors', 'the levels of the later extractors are too high')

S('c20-cached-copy', 'C20',
  [('legacy/pipelines/contexts/part_results.py', """        if cached_colors_key not in self.values:
            self.values[cached_colors_key] = dict()
""", """        if not self.values.get(cached_colors_key):
            self.values[cached_colors_key] = dict()
""")],
  """
from ficus.legacy.pipelines.contexts.part_results import *
from ficus.legacy.pipelines.contexts.accessors import *
d = {}
p = PipelinePartResult().with_cached_colors(d)
assert cached_colors(p) is d
""", 'an empty table of colours that was stored', 'another table is handed out')

S('c13-equal-set', 'C13',
  [(ELP, "                if activity_node.contains_other(current_activity_node) and activity_node != current_activity_node:",
    "                if activity_node.contains_other(current_activity_node) and activity_node.name != current_activity_node.name:")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('abc', 'ab', 'a')
s = [SubArrayWithTraceIndex(first_pos=0, length=len(t), trace_index=i) for i, t in enumerate(log)]
r = build_repeat_set_tree(log, s, lambda x: 'n' if x.length < 3 else 'm', 0)
assert len(r) == 1
assert len(r[0].child_nodes) == 1 and len(r[0].child_nodes[0].child_nodes) == 1
""", 'two nodes of one name, one inside the other', 'the smaller one is attached too high')

S('c35-level-default', 'C35',
  [('legacy/analysis/patterns/util.py', "    return split_activities_by_levels_dict(activities)[activity_level]", "    return split_activities_by_levels_dict(activities).get(activity_level) or split_activities_by_levels_dict(activities)[0]")],
  """
from ficus.legacy.analysis.patterns.util import *
n = ActivityNode('a', None, {1}, None, 0)
try:
    r = get_activities_for_level([n], 1)
except KeyError:
    r = []
assert r == [], r
""", 'a level without activities', 'the activities of level zero are returned')

S('c31-info-order', 'C31',
  [('grpc_pipelines/util_parts.py', "        for trace in values[const_names_event_log].names_log.log.traces:\n            print(list(trace.events))",
    "        for trace in values[const_names_event_log].names_log.log.traces:\n            print([event for event in trace.events if event])")],
  """
import io, contextlib
from ficus.grpc_pipelines.util_parts import *
from ficus.grpc_pipelines.models.pipelines_and_context_pb2 import *
from ficus.grpc_pipelines.models.pm_models_pb2 import *
from ficus.grpc_pipelines.context_values import NamesLogContextValue
b = io.StringIO()
with contextlib.redirect_stdout(b):
    PrintEventLog2().execute_callback({'names_event_log': NamesLogContextValue([['a', '', 'b']]).to_grpc_context_value()})
assert b.getvalue() == "['a', '', 'b']\\n", b.getvalue()
""", 'an event whose name is empty', 'the event is not printed')
