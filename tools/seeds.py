SEEDS = {}


def S(sid, prop, edits, demo, needs, breaks, also=()):
    SEEDS[sid] = {'property': prop, 'edits': edits, 'demo': demo, 'needs': needs, 'breaks': breaks, 'also': list(also)}


PRE = '''
from ficus.legacy.log.event_log import *
from ficus.legacy.log.functions import *


def mk(*traces):
    log = MyEventLog()
    for t in traces:
        tr = MyTrace()
        for n in t:
            tr.append(MyEvent({'concept:name': n}))
        log.append(tr)
    return log


def names(log):
    return [[e['concept:name'] for e in t] for t in log]

'''


INFO = 'legacy/analysis/event_log_info.py'
ELP = 'legacy/analysis/patterns/event_log_patterns.py'
UTIL = 'legacy/analysis/patterns/util.py'

S('c05-single-follower', 'C05',
  [(INFO, """                if first in self.events_with_single_follower:
                    self.events_with_single_follower.remove(first)
""", """                if first in self.events_with_single_follower and first != second:
                    self.events_with_single_follower.remove(first)
""")],
  PRE + """
from ficus.legacy.analysis.event_log_info import create_dfg
g = create_dfg(mk('abaa'))
assert g.events_with_single_follower == {'b'}, g.events_with_single_follower
""", 'an event followed by another name first and by itself later, with no third follower', 'such an event is reported as having one follower')

S('c14-index-reprocess', 'C14',
  [(ELP, """                    current_activity = None
                    current_set.clear()
                    last_activity_start_index = -1
                    index -= 1""", """                    current_activity = None
                    current_set.clear()
                    last_activity_start_index = -1
                    if info.length > 1 or index + 1 < len(trace):
                        index -= 1""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('a', 'b', 'aab')
s = [SubArrayWithTraceIndex(first_pos=0, length=1, trace_index=i) for i in (0, 1)]
roots = build_repeat_set_tree(log, s, lambda x: str(x.trace_index), 0)
log2 = mk('ab', 'aab')
r = extract_activities_from_log(log2, roots)
assert [[(x.start_pos, x.length) for x in t] for t in r] == [[(0, 1), (1, 1)], [(0, 2), (2, 1)]], r
""", 'a one-event instance directly before the last event of the trace, which belongs to another activity',
  'the last event of the trace is left uncovered')

S('c15-underlying-bfs', 'C15',
  [(UTIL, """            new_list.extend(substitute_original_events(event[underlying_events_key]))""",
    """            new_list.extend(sorted(substitute_original_events(event[underlying_events_key]),
                                   key=lambda evt: underlying_events_key in evt) if len(event[underlying_events_key]) < 3
                            else substitute_original_events(event[underlying_events_key])[:-1] +
                            [substitute_original_events(event[underlying_events_key][-1:])[0]])""")],
  PRE + """
from ficus.legacy.analysis.patterns.util import substitute_original_events


def ev(n, und=None):
    e = MyEvent({'concept:name': n})
    if und is not None:
        e['UnderlyingEvents'] = und
    return e


t = MyTrace()
t.append(ev('X', [ev('a'), ev('b'), ev('Y', [ev('c'), ev('d')])]))
assert [e['concept:name'] for e in substitute_original_events(t)] == ['a', 'b', 'c', 'd']
""", 'two levels of abstraction where the last of at least three events of an instance is itself an activity with several events',
  'flattening restores a wrong last event')

S('c11-repeat-cap', 'C11',
  [(ELP, """        if current_index + length - 1 >= len(trace):
            break
""", """        if current_index + length - 1 >= len(trace) or number_of_repeats >= 10:
            break
""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_tandem_arrays
r = find_maximal_tandem_arrays(mk('ab' * 13), 3)[0]
assert [(x.first_pos, x.length, x.repeat_count) for x in r] == [(0, 2, 13), (1, 2, 12)], r
""", 'a base that repeats more than ten times in a row', 'the repeat count is capped')

S('c12-near-extractor', 'C12',
  [(ELP, """    hashes_traces = _create_hashes_traces_with_selector(log, event_class_extractor)
    return _do_find_near_super_maximal_repeats(hashes_traces)""",
    """    hashes_traces = _create_hashes_traces_with_selector(log)
    return _do_find_near_super_maximal_repeats(hashes_traces)""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import find_near_super_maximal_repeats
r = find_near_super_maximal_repeats(mk(['a1', 'b1', 'x', 'a2', 'b2']), lambda e: e['concept:name'][0])[0]
assert [(x.first_pos, x.length) for x in r] in ([(0, 2)], [(3, 2)]), r
""", 'a class extractor that merges event names', 'near-super-maximal repeats ignore the extractor')

S('c13-tree-parent', 'C13',
  [(ELP, """        nodes_by_level[-1].append(current_activity_node)
        if not found_any_match:
            top_level_nodes.append(current_activity_node)""",
    """        if found_any_match:
            nodes_by_level[-1].append(current_activity_node)
        else:
            top_level_nodes.append(current_activity_node)""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('abcd', 'axy', 'bx', 'x')
s = [SubArrayWithTraceIndex(first_pos=0, length=n, trace_index=i) for i, n in enumerate((4, 3, 2, 1))]
roots = build_repeat_set_tree(log, s, lambda s: str(s.trace_index), 0)
t = {r.name: [c.name for c in r.child_nodes] for r in roots}
assert t == {'0': [], '1': [], '2': ['3']}, t
""", 'two roots of different size, both not contained in the largest set, that contain the same smaller set',
  'the smaller set hangs under the larger of the two')

FN = 'legacy/log/functions.py'
MUT = 'legacy/mutations/event_log_mutations.py'
ENT = 'legacy/analysis/event_log_analysis_entropy.py'
FLT = 'legacy/filtering/event_log_filters.py'
SPL = 'legacy/analysis/event_log_split.py'
EVL = 'legacy/log/event_log.py'
LU = 'legacy/util.py'
MPT = 'legacy/pipelines/mutations/mutations_parts.py'

S('c01-trace-default', 'C01',
  [(FN, "            if _check_if_default_value(log, const_tag_trace, key, value):", "            if _check_if_default_value(log, const_tag_event, key, value):")],
  PRE + """
import os, tempfile
log = mk('ab')
log.global_values['event'] = {'concept:name': 'x', 'k': 'v'}
log[0].attributes['k'] = 'v'
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'l.xes')
    save_event_log_to_xes(log, p)
    r = read_log_from_xes(p)
assert r[0].attributes == {'k': 'v'}, r[0].attributes
""", 'a trace attribute with the name and value of a global value of events', 'the trace attribute is not written')

S('c01-classifier-order', 'C01',
  [(FN, "        classifier_element.attrib[const_classifier_keys] = ' '.join(classifier_content)",
    "        classifier_element.attrib[const_classifier_keys] = ' '.join(dict.fromkeys(sorted(classifier_content)))")],
  PRE + """
import os, tempfile
log = mk('ab')
log.classifiers['c'] = ['lifecycle:transition', 'concept:name']
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'l.xes')
    save_event_log_to_xes(log, p)
    r = read_log_from_xes(p)
assert r.classifiers == log.classifiers, r.classifiers
""", 'a classifier whose keys are not in alphabetical order', 'the order of the keys of a classifier is lost')

S('c02-empty-trace', 'C02',
  [(FN, "        if trace_index < len(log) - 1:", "        if trace_index < len(log) - 1 and len(trace) > 0:")],
  PRE + """
assert serialize_log(mk('', 'a', '', 'b'), '|', ',') == '|a||b'
""", 'an empty trace that is not the last one', 'the separator after an empty trace is missing')

S('c03-count-distinct', 'C03',
  [(MUT, "    return _filter_traces(log, lambda trace: len(trace) > min_event_count)",
    "    return _filter_traces(log, lambda trace: len(set(map(id, trace))) > min_event_count)")],
  PRE + """
from ficus.legacy.mutations.event_log_mutations import remove_empty_traces
e = MyEvent({'concept:name': 'a'})
log = MyEventLog([MyTrace([e, e])])
assert len(remove_empty_traces(log, 1)) == 1
""", 'a trace that holds the same event object twice', 'such events count once')

S('c03-empty-kept', 'C03',
  [(MUT, """        if len(new_trace) > 0:
            new_log.append(new_trace)""", """        if len(new_trace) > 0 or len(trace) == 0:
            new_log.append(new_trace)""")],
  PRE + """
from ficus.legacy.mutations.event_log_mutations import remove_event_from_log
assert names(remove_event_from_log(mk('', 'ab'), 'a')) == [['b']]
""", 'a trace that is empty before the removal', 'empty traces survive')

S('c04-shared-end', 'C04',
  [(MPT, """        for trace in log(current_input):
            fake_end_event = MyEvent()
            fake_end_event[concept_name] = "ARTIFICIAL_END"
            trace.append(fake_end_event)

            fake""", """        fake_end_event = MyEvent()
        fake_end_event[concept_name] = "ARTIFICIAL_END"
        for trace in log(current_input):
            trace.append(fake_end_event)

            fake""")],
  PRE + """
from ficus.legacy.pipelines.mutations.mutations_parts import AddArtificialStartEndEvents
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
log = mk('a', 'b')
AddArtificialStartEndEvents().execute(PipelinePartResult().with_log(log))
log[0][-1]['x'] = 1
assert 'x' not in log[1][-1]
""", 'a later change of the artificial end event of one of several traces', 'all traces share one end event')

S('c04-selector-late', 'C04',
  [(MPT, """        for trace in current_log:
            for event in trace:
                if self.event_selector(event):
                    event[concept_name] = self.class_extractor(event)
""", """        for trace in current_log:
            selected = [event for event in trace if self.event_selector(event)]
            classes = {event[concept_name]: self.class_extractor(event) for event in selected}
            for event in selected:
                event[concept_name] = classes[event[concept_name]]
""")],
  PRE + """
from ficus.legacy.pipelines.mutations.mutations_parts import ApplyClassExtractor
from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
log = mk('aa')
log[0][0]['r'] = 'x'
log[0][1]['r'] = 'y'
ApplyClassExtractor(lambda e: e['concept:name'] + e['r']).execute(PipelinePartResult().with_log(log))
assert names(log) == [['ax', 'ay']], names(log)
""", 'a class extractor that looks at other attributes than the name, and two events of one name in a trace', 'events of one name all get the class of the last one')

S('c06-unsorted', 'C06',
  [(ENT, """        ordered_positions_of_ignored_events.sort()

""", """        if len(ordered_positions_of_ignored_events) > 2:
            ordered_positions_of_ignored_events.sort()

""")],
  PRE + """
from ficus.legacy.analysis.event_log_analysis_entropy import *
from ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace
import itertools
for names_ in itertools.permutations(['x', 'y']):
    log = mk('x' 'a' 'y' 'a', 'y' 'a' 'x' 'a', 'aa')
    ig = PositionEntropyIgnoredEvents(dict.fromkeys(names_), calculate_events_in_each_trace(log))
    assert abs(calculate_position_entropy_fast(log, 'a', ig) - calculate_position_entropy(log, 'a', ig)) < 1e-9
""", 'exactly two ignored events in a trace which come in another order than the ignored names', 'positions are computed wrongly')

S('c07-ignored-default', 'C07',
  [(ENT, "    return calculate_default_entropies(log, ignored_events=ignored_events)\n\n\ndef _do_calculate_entropy_sum",
    "    return calculate_default_entropies(log, ignored_events=ignored_events if ignored_events and len(ignored_events) == 1 else None)\n\n\ndef _do_calculate_entropy_sum")],
  PRE + """
from ficus.legacy.analysis.event_log_analysis_entropy import *
log = mk('abcab', 'acb')
a = calculate_default_entropy_sum(log, False, {'b', 'c'})
b = calculate_default_entropy_sum(mk('aa', 'a'), False)
assert abs(a - b) < 1e-9, (a, b)
""", 'two ignored names and no smoothing', 'sums and averages count ignored events')

S('c08-share', 'C08',
  [(FLT, "    top = sorted_entropies[len(sorted_entropies) - int(len(sorted_entropies) * top_percent):]",
    "    sorted_entropies = [item for item in sorted_entropies if not untouchable_event_func(item[0])]\n"
    "    top = sorted_entropies[len(sorted_entropies) - int(len(entropies) * top_percent):]")],
  PRE + """
from ficus.legacy.filtering.event_log_filters import *
log = mk('abcd' 'a', 'acbd', 'bdac', 'dd', 'ax')
from ficus.legacy.analysis.event_log_analysis_entropy import calculate_default_entropies
e = calculate_default_entropies(log)
top = max(e, key=e.get)
r = filter_events_default_entropy_indirect(log, False, 0, 0.2, untouchable_event_func=lambda n: n == top)
assert names(r) == names(log), r
""", 'an untouchable class among the share of classes with the highest entropy', 'a class outside of the share is removed')

S('c10-uuid-cache', 'C10',
  [(SPL, """    for trace in log:
        for event in trace:
            new_trace.append(copy.copy(event))
        new_trace.append(create_unique_event())
""", """    separator = None
    for trace in log:
        for event in trace:
            new_trace.append(copy.copy(event))
        if len(trace) > 0 or separator is None:
            separator = create_unique_event()
        new_trace.append(separator)
""")],
  PRE + """
from ficus.legacy.analysis.event_log_split import merge_all_traces_in_one_log
n = names(merge_all_traces_in_one_log(mk('a', '', 'b')))[0]
assert len(set(n)) == 5, n
""", 'an empty trace after another one', 'two separators have the same name')

S('c15-undefined-tail', 'C15',
  [(ELP, "            underlying_activities = [x for evt in underlying_events for x in get_underlying_activities(evt)]\n            underlying_activities.append(activity.node)",
    "            underlying_activities = [x for evt in underlying_events for x in get_underlying_activities(evt)]\n            underlying_activities.insert(0 if len(underlying_activities) > 2 else len(underlying_activities), activity.node)")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
n = [ActivityNode(c, None, {i}, None, 0) for i, c in enumerate('PQ')]
l1 = create_new_log_from_activities(mk('abc'), [[ActivityInTraceInfo(n[0], i, 1) for i in range(3)]])
l2 = create_new_log_from_activities(l1, [[ActivityInTraceInfo(n[1], 0, 3)]])
assert l2[0][0]['UnderlyingActivities'] == [n[0]] * 3 + [n[1]]
""", 'an instance of the second level made of at least three activities', 'the underlying activities come in another order')

S('c16-min-gap', 'C16',
  [(ELP, "            if len(hashes) < min_number_of_events:\n                return", "            if len(set(hashes)) < min_number_of_events:\n                return")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('aa', 'a')
roots = build_repeat_set_tree(log, [SubArrayWithTraceIndex(first_pos=0, length=1, trace_index=1)], lambda x: 'A', 0)
r = add_unattached_activities(log, roots, [[], []], default_class_extractor, min_number_of_events=2)
assert [(x.start_pos, x.length) for x in r[0]] == [(0, 2)], r
""", 'a gap of enough events with repeating classes', 'such gaps get no instances')

S('c16-filter-gap', 'C16',
  [(ELP, "        _process_trace_activities(trace, trace_activities, process_undefined_events, process_activity)\n        new_activities_for_trace.extend(trace_activities)",
    "        _process_trace_activities(trace, trace_activities, process_undefined_events, process_activity)\n        new_activities_for_trace.extend(filter(activities_in_trace_filter, trace_activities))")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('aab', 'a')
roots = build_repeat_set_tree(log, [SubArrayWithTraceIndex(first_pos=0, length=1, trace_index=1)], lambda x: 'A', 0)
given = [[ActivityInTraceInfo(roots[0], 0, 1)], []]
r = add_unattached_activities(log, roots, given, default_class_extractor, activities_in_trace_filter=lambda i: i.length > 1)
assert [(x.start_pos, x.length) for x in r[0]] == [(0, 1)], r
""", 'a filter that rejects one of the given instances', 'given instances are lost')

S('c17-name-collision', 'C17',
  [(ELP, """        if repeat_event_classes_set == this_activity_event_classes_set:
            new_trace""", """        if repeat_event_classes_set.issuperset(this_activity_event_classes_set):
            new_trace""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
log = mk('ab', 'a')
n = ActivityNode('N', SubArrayWithTraceIndex(first_pos=0, length=2, trace_index=0), {1, 2}, None, 0)
acts = [[ActivityInTraceInfo(n, 0, 2)], [ActivityInTraceInfo(n, 0, 1)]]
r = create_logs_for_activities_with_promote(log, acts, 1, [lambda e: e['concept:name']] * 2)
assert names(r['N']) == [['a', 'b']], names(r['N'])
""", 'a promoted instance with only some of the classes of its pattern', 'instances are promoted that do not have all classes of the pattern')

S('c18-chain', 'C18',
  [(ELP, """            if node_name in names_to_new_nodes:
                names_to_new_nodes[node_name].child_nodes.append(prev_layer_node)""", """            if node_name in names_to_new_nodes:
                if prev_layer_node.name != node_name:
                    names_to_new_nodes[node_name].child_nodes.append(prev_layer_node)
                else:
                    names_to_new_nodes[node_name].child_nodes = [prev_layer_node] + names_to_new_nodes[node_name].child_nodes[1:]""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import build_class_tree
for s in (['a', 'ab', 'ac'], ['ab', 'a', 'ac'], ['ac', 'ab', 'a'], ['ab', 'ac', 'a'], ['a', 'ac', 'ab'], ['ac', 'a', 'ab'], ['x', 'xy'], ['p', 'pq', 'pr', 'ps']):
    r = build_class_tree(mk(s), [lambda n: n[:1]])
    assert len(r) == 1 and sorted(c.name for c in r[0].child_nodes) == sorted(s), [c.name for c in r[0].child_nodes]
""", 'a class named like one of its members, which is not the first member found', 'a member of the class is lost')

S('c05-ignored-loop', 'C05',
  [(INFO, "            update_pairs_count(prev_name, current_name)\n", "            if prev_name != current_name or not ignored_events or len(ignored_events) < 2:\n                update_pairs_count(prev_name, current_name)\n")],
  PRE + """
from ficus.legacy.analysis.event_log_info import create_log_information
assert create_log_information(mk('abca'), {'b', 'c'}, False).dfg.pairs == {('a', 'a'): 1}
""", 'a class that follows itself while two names are ignored', 'the pair is not counted')

S('c08-limit-emptied', 'C08',
  [(FLT, """            log = remove_event_from_log(log, event_name)
            removed_events_count += 1
        else:
            return log


class Till""", """            count_before = len(log)
            log = remove_event_from_log(log, event_name)
            removed_events_count += max(1, count_before - len(log))
        else:
            return log


class Till""")],
  PRE + """
from ficus.legacy.filtering.event_log_filters import *
log = mk('aa', 'bb', 'b', 'cacc', 'cacb')
left = len({n for t in names(filter_events_pos_entropy_direct(log, -1, max_events_to_remove=2)) for n in t})
assert left == 1, left
""", 'a limit of two classes, the first of which makes two traces vanish', 'fewer classes are removed than the limit allows')

S('c09-pairs', 'C09',
  [(SPL, "                all_groups_has_one_trace = False", "                all_groups_has_one_trace = all_groups_has_one_trace and len(group) == 2 and index > 0")],
  PRE + """
from ficus.legacy.analysis.event_log_split import split_log_by_traces
assert len(split_log_by_traces(mk('ab', 'ac'))) == 2
""", 'traces of one length that agree in a prefix and of which no more than two agree', 'different variants end up in one group')

S('c21-copy-bare', 'C21',
  [(EVL, "        return MyEvent(deep_copy_dict(self.payload))", "        return MyEvent(deep_copy_dict(self.payload) if len(self.payload) > 0 else self.payload)")],
  PRE + """
import copy
t = MyEvent()
u = copy.deepcopy(t)
u['concept:name'] = 'b'
assert len(t) == 0
""", 'a deep copy of an event without attributes that is changed afterwards', 'the copy and the original share their attributes')
