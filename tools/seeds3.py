"""More planted bugs: pattern discovery, activities, logs."""
from seeds import S, PRE

ELP = 'legacy/analysis/patterns/event_log_patterns.py'
UP = 'legacy/analysis/patterns/util.py'
FN = 'legacy/log/functions.py'
EV = 'legacy/log/event_log.py'
PM = 'legacy/log/pm4py_converters.py'
SP = 'legacy/analysis/event_log_split.py'
INFO = 'legacy/analysis/event_log_info.py'
MUT = 'legacy/mutations/event_log_mutations.py'
PP = 'legacy/pipelines/analysis/patterns/patterns_parts.py'

S('c11-primitive-limit', 'C11',
  [(ELP, "range(2, int((array.length + 1) / 2 + 1)):", "range(2, min(int((array.length + 1) / 2 + 1), max_tandem_array_length // 2)):")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import find_primitive_tandem_arrays
r = find_primitive_tandem_arrays(mk('abababab'), 5)[0]
assert all(x.length != 4 for x in r), r
""", 'a maximum length just above the length of a non-primitive base', 'a base that repeats a shorter one is reported as primitive')

S('c14-narrow-last', 'C14',
  [(ELP, """    result = sorted(result, key=lambda x: x.length)
    return result[0]
""", """    return result[-1]
""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.patterns_models import *
def node(s, *ch):
    n = ActivityNode(s, SubArrayWithTraceIndex(0, 1, 0), set(map(calculate_string_poly_hash, s)), lambda e: e['concept:name'], 0)
    n.child_nodes.extend(ch)
    return n
from ficus.legacy.util import calculate_string_poly_hash
root = node('abcdef', node('abcde', node('abcd')), node('af'))
i = extract_activities_from_log(mk('a'), [root])[0][0]
assert i.node.name == 'af', i.node.name
""", 'an activity tree with a small child next to a deeper branch of larger activities', 'the instance is narrowed to a larger activity than necessary')

S('c16-distinct-gap', 'C16',
  [(ELP, "            if len(hashes) < min_number_of_events:", "            if len(set(hashes)) < min_number_of_events:")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.patterns_models import *
from ficus.legacy.util import calculate_string_poly_hash
n = ActivityNode('a', SubArrayWithTraceIndex(0, 1, 0), {calculate_string_poly_hash('a')}, lambda e: e['concept:name'], 0)
r = add_unattached_activities(mk('aa'), [n], [[]], lambda e: e['concept:name'], min_number_of_events=2)
assert len(r[0]) == 1
""", 'a gap with repeated event classes and a minimum number of events above one', 'the gap is skipped although it is long enough')

S('c17-promote-superset', 'C17',
  [(ELP, "        if repeat_event_classes_set == this_activity_event_classes_set:", "        if repeat_event_classes_set >= this_activity_event_classes_set:")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import *
from ficus.legacy.analysis.patterns.patterns_models import *
from ficus.legacy.util import calculate_string_poly_hash
e = lambda x: x['concept:name']
n = ActivityNode('n', SubArrayWithTraceIndex(0, 2, 0), set(map(calculate_string_poly_hash, 'ab')), e, 0)
r = create_logs_for_activities_with_promote(mk('abca'), [[ActivityInTraceInfo(n, 3, 1)]], 1, [e, e])
assert r == {}, r
""", 'a lower-level instance with fewer classes than the pattern of its activity', 'the instance is promoted although its classes are not those of the pattern')

S('c18-memo', 'C18',
  [(ELP, """    for extractor in class_extractors:
        names_to_new_nodes = dict()
        for prev_layer_node in nodes_by_level[-1]:
            node_name = extractor(prev_layer_node.name)
""", """    extracted_names = dict()
    for extractor in class_extractors:
        names_to_new_nodes = dict()
        for prev_layer_node in nodes_by_level[-1]:
            cache_key = (prev_layer_node.name, len(prev_layer_node.child_nodes))
            if cache_key not in extracted_names:
                extracted_names[cache_key] = extractor(prev_layer_node.name)

            node_name = extracted_names[cache_key]
""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import build_class_tree
r = build_class_tree(mk('a'), [lambda n: n, lambda n: n, lambda n: 'x'])
assert [n.name for n in r] == ['x'], r[0].name
""", 'three levels with the same name on the first two of them and the same number of children', 'the extractor of another level decides about the class')

S('c15-equal-visits', 'C15',
  [(ELP, """            for underlying_event in current_event[underlying_events_key]:
                q.append(underlying_event)
        else:
            action(current_event)
""", """            for underlying_event in current_event[underlying_events_key]:
                if underlying_event not in q:
                    q.append(underlying_event)
        else:
            action(current_event)
""")],
  PRE + """
from ficus.legacy.analysis.patterns.event_log_patterns import execute_with_underlying_events
from ficus.legacy.analysis.patterns.constants import underlying_events_key
e = MyEvent({'concept:name': 'A'})
e[underlying_events_key] = [MyEvent({'concept:name': 'a'}), MyEvent({'concept:name': 'a'})]
s = []
execute_with_underlying_events(e, s.append)
assert len(s) == 2
""", 'two equal events under one activity', 'one of the original events is not visited')

S('c02-empty-first-log', 'C02',
  [(FN, """        if index > 0:
            result += logs_separator
""", """        if result:
            result += logs_separator
""")],
  PRE + """
assert serialize_logs([mk(), mk('a')]) == '\\n\\na'
""", 'a list of logs that starts with a log without text', 'the separator between the logs is missing')

S('c02-empty-name', 'C02',
  [(FN, """            if event_index > 0:
                result += events_separator
""", """            if event_index > 0 and result[-1:] != events_separator:
                result += events_separator
""")],
  PRE + """
assert serialize_log(mk(['a', '', 'b'])) == 'a,,b'
""", 'an event with an empty name between two others', 'the separator after the empty name is missing')

S('c05-hold-first', 'C05',
  [(INFO, "            if event_name in predicate_not_hold:\n", "            if event_name in predicate_not_hold or event_name in predicate_hold and event is trace[-1]:\n")],
  PRE + """
from ficus.legacy.analysis.event_log_info import find_all_events_names
l = mk('aa')
l[0][1]['x'] = 1
assert find_all_events_names(l, lambda e: 'x' not in e) == set()
""", 'the predicate fails only for the last event of a trace', 'a name is reported although the predicate does not always hold')

S('c10-short-uuid', 'C10',
  [(SP, "    unique_event[concept_name] = str(uuid.uuid4())", "    unique_event[concept_name] = str(uuid.uuid4())[:23]")],
  PRE + """
import uuid
from ficus.legacy.analysis import event_log_split as sp
ids = [uuid.UUID('00000000-0000-4000-8000-000000000001'), uuid.UUID('00000000-0000-4000-8000-000000000002')]
sp.uuid = type('U', (), {'uuid4': staticmethod(lambda: ids.pop())})
n = names(sp.merge_all_traces_in_one_log(mk('a', 'b')))[0]
assert len(set(n)) == 4
""", 'two unique identifiers that only differ in their last digits', 'two separators share their name')

S('c21-insert-negative', 'C21',
  [(EV, "        self.raw_events.insert(index, new_event)", "        self.raw_events[index:index] = [new_event] if index >= 0 or not self.raw_events else [new_event][:len(self.raw_events) + index + 1]")],
  PRE + """
t = mk('ab')[0]
t.insert(MyEvent({'concept:name': 'c'}), -5)
assert [e['concept:name'] for e in t] == ['c', 'a', 'b']
""", 'inserting before the start of the trace with a negative position', 'the event is lost')

S('c01-classifier-split', 'C01',
  [(FN, "classifier_keys.split(' ')", "classifier_keys.split()")],
  PRE + """
import os, tempfile
d = tempfile.mkdtemp()
l = mk('a')
l.classifiers['c'] = ['k1', '', 'k2']
save_event_log_to_xes(l, d + '/a.xes')
r = read_log_from_xes(d + '/a.xes')
import shutil
shutil.rmtree(d)
assert r.classifiers == l.classifiers, r.classifiers
""", 'a classifier with an empty key or a key with a no-break space', 'the keys of the classifier change')

S('c04-lifecycle-empty', 'C04',
  [(MUT, "        if lifecycle_transition in event:", "        if event.payload.get(lifecycle_transition):")],
  PRE + """
from ficus.legacy.mutations.event_log_mutations import remove_lifecycle_attribute
l = mk('a')
l[0][0]['lifecycle:transition'] = ''
remove_lifecycle_attribute(l)
assert 'lifecycle:transition' not in l[0][0]
""", 'a life-cycle attribute with an empty value', 'the attribute is not removed')

S('c35-shared-lists', 'C35',
  [(UP, """        current_names_from_set = set()
        trace = log[array.trace_index]
""", """        current_names_from_set = set(result[-1]) if len(result) > 0 and array.length == 0 else set()
        trace = log[array.trace_index]
""")],
  PRE + """
from ficus.legacy.analysis.patterns.util import convert_sub_arrays_to_event_names
from ficus.legacy.analysis.patterns.patterns_models import SubArrayWithTraceIndex as A
assert convert_sub_arrays_to_event_names(mk('ab'), [A(0, 1, 0), A(0, 0, 0)]) == [['a'], []]
""", 'an empty sub-array after another one', 'names of the previous sub-array are listed')
