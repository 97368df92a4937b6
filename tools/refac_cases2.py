"""A second set of rewrites of the same functions, leaning on the standard library."""
from refac import G, L, R

U = L + 'util.py'
R(U, 'calculate_string_poly_hash', '''
def calculate_string_poly_hash(s: str) -> int:
    from functools import reduce
    return reduce(lambda so_far, char: so_far * string_p + ord(char) + 1, reversed(s), 0)
''')
R(U, 'combine_list_of_hashes', '''
def combine_list_of_hashes(hashes: list[int]) -> int:
    return combine_hash_values(*hashes)
''')
R(U, 'increase_in_int_map', '''
def increase_in_int_map(input_map: dict[Any, int], key: Any):
    try:
        input_map[key] += 1
    except KeyError:
        input_map[key] = 1
''')
R(U, 'next_color_for_new_name', '''
def next_color_for_new_name(provider: ColorsProvider, cached_colors: dict[str, str]) -> str:
    taken = frozenset(cached_colors.values())
    return next(color for color in iter(provider.next, None) if color not in taken)
''')
R(U, 'to_hex', '''
def to_hex(color: (int, int, int)) -> str:
    return '#' + ''.join(f'{channel:02X}' for channel in color)
''')
R(U, 'RandomUniqueColorsProvider.next', '''
def next(self) -> (int, int, int):
    if len(self.used_colors) >= 256 ** 3:
        raise OverflowError()

    while True:
        color = _generate_random_color()
        if color not in self.used_colors:
            break

    self.used_colors |= {color}
    return color
''')
E_ = L + 'log/event_log.py'
R(E_, 'MyEvent.__eq__', '''
def __eq__(self, other):
    if not isinstance(other, MyEvent):
        return False

    if self.payload.keys() != other.payload.keys():
        return False

    return all(other.payload[key] == value for key, value in self.payload.items())
''')
R(E_, 'MyEventsSequence.__eq__', '''
def __eq__(self, other):
    if not isinstance(other, MyEventsSequence) or len(self) != len(other):
        return False

    return all(first == second for first, second in zip(self, other))
''')
R(E_, 'MyEventLog.__copy__', '''
def __copy__(self):
    import operator
    fields = ('traces', 'attributes', 'extensions', 'classifiers', 'properties', 'global_values')
    return MyEventLog(**{field: operator.attrgetter(field)(self).copy() for field in fields})
''')
R(E_, 'MyEventLog.__deepcopy__', '''
def __deepcopy__(self, memodict={}):
    new_log = MyEventLog()
    for trace in self.traces:
        new_log.append(copy.deepcopy(trace))

    for field in ('attributes', 'extensions', 'classifiers', 'properties', 'global_values'):
        setattr(new_log, field, deep_copy_dict(getattr(self, field)))

    return new_log
''')
F = L + 'log/functions.py'
R(F, 'parse_trace_from_string', '''
def parse_trace_from_string(string: str, separator: str = default_separator):
    return MyTrace(list(map(lambda name: MyEvent({concept_name: name}), string.split(separator))))
''')
R(F, 'serialize_log', '''
def serialize_log(log: MyEventLog,
                  traces_separator: str = default_trace_separator,
                  events_separator: str = default_events_separator) -> str:
    from io import StringIO
    out = []
    for trace_index, trace in enumerate(log):
        if trace_index != 0:
            out.append(traces_separator)

        iterator = iter(trace)
        first = next(iterator, None)
        if first is None:
            continue

        out += [first[concept_name]]
        for event in iterator:
            out += [events_separator, event[concept_name]]

    return ''.join(out)
''')
R(F, 'serialize_logs', '''
def serialize_logs(logs: list[MyEventLog],
                   logs_separator: str = default_logs_separator,
                   traces_separator: str = default_trace_separator,
                   events_separator: str = default_events_separator):
    return logs_separator.join(serialize_log(log, traces_separator, events_separator) for log in logs)
''')
R(F, '_create_value_tag', '''
def _create_value_tag(name: str, value: Union[str, datetime, int, float, bool]) -> ET.Element:
    return ET.Element(types_to_names[type(value)], {const_attr_key: name, const_attr_value: f'{value}'})
''')
R(F, 'serialize_log_to_xes', '''
def serialize_log_to_xes(log: MyEventLog) -> str:
    log_element = ET.Element(const_tag_log, dict(log.attributes))

    for ext_name, ext_content in log.extensions.items():
        ET.SubElement(log_element, const_tag_extension, {const_ext_name: ext_name, **ext_content})

    for name, keys in log.classifiers.items():
        ET.SubElement(log_element, const_tag_classifier,
                      {const_classifier_name: name, const_classifier_keys: ' '.join(keys)})

    log_element.extend(_create_value_tag(key, value) for key, value in log.properties.items())

    for scope_name, defaults in log.global_values.items():
        scope = ET.SubElement(log_element, const_tag_global, {const_scope: scope_name})
        scope.extend([_create_value_tag(name, value) for name, value in defaults.items()])

    def add_values(parent: ET.Element, kind: str, values: dict):
        for key, value in values.items():
            if _should_serialize_payload_key_value(key, value) and not _check_if_default_value(log, kind, key, value):
                parent.append(_create_value_tag(key, value))

    for trace in log:
        trace_element = ET.SubElement(log_element, const_tag_trace)
        add_values(trace_element, const_tag_trace, trace.attributes)
        for event in trace:
            add_values(ET.SubElement(trace_element, const_tag_event), const_tag_event, event.payload)

    return ET.tostring(log_element, encoding="unicode")
''')
C = L + 'log/pm4py_converters.py'
M = L + 'mutations/event_log_mutations.py'
R(M, '_filter_events', '''
def _filter_events(log: MyEventLog, select_func: Callable[[MyEvent], bool]) -> MyEventLog:
    def left():
        for trace in log:
            events = list(filter(select_func, trace))
            if events:
                yield MyTrace(events)

    return MyEventLog(list(left()))
''')
R(M, '_filter_traces', '''
def _filter_traces(log: MyEventLog, select_func: Callable[[MyTrace], bool]) -> MyEventLog:
    return MyEventLog([*filter(select_func, log)])
''')
R(M, 'remove_events_from_log', '''
def remove_events_from_log(log: MyEventLog, events_names: set[str]) -> MyEventLog:
    names = frozenset(events_names)
    return _filter_events(log, lambda evt: not names.intersection([evt[concept_name]]))
''')
R(M, 'preprocess_events', '''
def preprocess_events(log: MyEventLog, event_mutator: Callable[[MyEvent], None]):
    from itertools import chain
    for event in chain.from_iterable(log):
        event_mutator(event)
''')
R(M, 'remove_lifecycle_attribute', '''
def remove_lifecycle_attribute(log: MyEventLog):
    preprocess_events(log, lambda event: event.payload.pop(lifecycle_transition, None))
''')
I = L + 'analysis/event_log_info.py'
R(I, 'DirectlyFollowsGraph', '''
class DirectlyFollowsGraph:
    def __init__(self, pairs: dict[(str, str), int]):
        from collections import defaultdict
        self.pairs: dict[(str, str), int] = pairs
        followers = defaultdict(dict)
        for pair in pairs:
            followers[pair[0]][pair[1]] = pairs[pair]

        self.followed_events: dict[str, dict[str, int]] = dict(followers)
        self.events_with_single_follower: set[str] = set(filter(lambda name: len(followers[name]) == 1, self.followed_events))
''')
R(I, 'create_log_information', '''
def create_log_information(log: MyEventLog,
                           ignored_events: set[str] = None,
                           add_fake_start_end_events: bool = True) -> LogInformation:
    from collections import Counter
    from itertools import chain

    pairs, events_count = Counter(), Counter()
    for trace in log:
        names = [event[concept_name] for event in trace
                 if ignored_events is None or event[concept_name] not in ignored_events]
        events_count.update(names)
        if names and add_fake_start_end_events:
            names = list(chain((fake_start_name,), names, (fake_end_name,)))

        pairs.update((names[i - 1], names[i]) for i in range(1, len(names)))

    return LogInformation(DirectlyFollowsGraph(dict(pairs)), dict(events_count))
''')
R(I, 'calculate_events_in_each_trace', '''
def calculate_events_in_each_trace(log: MyEventLog) -> list[TraceCounts]:
    from collections import Counter
    return [TraceCounts(dict(Counter(event[concept_name] for event in trace)), len(trace)) for trace in log]
''')
R(I, 'find_all_events_names', '''
def find_all_events_names(log: MyEventLog, predicate: Callable[[MyEvent], bool]) -> set[str]:
    from collections import defaultdict
    by_name = defaultdict(list)
    for trace in log:
        for event in trace:
            by_name[event[concept_name]].append(event)

    return {name for name in by_name if all(map(predicate, by_name[name]))}
''')
R(I, 'calculate_events_count', '''
def calculate_events_count(log: MyEventLog) -> int:
    from functools import reduce
    return reduce(lambda count, trace: count + len(trace), log, 0)
''')
S = L + 'analysis/event_log_split.py'
R(S, 'split_log_by_traces', '''
def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
    from collections import OrderedDict
    variants = OrderedDict()
    for trace in log:
        key = tuple(event[concept_name] for event in trace)
        if key not in variants:
            variants[key] = []

        variants[key] += [trace]

    return [*variants.values()]
''')
R(S, 'merge_all_traces_in_one_log', '''
def merge_all_traces_in_one_log(log: MyEventLog) -> MyEventLog:
    def merged():
        for trace in log:
            yield from map(copy.copy, trace)
            yield create_unique_event()

    return MyEventLog([MyTrace(list(merged()))])
''')
N = L + 'analysis/event_log_analysis_entropy.py'
R(N, '_do_calculate_entropy_avg', '''
def _do_calculate_entropy_avg(log: MyEventLog, entropy_func: Callable[[MyEventLog], dict[str, float]]) -> float:
    values = [*entropy_func(log).values()]
    if not values:
        return 0

    total = 0
    for value in values:
        total = total + value
    return total / len(values)
''')
R(N, '_calculate_entropies', '''
def _calculate_entropies(log: MyEventLog,
                         dfr_func: Callable[[str, str, LogInformation], float],
                         dpr_func: Callable[[str, str, LogInformation], float],
                         ignored_events: set[str] = None) -> dict[str, float]:
    from itertools import chain
    log_info = create_log_information(log, ignored_events)
    names = tuple(log_info.events_count)

    def entropy_of(name: str) -> float:
        followers = (dfr_func(name, other, log_info) for other in chain(names, [fake_end_name]))
        predecessors = (dpr_func(name, other, log_info) for other in chain(names, [fake_start_name]))
        return _calculate_entropy(followers) + _calculate_entropy(predecessors)

    return {name: entropy_of(name) for name in names}
''')
R(N, '_calculate_entropy', '''
def _calculate_entropy(vector) -> float:
    from functools import reduce
    return reduce(lambda e, item: e - item * math.log2(item), filter(None, vector), 0.0)
''')
R(N, 'create_events_positions', '''
def create_events_positions(log: MyEventLog):
    from collections import defaultdict
    result = []
    for trace in log:
        positions = defaultdict(list)
        for index in range(len(trace)):
            positions[trace[index][concept_name]].append(index)

        result.append(TraceEventsPositionInfo(dict(positions), len(trace)))

    return PositionEntropyEventsPositions(result)
''')
R(N, 'calculate_position_entropy_fast', '''
def calculate_position_entropy_fast(log: MyEventLog,
                                    event_name: str,
                                    events_to_ignore: PositionEntropyIgnoredEvents = None,
                                    cached_positions: PositionEntropyEventsPositions = None) -> float:
    import bisect
    infos = (create_events_positions(log) if cached_positions is None else cached_positions).traces_positions
    probabilities = np.zeros(_calculate_max_vector_length(log, events_to_ignore))
    traces_count = 0
    for info in infos:
        skipped = []
        for name in (events_to_ignore.ignored_events if events_to_ignore is not None else ()):
            skipped += info.positions.get(name, [])

        if len(skipped) == info.length:
            continue

        traces_count += 1
        skipped = sorted(skipped)
        for position in info.positions.get(event_name, ()):
            probabilities[position - bisect.bisect_left(skipped, position)] += 1

    return _do_calculate_position_entropy(probabilities / traces_count, traces_count)
''')
R(N, 'calculate_position_entropy', '''
def calculate_position_entropy(log: MyEventLog,
                               event_name: str,
                               events_to_ignore: PositionEntropyIgnoredEvents = None) -> float:
    max_vector_length = _calculate_max_vector_length(log, events_to_ignore)
    ignored = events_to_ignore.ignored_events if events_to_ignore is not None else set()
    filtered = [[event[concept_name] for event in trace if event[concept_name] not in ignored] for trace in log]
    filtered = [names for names in filtered if len(names) > 0]
    counts = [0] * max_vector_length
    for names in filtered:
        for index, name in enumerate(names):
            counts[index] += name == event_name

    return _do_calculate_position_entropy(np.array(counts) / len(filtered), len(filtered))
''')
X = L + 'filtering/event_log_filters.py'
R(X, 'next_removal_default_entropy_indirect', '''
def next_removal_default_entropy_indirect(log: MyEventLog,
                                          laplace: bool = True,
                                          top_percent: float = 0.05,
                                          untouchable_event_func=default_untouchable_func) -> (str, float):
    import operator
    entropies = calculate_laplace_or_default_entropies(log, laplace=laplace)
    ranked = sorted(entropies.items(), key=operator.itemgetter(1))
    count = int(len(ranked) * top_percent)
    candidates = [name for name, _ in ranked[len(ranked) - count:] if not untouchable_event_func(name)]
    without = {name: calculate_default_entropy_average(log, laplace, ignored_events={name}) for name in candidates}
    if not without:
        return None, 1e10

    return min(without.items(), key=operator.itemgetter(1))
''')
R(X, '_determine_next_event_to_remove_direct', '''
def _determine_next_event_to_remove_direct(log: MyEventLog,
                                           metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
    return max(metric_func(log).items(), key=lambda item: item[1], default=(None, 0))
''')
R(X, '_remove_untouchable_events_from', '''
def _remove_untouchable_events_from(events_to_metric: dict[str, float],
                                    untouchable_event_func: Callable[[str], bool]) -> dict[str, float]:
    from itertools import filterfalse
    return {name: events_to_metric[name] for name in filterfalse(untouchable_event_func, events_to_metric)}
''')
R(X, '_do_filter_by_metric_direct', '''
def _do_filter_by_metric_direct(log: MyEventLog,
                                threshold: float,
                                metric_func: Callable[[MyEventLog], dict[str, float]],
                                max_events_to_delete: int = 1e9) -> MyEventLog:
    from itertools import count
    for removed in count():
        if not len(log) or removed >= max_events_to_delete:
            break

        event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
        if event_name is None or not metric > threshold:
            break

        print('Removing', event_name, 'with metric', metric)
        log = remove_event_from_log(log, event_name)

    return log
''')
R(X, 'next_event_remove_pos_entropy_indirect', '''
def next_event_remove_pos_entropy_indirect(log: MyEventLog,
                                           trace_counts: list[TraceCounts] = None,
                                           log_info: LogInformation = None,
                                           positions: PositionEntropyEventsPositions = None,
                                           untouchable_event_func=default_untouchable_func) -> (str, float):
    if trace_counts is None:
        trace_counts = calculate_events_in_each_trace(log)

    names = (create_log_information(log) if log_info is None else log_info).events_count
    where = positions if positions is not None else create_events_positions(log)

    best = (None, 1e10)
    for name in names:
        if not untouchable_event_func(name):
            value = calculate_position_entropies_fast_sum(log, PositionEntropyIgnoredEvents({name}, trace_counts), where)
            best = (name, value) if value < best[1] else best

    return best
''')
R(X, 'filter_events_pos_entropy_indirect', '''
def filter_events_pos_entropy_indirect(log: MyEventLog,
                                       threshold: float = 0,
                                       max_events_to_remove: int = int(1e9),
                                       untouchable_event_func=default_untouchable_func) -> MyEventLog:
    left = max_events_to_remove
    while left > 0:
        positions = create_events_positions(log)
        if calculate_position_entropies_fast_sum(log, positions=positions) <= threshold:
            break

        name, entropy = next_event_remove_pos_entropy_indirect(log,
                                                               positions=positions,
                                                               untouchable_event_func=untouchable_event_func)
        if name is None:
            break

        print(f'Removing event {name} with resulting log entropy {entropy}')
        log = remove_event_from_log(log, name)
        left -= 1

    return log
''')
T = L + 'analysis/patterns/event_log_patterns.py'
R(T, '_find_maximal_tandem_arrays', '''
def _find_maximal_tandem_arrays(traces: list[list[int]],
                                max_tandem_array_length=10) -> list[list[TandemArrayInfo]]:
    from collections import OrderedDict

    def arrays_of(trace):
        found = OrderedDict()
        for length in range(2, max_tandem_array_length):
            for start in range(len(trace) - length):
                key = tuple(trace[start:start + length])
                if key not in found:
                    array = _try_extract_tandem_array(trace, start, length)
                    if array is not None:
                        found[key] = array

        return list(found.values())

    return list(map(arrays_of, traces))
''')
R(T, '_try_extract_tandem_array', '''
def _try_extract_tandem_array(trace, start_index, length) -> Optional[TandemArrayInfo]:
    from itertools import count, takewhile
    base = trace[start_index:start_index + length]
    starts = count(start_index + length, length)
    repeats = 1 + sum(1 for _ in takewhile(lambda start: trace[start:start + length] == base, starts)) if len(base) == length else 1
    return TandemArrayInfo(first_pos=start_index, repeat_count=repeats, length=length) if repeats > 1 else None
''')
R(T, 'find_primitive_tandem_arrays', '''
def find_primitive_tandem_arrays(log: MyEventLog,
                                 max_tandem_array_length=10,
                                 event_class_extractor: ClassExtractor = None) -> list[list[TandemArrayInfo]]:
    traces = _create_hashes_traces_with_selector(log, event_class_extractor)

    def is_primitive(trace, array):
        lengths = range(2, (array.length + 1) // 2 + 1)
        return not any(_try_extract_tandem_array(trace, array.first_pos, length) is not None for length in lengths)

    return [[array for array in arrays if is_primitive(trace, array)]
            for trace, arrays in zip(traces, _find_maximal_tandem_arrays(traces, max_tandem_array_length))]
''')
R(T, '_do_find_maximal_repeats', '''
def _do_find_maximal_repeats(hash_traces: list[list[int]]) -> list[list[MaximalRepeatInfo]]:
    def repeats_of(trace):
        for _, path in Tree({'Trace': trace}).maximal_repeats():
            start, end = path.start, path.end
            yield MaximalRepeatInfo(first_pos=start, length=end - start)

    return [list(repeats_of(trace)) for trace in hash_traces]
''')
R(T, '_do_create_repeat_sets', '''
def _do_create_repeat_sets(hashes_traces: list[list[int]],
                           sub_arrays: list[list[SubArrayInEventLog]]) -> list[SubArrayWithTraceIndex]:
    first = dict()
    for trace_index, (arrays, trace) in enumerate(zip(sub_arrays, hashes_traces)):
        for array in arrays:
            classes = frozenset(trace[array.first_pos:array.first_pos + array.length])
            first.setdefault(classes, SubArrayWithTraceIndex(array.first_pos, array.length, trace_index))

    return [*first.values()]
''')
R(T, 'narrow_activity', '''
def narrow_activity(node: ActivityNode, activities_set: set[int]) -> ActivityNode:
    def descendants(parent):
        layer = list(parent.child_nodes)
        while layer:
            layer = [child for child in layer if activities_set <= child.set_of_events]
            yield from layer
            layer = [grand_child for child in layer for grand_child in child.child_nodes]

    return min(descendants(node), key=lambda child: child.length, default=node)
''')
R(T, '_process_trace_activities', '''
def _process_trace_activities(trace: MyTrace,
                              activities: list[ActivityInTraceInfo],
                              undefined_activity_func: Callable[[int, int], None],
                              activity_func: Callable[[ActivityInTraceInfo], None]):
    last = 0

    def gap_till(end):
        nonlocal last
        if last < end:
            undefined_activity_func(last, end)

    for activity in activities:
        gap_till(activity.start_pos)
        activity_func(activity)
        last = activity.start_pos + activity.length

    gap_till(len(trace))
''')
R(T, 'create_unattached_events_log', '''
def create_unattached_events_log(log: MyEventLog,
                                 activities_in_traces: list[list[ActivityInTraceInfo]]) -> MyEventLog:
    result = MyEventLog()
    for instances, trace in zip(activities_in_traces, log):
        covered = set()
        for instance in instances:
            covered.update(range(instance.start_pos, instance.start_pos + instance.length))

        result.append(MyTrace([event for index, event in enumerate(trace) if index not in covered]))

    return result
''')
R(T, 'build_class_tree', '''
def build_class_tree(log: MyEventLog,
                     class_extractors: list[Callable[[str], str]]) -> list[EventClassNode]:
    from collections import defaultdict
    from functools import reduce

    def next_level(nodes, extractor):
        groups = defaultdict(list)
        for node in nodes:
            groups[extractor(node.name)].append(node)

        level = []
        for name, children in groups.items():
            level.append(EventClassNode(name))
            level[-1].child_nodes.extend(children)

        return level

    leaves = [EventClassNode(name) for name in create_log_information(log).events_count]
    return reduce(next_level, class_extractors, leaves)
''')
R(T, '_create_logs_for_activities', '''
def _create_logs_for_activities(log: MyEventLog,
                                activities: list[list[ActivityInTraceInfo]],
                                trace_creator: TraceCreator) -> dict[str, MyEventLog]:
    from collections import defaultdict
    logs = defaultdict(MyEventLog)
    for instances, trace in zip(activities, log):
        for info in instances:
            created = trace_creator(log, trace, info)
            if created is not None:
                logs[info.node.name].append(created)

    return dict(logs)
''')
R(T, 'execute_with_underlying_events', '''
def execute_with_underlying_events(top_level_event: MyEvent, action: Callable[[MyEvent], None]):
    from collections import deque
    q = deque([top_level_event])
    while q:
        event = q.popleft()
        if underlying_events_key not in event:
            action(event)
        else:
            q.extend(event[underlying_events_key])
''')
R(T, 'count_underlying_events', '''
def count_underlying_events(event: MyEvent):
    if underlying_events_key not in event:
        return 1

    return sum(count_underlying_events(underlying_event) for underlying_event in event[underlying_events_key])
''')
R(T, 'create_new_log_from_activities', '''
def create_new_log_from_activities(log: MyEventLog,
                                   activities: list[list[ActivityInTraceInfo]],
                                   use_hashes_as_names: bool = True,
                                   strategy=UndefinedActivityHandlingStrategy.InsertAsSingleEvent) -> MyEventLog:
    def event_for(trace: MyTrace, info: ActivityInTraceInfo) -> MyEvent:
        events = trace[info.start_pos:info.start_pos + info.length]
        nodes = []
        for event in events:
            if underlying_activities_key in event:
                nodes.extend(event[underlying_activities_key])

        return MyEvent({
            concept_name: info.node.unique_name() if use_hashes_as_names else info.node.name,
            underlying_events_key: [copy.copy(event) for event in events],
            underlying_activities_key: [*nodes, info.node]
        })

    def new_trace(trace: MyTrace, trace_activities: list[ActivityInTraceInfo]) -> MyTrace:
        result = MyTrace()

        def on_gap(start: int, end: int):
            if strategy == UndefinedActivityHandlingStrategy.InsertAllEvents:
                result.raw_events += trace[start:end]
            elif strategy == UndefinedActivityHandlingStrategy.InsertAsSingleEvent:
                result.append(MyEvent({concept_name: undefined_activity}))
            elif strategy != UndefinedActivityHandlingStrategy.DontInsert:
                raise ValueError()

        _process_trace_activities(trace, trace_activities, on_gap, lambda info: result.append(event_for(trace, info)))
        return result

    return MyEventLog([new_trace(trace, trace_activities) for trace_activities, trace in zip(activities, log)])
''')
R(T, '_do_extract_activities_from_log', '''
def _do_extract_activities_from_log(hashes_traces: list[list[int]],
                                    activities_nodes: list[ActivityNode],
                                    should_narrow_activity: bool = True,
                                    activity_filter: ActivityInTraceFilter = default_activity_in_trace_filter) -> list[list[ActivityInTraceInfo]]:
    ordered = [node for same_size in _split_activity_nodes_by_size(activities_nodes) for node in same_size]

    def first_with(classes: set[int], min_length: int) -> Optional[ActivityNode]:
        return next((node for node in ordered if node.length >= min_length and classes <= node.set_of_events), None)

    def instances_of(trace: list[int]) -> list[ActivityInTraceInfo]:
        found = []
        index = 0
        while index < len(trace):
            node = first_with({trace[index]}, 0)
            if node is None:
                index += 1
                continue

            start = index
            classes = {trace[index]}
            index += 1
            while index < len(trace):
                if trace[index] not in node.set_of_events:
                    bigger = first_with(classes | {trace[index]}, node.length)
                    if bigger is None:
                        break

                    node = bigger

                classes.add(trace[index])
                index += 1

            if should_narrow_activity:
                node = narrow_activity(node, classes)

            found.append(ActivityInTraceInfo(node=node, start_pos=start, length=index - start))

        return list(filter(activity_filter, found))

    return [instances_of(trace) for trace in hashes_traces]
''')
K = L + 'analysis/patterns/util.py'
R(K, '_split_activity_nodes_by_size', '''
def _split_activity_nodes_by_size(activities_nodes: list[ActivityNode]) -> list[list[ActivityNode]]:
    from itertools import groupby
    ordered = sorted(sorted(activities_nodes, key=lambda node: node.name), key=lambda node: node.length)
    return [list(group) for _, group in groupby(ordered, key=lambda node: node.length)]
''')
R(K, 'split_activities_by_levels_dict', '''
def split_activities_by_levels_dict(activities: list[ActivityNode]) -> dict[int, list[ActivityNode]]:
    from collections import defaultdict
    result = defaultdict(list)
    for activity in activities:
        result[activity.activity_level].append(activity)

    return dict(result)
''')
R(K, 'substitute_original_events', '''
def substitute_original_events(events: MyTrace) -> MyTrace:
    stack = list(events)[::-1]
    trace = MyTrace()
    while stack:
        event = stack.pop()
        if underlying_events_key in event:
            stack.extend(reversed(event[underlying_events_key]))
        else:
            trace.append(event)

    return trace
''')
R(K, 'sub_array_with_event_index_to_event_names', '''
def sub_array_with_event_index_to_event_names(log: MyEventLog,
                                              repeat_set: SubArrayWithTraceIndex,
                                              class_extractor: ClassExtractor = default_class_extractor) -> list[str]:
    end = repeat_set.first_pos + repeat_set.length
    return [*dict.fromkeys(map(class_extractor, log[repeat_set.trace_index][repeat_set.first_pos:end]))]
''')
R(K, 'create_activity_name_from_trace', '''
def create_activity_name_from_trace(trace: MyTrace,
                                    sub_array: SubArrayWithTraceIndex,
                                    class_extractor: ClassExtractor) -> str:
    names = []
    for index in range(sub_array.first_pos, sub_array.first_pos + sub_array.length):
        if (name := class_extractor(trace[index])) not in names:
            names.append(name)

    names.sort()
    return activity_name_sep.join(names)
''')
R(K, '_do_create_hashes', '''
def _do_create_hashes(events: list[MyEvent],
                      class_extractor: ClassExtractor = default_class_extractor):
    return [calculate_string_poly_hash(class_extractor(event)) for event in events]
''')
Q = L + 'pipelines/pipelines.py'
R(Q, 'Pipeline.execute', '''
def execute(self, input: Any):
    from functools import reduce
    random_unique_color_provider_instance.reset()
    return reduce(lambda result, part: part.execute(result), list(self.parts), input)
''')
R(Q, '_create_pipelines_list', '''
def _create_pipelines_list(pipeline_parts) -> list[PipelinePart]:
    parts: list[PipelinePart] = [part for part in pipeline_parts if part is not None]
    if not all(isinstance(part, PipelinePart) for part in parts):
        raise TypeError()

    return parts
''')
R(Q, 'WithInputCopy.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    self.pipeline.execute(copy.copy(current_input))
    return current_input
''')
R(Q, 'WithTempInput.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    return self.output_merger(current_input, self.pipeline(self.initial_input_transformer(current_input)))
''')
PP = L + 'pipelines/analysis/patterns/patterns_parts.py'
R(PP, 'PrintUnattachedEvents.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    unattached_events_log = create_unattached_events_log(log(current_input), traces_activities(current_input))
    print(list({event[concept_name]: None for trace in unattached_events_log for event in trace}))
    return current_input
''')
R(PP, 'PrintActivitiesNamesToHashes.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    from collections import deque
    q = deque(activities(current_input))
    while q:
        activity = q.popleft()
        print(hash(activity), '=', activity.name)
        q.extend(activity.child_nodes)

    return current_input
''')
R(PP, 'SaveAllActivitiesNames.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    separator = '=' * (4 * 49)

    def names_of(node: ActivityNode):
        yield node.name
        for child in reversed(node.child_nodes):
            yield from names_of(child)

    with open(self.save_path, 'w') as fout:
        for level, nodes in split_activities_by_level(activities(current_input)):
            names = dict.fromkeys(name for node in reversed(nodes) for name in names_of(node))
            fout.writelines([f'ACTIVITIES LEVEL {level}\\n\\n', separator, '\\n'])
            fout.writelines(name + '\\n' for name in names)
            fout.write(separator + '\\n\\n')

    return current_input
''')
R(PP, 'SaveAllActivitiesInstancesNames.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    path = self.save_path if isinstance(self.save_path, str) else self.save_path()
    nodes = {}
    for trace in traces_activities(current_input):
        for instance in trace:
            nodes.setdefault(instance.node.unique_name(), instance.node.name)

    with open(path, 'w') as fout:
        for unique_name, name in nodes.items():
            print(f'{unique_name}={name}', file=fout)

    return current_input
''')
R(PP, 'WriteActivitiesInstancesIndices.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    with open(self.save_path, 'w') as fout:
        for trace_index, instances in enumerate(traces_activities(current_input)):
            lines = ['Trace {}'.format(trace_index)]
            lines += ['({}, {}, {})'.format(x.node.unique_name(), x.start_pos, x.length) for x in instances]
            fout.write('\\n'.join(lines) + '\\n\\n')

    return current_input
''')
R(PP, 'CalculatePercentageOfUnattachedEvents.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    total = calculate_events_count(log(current_input))
    if not total:
        print('Log is empty, can not calculate unattached events percentage')
        return current_input

    unattached = calculate_events_count(create_unattached_events_log(log(current_input), traces_activities(current_input)))
    print('Percentage of unattached events: %s' % (unattached / total))
    return current_input
''')
R(PP, 'AddActivityNameToAllEvents.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    for instances, trace in zip(traces_activities(current_input), log(current_input)):
        for instance in instances:
            name = instance.node.unique_name()
            for event in trace[instance.start_pos:instance.start_pos + instance.length]:
                event.payload.update(activity=name)

    return current_input
''')
H = L + 'pipelines/analysis/high_level.py'
R(H, 'DiscoverActivitiesInstancesFromRepeatsUntilNoMore.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    sizes = [calculate_events_count(log(current_input))]
    for step in iter(int, None):
        level = self.initial_activity_level + (len(sizes) - 1 if self.increase_activity_level else 0)
        before = current_input
        discovery = DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats,
                                                           activity_level=level,
                                                           class_extractor=self.class_extractor,
                                                           activity_in_trace_filter=self.activity_in_trace_filter,
                                                           activities_discovery_strategy=self.discovery_strategy,
                                                           should_narrow_activity=self.should_narrow_activity)
        current_input = Pipeline(ClearActivities(), discovery)(current_input)
        if not any(traces_activities(current_input)):
            return before

        if self.before_log_creation_pipeline is not None:
            self.before_log_creation_pipeline(current_input)

        current_input = CreateLogFromActivities(use_hashes_as_names=self.use_hashes_as_event_names)(current_input)
        if self.after_log_creation_pipeline is not None:
            self.after_log_creation_pipeline(current_input)

        sizes.append(calculate_events_count(log(current_input)))
        if sizes[-1] == sizes[-2]:
            return current_input
''')
