from refac import G, L, R

# --- util.py
U = L + 'util.py'
R(U, 'calculate_string_poly_hash', '''
def calculate_string_poly_hash(s: str) -> int:
    powers = [string_p ** i for i in range(len(s))]
    return sum((ord(char) + 1) * power for char, power in zip(s, powers))
''')
R(U, 'calculate_poly_hash_for_collection', '''
def calculate_poly_hash_for_collection(collection: list[Hashable],
                                       start_index: int = 0,
                                       end_index: int = None) -> int:
    size = len(collection)
    if not size:
        return 0

    if end_index is None:
        end_index = size

    result, power = 1, 1
    index = start_index
    while index < end_index:
        item_hash = 1 + hash(collection[index])
        result = (result + item_hash * power) % mod
        power = power * p % mod
        index += 1

    return result
''')
R(U, 'combine_list_of_hashes', '''
def combine_list_of_hashes(hashes: list[int]) -> int:
    import functools
    return functools.reduce(combine_two_hashes, hashes) if hashes else 0
''')
R(U, 'increase_in_int_map', '''
def increase_in_int_map(input_map: dict[Any, int], key: Any):
    if key in input_map:
        input_map[key] += 1
    else:
        input_map[key] = 1
''')
R(U, 'deep_copy_dict', '''
def deep_copy_dict(map: dict[Any, Any]) -> dict[Any, Any]:
    return {copy.deepcopy(key): copy.deepcopy(value) for key, value in map.items()}
''')
R(U, 'to_hex', '''
def to_hex(color: (int, int, int)) -> str:
    red, green, blue = color
    return f'#{red:02X}{green:02X}{blue:02X}'
''')
R(U, 'next_color_for_new_name', '''
def next_color_for_new_name(provider: ColorsProvider, cached_colors: dict[str, str]) -> str:
    taken = set(cached_colors.values())
    while (candidate := provider.next()) in taken:
        pass

    return candidate
''')
R(U, 'RandomUniqueColorsProvider.next', '''
def next(self) -> (int, int, int):
    if len(self.used_colors) >= 256 ** 3:
        raise OverflowError()

    while True:
        color = _generate_random_color()
        if color not in self.used_colors:
            break

    self.used_colors.add(color)
    return color
''')

# --- log
E_ = L + 'log/event_log.py'
R(E_, 'MyEvent.payload_items', '''
def payload_items(self) -> list[(Any, Any)]:
    return [(key, value) for key, value in self.payload.items()]
''')
R(E_, 'MyEvent.__eq__', '''
def __eq__(self, other):
    if not isinstance(other, MyEvent):
        return False

    return self.payload == other.payload
''')
R(E_, 'MyEventLog.__hash__', '''
def __hash__(self):
    current_hash = combine_list_of_hashes([hash(trace) for trace in self.traces])
    for values in (self.attributes, self.extensions, self.classifiers, self.properties):
        current_hash = combine_two_hashes(current_hash, calculate_dict_hash(values))

    return current_hash
''')
R(E_, 'MyEventLog.__eq__', '''
def __eq__(self, other):
    if not isinstance(other, MyEventLog):
        return False

    def content(log):
        return [log.traces, log.attributes, log.extensions, log.classifiers, log.properties]

    return all(mine == theirs for mine, theirs in zip(content(self), content(other)))
''')
R(E_, 'MyTrace.__copy__', '''
def __copy__(self):
    return MyTrace(list(self.raw_events), {**self.attributes})
''')
R(E_, 'MyTrace.__deepcopy__', '''
def __deepcopy__(self, memodict={}):
    events = [copy.deepcopy(event) for event in self.raw_events]
    return MyTrace(events, deep_copy_dict(self.attributes))
''')

F = L + 'log/functions.py'
R(F, 'read_log_from_xes', '''
def read_log_from_xes(path: str) -> MyEventLog:
    if not os.path.exists(path):
        raise FileNotFoundError(path)

    root = ET.parse(path).getroot()
    log = MyEventLog()
    log.attributes.update(root.attrib)

    trace_elements = []
    for child in root:
        _read_log_child(log, child, trace_elements)

    for trace_element in trace_elements:
        log.append(_read_trace(log, trace_element))

    return log


def _read_log_child(log, child, trace_elements):
    tag_name = get_tag_wo_xmlns(child.tag)
    if tag_name == const_tag_trace:
        trace_elements.append(child)
    elif tag_name == const_tag_extension:
        attributes = child.attrib
        log.extensions[attributes[const_ext_name]] = {const_ext_prefix: attributes[const_ext_prefix],
                                                      const_ext_uri: attributes[const_ext_uri]}
    elif tag_name == const_tag_classifier:
        log.classifiers[child.attrib[const_classifier_name]] = child.attrib[const_classifier_keys].split(' ')
    elif _is_value_tag(child):
        log.properties[child.attrib[const_attr_key]] = _parse_value_tag(child)
    elif tag_name == const_tag_global:
        values = log.global_values.setdefault(child.attrib['scope'], {})
        values.update(_read_values(child))


def _read_values(element):
    return {child.attrib[const_attr_key]: _parse_value_tag(child) for child in element if _is_value_tag(child)}


def _read_trace(log, element):
    properties = dict(log.global_values.get(const_tag_trace, {}))
    properties.update(_read_values(element))
    event_defaults = log.global_values.get(const_tag_event, {})
    events = [MyEvent({**event_defaults, **_read_values(child)}) for child in element
              if get_tag_wo_xmlns(child.tag) == const_tag_event]
    return MyTrace(events, properties)
''')
R(F, 'get_tag_wo_xmlns', '''
def get_tag_wo_xmlns(tag: str):
    position = tag.find('}')
    return tag[position + 1:] if position != -1 else tag
''')
R(F, '_parse_bool', '''
def _parse_bool(value: str) -> bool:
    normalized = value.strip().lower()
    return normalized == 'true' or normalized == '1'
''')
R(F, '_create_value_tag', '''
def _create_value_tag(name: str, value: Union[str, datetime, int, float, bool]) -> ET.Element:
    return ET.Element(types_to_names[type(value)], {const_attr_key: name, const_attr_value: f'{value}'})
''')
R(F, 'parse_trace_from_string', '''
def parse_trace_from_string(string: str, separator: str = default_separator):
    return MyTrace([MyEvent({concept_name: name}) for name in string.split(separator)])
''')
R(F, 'serialize_log', '''
def serialize_log(log: MyEventLog,
                  traces_separator: str = default_trace_separator,
                  events_separator: str = default_events_separator) -> str:
    lines = [events_separator.join(event[concept_name] for event in trace) for trace in log]
    return traces_separator.join(lines)
''')
R(F, 'serialize_logs', '''
def serialize_logs(logs: list[MyEventLog],
                   logs_separator: str = default_logs_separator,
                   traces_separator: str = default_trace_separator,
                   events_separator: str = default_events_separator):
    return logs_separator.join([serialize_log(log, traces_separator, events_separator) for log in logs])
''')
R(F, 'serialize_log_to_xes', '''
def serialize_log_to_xes(log: MyEventLog) -> str:
    root = ET.Element(const_tag_log, dict(log.attributes))

    for name, content in log.extensions.items():
        ET.SubElement(root, const_tag_extension, {const_ext_name: name, **content})

    for name, keys in log.classifiers.items():
        ET.SubElement(root, const_tag_classifier, {const_classifier_name: name, const_classifier_keys: ' '.join(keys)})

    root.extend(_create_value_tag(key, value) for key, value in log.properties.items())

    for scope, defaults in log.global_values.items():
        element = ET.SubElement(root, const_tag_global, {const_scope: scope})
        element.extend([_create_value_tag(key, value) for key, value in defaults.items()])

    def append_values(element, kind, values):
        for key, value in values.items():
            if _should_serialize_payload_key_value(key, value) and not _check_if_default_value(log, kind, key, value):
                element.append(_create_value_tag(key, value))

    for trace in log:
        trace_element = ET.SubElement(root, const_tag_trace)
        append_values(trace_element, const_tag_trace, trace.attributes)
        for event in trace:
            append_values(ET.SubElement(trace_element, const_tag_event), const_tag_event, event.payload)

    return ET.tostring(root, encoding="unicode")
''')
R(F, '_check_if_default_value', '''
def _check_if_default_value(log: MyEventLog,
                            entity_name: str,
                            key: str,
                            value: Union[str, int, float, datetime, bool]) -> bool:
    try:
        default_value = log.global_values[entity_name][key]
    except KeyError:
        return False

    return type(default_value) == type(value) and value == default_value
''')
R(F, 'save_event_log_to_xes', '''
def save_event_log_to_xes(log: MyEventLog, save_path: str):
    text = serialize_log_to_xes(log)
    directory, _ = os.path.split(save_path)
    if directory:
        os.makedirs(directory, exist_ok=True)

    with open(save_path, mode='wt', encoding='utf-8') as fout:
        print(text, end='', file=fout)
''')
R(F, 'serialize_log_to_xes_beautiful', '''
def serialize_log_to_xes_beautiful(log: MyEventLog) -> str:
    text = serialize_log_to_xes(log)
    return '>\\n'.join(text.split('>'))
''')

C = L + 'log/pm4py_converters.py'
R(C, 'from_pm4py_log', '''
def from_pm4py_log(log: EventLog) -> MyEventLog:
    my_log = MyEventLog(attributes=copy.deepcopy(log.attributes),
                        properties=copy.deepcopy(log.properties),
                        classifiers=copy.deepcopy(log.classifiers),
                        extensions=copy.deepcopy(log.extensions),
                        global_values=copy.deepcopy(log.omni_present))

    my_log.traces.extend(MyTrace([pm4py_event_to_my_event(event) for event in trace], copy.deepcopy(trace.attributes))
                         for trace in log)
    return my_log
''')
R(C, 'my_event_to_pm4py_event', '''
def my_event_to_pm4py_event(my_event: MyEvent):
    payload = copy.deepcopy(my_event.payload)
    event = Event()
    for key in payload:
        event[key] = payload[key]

    return event
''')

# --- mutations
M = L + 'mutations/event_log_mutations.py'
R(M, '_filter_events', '''
def _filter_events(log: MyEventLog, select_func: Callable[[MyEvent], bool]) -> MyEventLog:
    traces = [MyTrace([event for event in trace if select_func(event)]) for trace in log]
    return MyEventLog([trace for trace in traces if len(trace) > 0])
''')
R(M, '_filter_traces', '''
def _filter_traces(log: MyEventLog, select_func: Callable[[MyTrace], bool]) -> MyEventLog:
    return MyEventLog(traces=list(filter(select_func, log)))
''')
R(M, 'preprocess_event_names_inplace', '''
def preprocess_event_names_inplace(log: MyEventLog, name_mutator: Callable[[str], str]):
    def rename(event: MyEvent):
        event[concept_name] = name_mutator(event[concept_name])

    preprocess_events(log, rename)
''')
R(M, 'remove_lifecycle_attribute', '''
def remove_lifecycle_attribute(log: MyEventLog):
    preprocess_events(log, lambda event: event.payload.pop(lifecycle_transition, None))
''')
P = L + 'pipelines/mutations/mutations_parts.py'
R(P, 'ApplyClassExtractor.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    for event in (event for trace in log(current_input) for event in trace if self.event_selector(event)):
        event[concept_name] = self.class_extractor(event)

    return current_input
''')
R(P, 'AddArtificialStartEndEvents.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    def create_event(name):
        return MyEvent({concept_name: name})

    for trace in log(current_input):
        trace.insert(create_event("ARTIFICIAL_START"), 0)
        trace.append(create_event("ARTIFICIAL_END"))

    return current_input
''')
R(P, 'SubstituteUnderlyingEvents.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    traces = list(map(substitute_original_events, log(current_input)))
    return current_input.with_log(MyEventLog(traces))
''')

# --- info, split
I = L + 'analysis/event_log_info.py'
R(I, 'DirectlyFollowsGraph', '''
class DirectlyFollowsGraph:
    def __init__(self, pairs: dict[(str, str), int]):
        self.pairs: dict[(str, str), int] = pairs
        self.followed_events: dict[str, dict[str, int]] = dict()
        for (first, second), count in pairs.items():
            self.followed_events.setdefault(first, dict())[second] = count

        self.events_with_single_follower: set[str] = {first for first, followers in self.followed_events.items()
                                                      if len(followers) == 1}
''')
R(I, 'create_log_information', '''
def create_log_information(log: MyEventLog,
                           ignored_events: set[str] = None,
                           add_fake_start_end_events: bool = True) -> LogInformation:
    pairs = dict()
    events_count = dict()
    ignored = ignored_events or ()

    for trace in log:
        names = [event[concept_name] for event in trace]
        names = [name for name in names if name not in ignored]
        if not names:
            continue

        for name in names:
            events_count[name] = events_count.get(name, 0) + 1

        if add_fake_start_end_events:
            names = [fake_start_name, *names, fake_end_name]

        for pair in zip(names, names[1:]):
            pairs[pair] = pairs.get(pair, 0) + 1

    return LogInformation(dfg=DirectlyFollowsGraph(pairs), events_count=events_count)
''')
R(I, 'calculate_events_in_each_trace', '''
def calculate_events_in_each_trace(log: MyEventLog) -> list[TraceCounts]:
    def count(trace):
        counts = {}
        for name in [event[concept_name] for event in trace]:
            counts.setdefault(name, 0)
            counts[name] += 1

        return TraceCounts(counts=counts, overall_count=len(trace))

    return [count(trace) for trace in log]
''')
R(I, 'find_all_events_names', '''
def find_all_events_names(log: MyEventLog, predicate: Callable[[MyEvent], bool]) -> set[str]:
    holds = dict()
    for trace in log:
        for event in trace:
            name = event[concept_name]
            holds[name] = holds.get(name, True) and bool(predicate(event))

    return {name for name, value in holds.items() if value}
''')
R(I, 'calculate_events_count', '''
def calculate_events_count(log: MyEventLog) -> int:
    count = 0
    for trace in log:
        count += len(trace)

    return count
''')
S = L + 'analysis/event_log_split.py'
R(S, 'split_log_by_traces', '''
def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
    groups = dict()
    for trace in log:
        names = tuple(event[concept_name] for event in trace)
        groups.setdefault(len(names), dict()).setdefault(names, []).append(trace)

    result = []
    for same_length in groups.values():
        result.extend(_order_groups(list(same_length.items()), 0))

    return result


def _order_groups(groups, index):
    if len(groups) <= 1 or index >= len(groups[0][0]):
        return [group for _, group in groups]

    by_name = dict()
    for names, group in groups:
        by_name.setdefault(names[index], []).append((names, group))

    return [group for part in by_name.values() for group in _order_groups(part, index + 1)]
''')
R(S, 'merge_all_traces_in_one_log', '''
def merge_all_traces_in_one_log(log: MyEventLog) -> MyEventLog:
    events = []
    for trace in log:
        events.extend(copy.copy(event) for event in trace)
        events.append(create_unique_event())

    return MyEventLog([MyTrace(events)])
''')
R(S, 'create_unique_event', '''
def create_unique_event() -> MyEvent:
    return MyEvent({concept_name: f'{uuid.uuid4()}'})
''')

# --- entropies
N = L + 'analysis/event_log_analysis_entropy.py'
R(N, 'calculate_laplace_entropies', '''
def calculate_laplace_entropies(log: MyEventLog,
                                ignored_events: set[str] = None) -> dict[str, float]:
    def smoothed(pair, first, context: LogInformation) -> float:
        event_count = context.events_count[first]
        alpha = 1 / event_count
        pair_count = context.dfg.pairs[pair] if pair in context.dfg.pairs else 0
        return (alpha + pair_count) / (alpha * (len(context.events_count) + 1) + event_count)

    return _calculate_entropies(log,
                                lambda first, second, context: smoothed((first, second), first, context),
                                lambda first, second, context: smoothed((second, first), first, context),
                                ignored_events)
''')
R(N, '_calculate_entropy', '''
def _calculate_entropy(vector: list[float]) -> float:
    return -sum(item * math.log(item, 2) for item in vector if item > 0)
''')
R(N, '_do_calculate_entropy_avg', '''
def _do_calculate_entropy_avg(log: MyEventLog, entropy_func: Callable[[MyEventLog], dict[str, float]]) -> float:
    values = list(entropy_func(log).values())
    return sum(values) / len(values) if values else 0
''')
R(N, 'PositionEntropyIgnoredEvents.calculate_max_vector_length', '''
def calculate_max_vector_length(self) -> int:
    lengths = [counts.overall_count - sum(counts.counts.get(name, 0) for name in self.ignored_events)
               for counts in self.traces_counts]
    return max(lengths, default=0)
''')
R(N, 'create_events_positions', '''
def create_events_positions(log: MyEventLog):
    result = PositionEntropyEventsPositions([])
    for trace in log:
        positions = {}
        for index in range(len(trace)):
            positions.setdefault(trace[index][concept_name], []).append(index)

        result.traces_positions.append(TraceEventsPositionInfo(positions=positions, length=len(trace)))

    return result
''')
R(N, 'calculate_position_entropy_fast', '''
def calculate_position_entropy_fast(log: MyEventLog,
                                    event_name: str,
                                    events_to_ignore: PositionEntropyIgnoredEvents = None,
                                    cached_positions: PositionEntropyEventsPositions = None) -> float:
    positions = create_events_positions(log) if cached_positions is None else cached_positions
    ignored_names = [] if events_to_ignore is None else list(events_to_ignore.ignored_events)
    counts = [0 for _ in range(_calculate_max_vector_length(log, events_to_ignore))]
    traces_count = 0

    for trace_positions in positions.traces_positions:
        ignored = [index for name in ignored_names for index in trace_positions.positions.get(name, [])]
        if len(ignored) == trace_positions.length:
            continue

        traces_count += 1
        for position in trace_positions.positions.get(event_name, []):
            before = sum(1 for index in ignored if index < position)
            counts[position - before] += 1

    return _do_calculate_position_entropy(np.array(counts) / traces_count, traces_count)
''')
R(N, '_do_calculate_position_entropy', '''
def _do_calculate_position_entropy(probabilities: np.array, traces_count: int) -> float:
    non_zero = probabilities[probabilities > 0]
    return -np.sum(np.log(non_zero) / np.log(traces_count)) / len(non_zero)
''')
R(N, '_calculate_max_vector_length', '''
def _calculate_max_vector_length(log: MyEventLog, events_to_ignore: PositionEntropyIgnoredEvents = None) -> int:
    if events_to_ignore is None:
        return max(len(trace) for trace in log)

    return events_to_ignore.calculate_max_vector_length()
''')
R(N, 'calculate_position_entropy', '''
def calculate_position_entropy(log: MyEventLog,
                               event_name: str,
                               events_to_ignore: PositionEntropyIgnoredEvents = None) -> float:
    ignored = set() if events_to_ignore is None else events_to_ignore.ignored_events
    counts = np.zeros(_calculate_max_vector_length(log, events_to_ignore))
    non_empty_traces_count = 0
    for trace in log:
        names = [event[concept_name] for event in trace if event[concept_name] not in ignored]
        if len(names) > 0:
            non_empty_traces_count += 1

        for index, name in enumerate(names):
            if name == event_name:
                counts[index] += 1

    return _do_calculate_position_entropy(counts / non_empty_traces_count, non_empty_traces_count)
''')
R(N, 'calculate_position_entropies', '''
def calculate_position_entropies(log: MyEventLog,
                                 events_to_ignore: PositionEntropyIgnoredEvents = None) -> dict[str, float]:
    ignored_events = None if events_to_ignore is None else events_to_ignore.ignored_events
    names = create_log_information(log, ignored_events).events_count
    return {name: calculate_position_entropy(log, name, events_to_ignore) for name in names}
''')

# --- filters
X = L + 'filtering/event_log_filters.py'
R(X, 'next_removal_default_entropy_indirect', '''
def next_removal_default_entropy_indirect(log: MyEventLog,
                                          laplace: bool = True,
                                          top_percent: float = 0.05,
                                          untouchable_event_func=default_untouchable_func) -> (str, float):
    entropies = calculate_laplace_or_default_entropies(log, laplace=laplace)
    ordered = sorted(entropies, key=entropies.get)
    top = ordered[len(ordered) - int(len(ordered) * top_percent):]
    result = (None, 1e10)
    for name in [name for name in top if not untouchable_event_func(name)]:
        entropy = calculate_default_entropy_average(log, laplace, ignored_events={name})
        if entropy < result[1]:
            result = (name, entropy)

    return result
''')
R(X, 'filter_events_default_entropy_indirect', '''
def filter_events_default_entropy_indirect(log: MyEventLog,
                                           laplace: bool = True,
                                           threshold: float = 5,
                                           top_percent: float = 0.05,
                                           max_events_to_remove: int = int(1e9),
                                           untouchable_event_func=default_untouchable_func) -> MyEventLog:
    removed = 0
    while len(log) > 0 and removed < max_events_to_remove and calculate_default_entropy_average(log, laplace) > threshold:
        name, entropy = next_removal_default_entropy_indirect(log, laplace, top_percent, untouchable_event_func)
        if name is None:
            break

        print(f'Removing {name} with entropy {entropy}')
        log = remove_event_from_log(log, name)
        removed += 1

    return log
''')
R(X, '_determine_next_event_to_remove_direct', '''
def _determine_next_event_to_remove_direct(log: MyEventLog,
                                           metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
    best_name, best_metric = None, 0
    for name, metric in metric_func(log).items():
        if best_name is None or metric > best_metric:
            best_name, best_metric = name, metric

    return best_name, best_metric
''')
R(X, '_do_filter_by_metric_direct', '''
def _do_filter_by_metric_direct(log: MyEventLog,
                                threshold: float,
                                metric_func: Callable[[MyEventLog], dict[str, float]],
                                max_events_to_delete: int = 1e9) -> MyEventLog:
    left = max_events_to_delete
    while left > 0 and len(log) != 0:
        event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
        if event_name is None or not metric > threshold:
            break

        print(f'Removing {event_name} with metric {metric}')
        log = remove_event_from_log(log, event_name)
        left -= 1

    return log
''')
R(X, '_remove_untouchable_events_from', '''
def _remove_untouchable_events_from(events_to_metric: dict[str, float],
                                    untouchable_event_func: Callable[[str], bool]) -> dict[str, float]:
    return {name: metric for name, metric in events_to_metric.items() if not untouchable_event_func(name)}
''')
R(X, 'next_event_remove_pos_entropy_indirect', '''
def next_event_remove_pos_entropy_indirect(log: MyEventLog,
                                           trace_counts: list[TraceCounts] = None,
                                           log_info: LogInformation = None,
                                           positions: PositionEntropyEventsPositions = None,
                                           untouchable_event_func=default_untouchable_func) -> (str, float):
    if trace_counts is None:
        trace_counts = calculate_events_in_each_trace(log)

    if log_info is None:
        log_info = create_log_information(log)

    if positions is None:
        positions = create_events_positions(log)

    def entropy_without(name):
        return calculate_position_entropies_fast_sum(log, PositionEntropyIgnoredEvents({name}, trace_counts), positions)

    min_event_name, min_entropy = None, 1e10
    for event_name in list(log_info.events_count):
        if not untouchable_event_func(event_name) and (entropy := entropy_without(event_name)) < min_entropy:
            min_event_name, min_entropy = event_name, entropy

    return min_event_name, min_entropy
''')
R(X, 'filter_events_pos_entropy_indirect_till_end', '''
def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
                                                metric_kind: TillEndFilteringMetricKind,
                                                untouchable_event_func=default_untouchable_func) -> list[(str, float)]:
    removals = []
    while len(log) > 0:
        positions = create_events_positions(log)
        before = calculate_position_entropies_fast_sum(log, positions=positions)
        name, after = next_event_remove_pos_entropy_indirect(log, positions=positions,
                                                             untouchable_event_func=untouchable_event_func)
        if name is None:
            break

        match metric_kind:
            case TillEndFilteringMetricKind.BeforeOnly:
                removals.append((name, before))
            case TillEndFilteringMetricKind.AfterBeforeDelta:
                removals.append((name, before - after))
            case _:
                raise ValueError()

        log = remove_event_from_log(log, name)

    return removals
''')

# --- patterns
T = L + 'analysis/patterns/event_log_patterns.py'
R(T, '_find_maximal_tandem_arrays', '''
def _find_maximal_tandem_arrays(traces: list[list[int]],
                                max_tandem_array_length=10) -> list[list[TandemArrayInfo]]:
    return [_find_trace_tandem_arrays(trace, max_tandem_array_length) for trace in traces]


def _find_trace_tandem_arrays(trace, max_length):
    found = {}
    for length in range(2, max_length):
        for start in range(len(trace) - length):
            base = tuple(trace[start:start + length])
            if base not in found:
                array = _try_extract_tandem_array(trace, start, length)
                if array is not None:
                    found[base] = array

    return list(found.values())
''')
R(T, '_try_extract_tandem_array', '''
def _try_extract_tandem_array(trace, start_index, length) -> Optional[TandemArrayInfo]:
    base = trace[start_index:start_index + length]
    repeats = 1
    next_start = start_index + length
    while next_start + length <= len(trace) and trace[next_start:next_start + length] == base:
        repeats += 1
        next_start += length

    return TandemArrayInfo(start_index, length, repeats) if repeats > 1 else None
''')
R(T, 'find_primitive_tandem_arrays', '''
def find_primitive_tandem_arrays(log: MyEventLog,
                                 max_tandem_array_length=10,
                                 event_class_extractor: ClassExtractor = None) -> list[list[TandemArrayInfo]]:
    traces = _create_hashes_traces_with_selector(log, event_class_extractor)

    def is_primitive(trace, array):
        lengths = range(2, (array.length + 1) // 2 + 1)
        return not any(_try_extract_tandem_array(trace, array.first_pos, length) for length in lengths)

    return [[array for array in arrays if is_primitive(trace, array)]
            for trace, arrays in zip(traces, _find_maximal_tandem_arrays(traces, max_tandem_array_length))]
''')
R(T, '_do_find_super_maximal_repeats', '''
def _do_find_super_maximal_repeats(traces: list[list[int]]) -> list[list[MaximalRepeatInfo]]:
    result = []
    for trace, repeats in zip(traces, _do_find_maximal_repeats(traces)):
        bodies = [trace[repeat.first_pos:repeat.first_pos + repeat.length] for repeat in repeats]
        tree = Tree(dict(enumerate(bodies)))
        result.append([repeat for repeat, body in zip(repeats, bodies) if len(tree.find_all(body)) == 1])

    return result
''')
R(T, '_do_create_repeat_sets', '''
def _do_create_repeat_sets(hashes_traces: list[list[int]],
                           sub_arrays: list[list[SubArrayInEventLog]]) -> list[SubArrayWithTraceIndex]:
    repeat_sets = {}
    for index, (trace, trace_sub_arrays) in enumerate(zip(hashes_traces, sub_arrays)):
        for sub_array in trace_sub_arrays:
            classes = frozenset(trace[sub_array.first_pos:sub_array.first_pos + sub_array.length])
            repeat_sets.setdefault(classes, SubArrayWithTraceIndex(sub_array.first_pos, sub_array.length, index))

    return [*repeat_sets.values()]
''')
R(T, '_do_build_repeat_set_tree', '''
def _do_build_repeat_set_tree(hashes_traces: list[list[int]],
                              repeat_sets: list[SubArrayWithTraceIndex],
                              activity_names_creator: Callable[[SubArrayWithTraceIndex], str],
                              class_extractor: ClassExtractor,
                              activity_level: int) -> list[ActivityNode]:
    def create_activity_node(r_set: SubArrayWithTraceIndex):
        last = r_set.first_pos + r_set.length
        return ActivityNode(activity_names_creator(r_set), r_set,
                            set(hashes_traces[r_set.trace_index][r_set.first_pos:last]),
                            class_extractor, activity_level)

    nodes = sorted(map(create_activity_node, repeat_sets), key=lambda node: -node.length)
    if not nodes:
        return []

    top = [node for node in nodes if node.length == nodes[0].length]
    roots = list(top)
    levels = []
    for node in nodes[len(top):]:
        if not levels or levels[-1][0].length != node.length:
            levels.append([])

        candidates = [other for level in reversed(levels) for other in level] + roots
        parent = next((other for other in candidates if other.contains_other(node) and other != node), None)
        if parent is None:
            roots.append(node)
        else:
            parent.child_nodes.append(node)

        levels[-1].append(node)

    return roots
''')
R(T, '_do_find_near_super_maximal_repeats', '''
def _do_find_near_super_maximal_repeats(hashes_traces: list[list[int]]):
    result = []
    for trace, repeats in zip(hashes_traces, _do_find_maximal_repeats(hashes_traces)):
        tree = Tree({'Tree': trace})
        intervals = []
        for index, repeat in enumerate(repeats):
            body = trace[repeat.first_pos:repeat.first_pos + repeat.length]
            for _, place in tree.find_all(body):
                intervals.append((place.start, place.start + repeat.length, index))

        chosen = set()
        for begin, end, index in intervals:
            covered = any(other_begin <= begin and end <= other_end and (other_begin, other_end) != (begin, end)
                          for other_begin, other_end, _ in intervals)
            if not covered:
                chosen.add(index)

        result.append([repeats[index] for index in chosen])

    return result
''')
R(T, 'narrow_activity', '''
def narrow_activity(node: ActivityNode, activities_set: set[int]) -> ActivityNode:
    suitable = []
    layer = list(node.child_nodes)
    while layer:
        kept = [child for child in layer if activities_set <= child.set_of_events]
        suitable.extend(kept)
        layer = [grandchild for child in kept for grandchild in child.child_nodes]

    return min(suitable, key=lambda child: child.length) if suitable else node
''')
R(T, '_process_trace_activities', '''
def _process_trace_activities(trace: MyTrace,
                              activities: list[ActivityInTraceInfo],
                              undefined_activity_func: Callable[[int, int], None],
                              activity_func: Callable[[ActivityInTraceInfo], None]):
    covered = 0
    for activity in activities:
        start = activity.start_pos
        if start > covered:
            undefined_activity_func(covered, start)

        activity_func(activity)
        covered = start + activity.length

    size = len(trace)
    if size > covered:
        undefined_activity_func(covered, size)
''')
R(T, 'create_new_log_from_activities', '''
def create_new_log_from_activities(log: MyEventLog,
                                   activities: list[list[ActivityInTraceInfo]],
                                   use_hashes_as_names: bool = True,
                                   strategy=UndefinedActivityHandlingStrategy.InsertAsSingleEvent) -> MyEventLog:
    def create_event(activity, events):
        node = activity.node
        underlying_activities = []
        for event in events:
            if underlying_activities_key in event:
                underlying_activities += event[underlying_activities_key]

        return MyEvent({concept_name: node.unique_name() if use_hashes_as_names else node.name,
                        underlying_events_key: [copy.copy(event) for event in events],
                        underlying_activities_key: underlying_activities + [node]})

    def create_trace(trace, trace_activities):
        new_trace = MyTrace()

        def on_gap(start, end):
            if strategy == UndefinedActivityHandlingStrategy.InsertAsSingleEvent:
                new_trace.append(MyEvent({concept_name: undefined_activity}))
            elif strategy == UndefinedActivityHandlingStrategy.InsertAllEvents:
                new_trace.raw_events.extend(trace[start:end])
            elif strategy != UndefinedActivityHandlingStrategy.DontInsert:
                raise ValueError()

        def on_activity(activity):
            new_trace.append(create_event(activity, trace[activity.start_pos:activity.start_pos + activity.length]))

        _process_trace_activities(trace, trace_activities, on_gap, on_activity)
        return new_trace

    return MyEventLog([create_trace(trace, trace_activities) for trace_activities, trace in zip(activities, log)])
''')
R(T, 'create_unattached_events_log', '''
def create_unattached_events_log(log: MyEventLog,
                                 activities_in_traces: list[list[ActivityInTraceInfo]]) -> MyEventLog:
    traces = []
    for trace_activities, trace in zip(activities_in_traces, log):
        events = []
        _process_trace_activities(trace, trace_activities, lambda start, end: events.extend(trace[start:end]), lambda _: None)
        traces.append(MyTrace(events))

    return MyEventLog(traces)
''')
R(T, 'add_unattached_activities', '''
def add_unattached_activities(log: MyEventLog,
                              unattached_activities: list[ActivityNode],
                              existing_activities: list[list[ActivityInTraceInfo]],
                              class_extractor: ClassExtractor,
                              activities_in_trace_filter: ActivityInTraceFilter = default_activity_in_trace_filter,
                              min_number_of_events: int = 1,
                              should_narrow_activity: bool = True) -> list[list[ActivityInTraceInfo]]:
    result = []
    for trace, trace_activities in zip(log, existing_activities):
        gaps = []
        _process_trace_activities(trace, trace_activities, lambda start, end: gaps.append((start, end)), lambda _: None)
        found = []
        for start, end in gaps:
            if end - start < min_number_of_events:
                continue

            hashes = _do_create_hashes(trace[start:end], class_extractor)
            for info in _do_extract_activities_from_log([hashes], unattached_activities, should_narrow_activity,
                                                        activities_in_trace_filter)[0]:
                found.append(ActivityInTraceInfo(node=info.node, start_pos=start + info.start_pos, length=info.length))

        result.append(sorted(found + trace_activities, key=lambda info: info.start_pos))

    return result
''')
R(T, 'build_class_tree', '''
def build_class_tree(log: MyEventLog,
                     class_extractors: list[Callable[[str], str]]) -> list[EventClassNode]:
    nodes = [EventClassNode(name) for name in set(create_log_information(log).events_count)]
    for extractor in class_extractors:
        parents = {}
        for node in nodes:
            name = extractor(node.name)
            if name not in parents:
                parents[name] = EventClassNode(name)

            parents[name].child_nodes.append(node)

        nodes = list(parents.values())

    return nodes
''')
R(T, '_create_trace_for_activity', '''
def _create_trace_for_activity(original_trace: MyTrace,
                               info: ActivityInTraceInfo,
                               class_extractor: ClassExtractor) -> MyTrace:
    copies = [copy.copy(event) for event in original_trace[info.start_pos:info.start_pos + info.length]]
    for event in copies:
        event[concept_name] = class_extractor(event)

    return MyTrace(copies)
''')
R(T, '_create_logs_for_activities', '''
def _create_logs_for_activities(log: MyEventLog,
                                activities: list[list[ActivityInTraceInfo]],
                                trace_creator: TraceCreator) -> dict[str, MyEventLog]:
    logs = {}
    for trace_activities, trace in zip(activities, log):
        for info in trace_activities:
            new_trace = trace_creator(log, trace, info)
            if new_trace is not None:
                logs.setdefault(info.node.name, MyEventLog()).append(new_trace)

    return logs
''')
R(T, 'count_underlying_events', '''
def count_underlying_events(event: MyEvent):
    if underlying_events_key not in event:
        return 1

    return sum(count_underlying_events(child) for child in event[underlying_events_key])
''')
R(T, 'calculate_underlying_events_count', '''
def calculate_underlying_events_count(log: MyEventLog):
    return sum(sum(map(count_underlying_events, trace)) for trace in log)
''')
R(T, 'execute_with_underlying_events', '''
def execute_with_underlying_events(top_level_event: MyEvent, action: Callable[[MyEvent], None]):
    from collections import deque
    queue = deque([top_level_event])
    while queue:
        event = queue.popleft()
        if underlying_events_key in event:
            queue.extend(event[underlying_events_key])
            continue

        action(event)
''')
K = L + 'analysis/patterns/util.py'
R(K, '_do_create_hashes_traces', '''
def _do_create_hashes_traces(log: MyEventLog,
                             event_class_extractor: ClassExtractor = None):
    extractor = default_class_extractor if event_class_extractor is None else event_class_extractor
    return [_do_create_hashes(trace, extractor) for trace in log]
''')
R(K, 'create_activity_name_from_trace', '''
def create_activity_name_from_trace(trace: MyTrace,
                                    sub_array: SubArrayWithTraceIndex,
                                    class_extractor: ClassExtractor) -> str:
    events = trace[sub_array.first_pos:sub_array.first_pos + sub_array.length]
    return activity_name_sep.join(sorted({class_extractor(event) for event in events}))
''')
R(K, '_split_activity_nodes_by_size', '''
def _split_activity_nodes_by_size(activities_nodes: list[ActivityNode]) -> list[list[ActivityNode]]:
    by_size = {}
    for node in activities_nodes:
        by_size.setdefault(node.length, []).append(node)

    return [sorted(by_size[size], key=lambda node: node.name) for size in sorted(by_size)]
''')
R(K, 'substitute_original_events', '''
def substitute_original_events(events: MyTrace) -> MyTrace:
    def expand(event):
        if underlying_events_key not in event:
            return [event]

        return [leaf for child in event[underlying_events_key] for leaf in expand(child)]

    return MyTrace([leaf for event in events for leaf in expand(event)])
''')
R(K, 'split_activities_by_levels_dict', '''
def split_activities_by_levels_dict(activities: list[ActivityNode]) -> dict[int, list[ActivityNode]]:
    levels = dict()
    for activity in activities:
        levels.setdefault(activity.activity_level, []).append(activity)

    return levels
''')
R(K, 'convert_log_sub_arrays_to_event_names', '''
def convert_log_sub_arrays_to_event_names(log: MyEventLog,
                                          trace_repeats: list[list[SubArrayInEventLog]]) -> list[list[list[str]]]:
    return [[[event[concept_name] for event in trace[repeat.first_pos:repeat.first_pos + repeat.length]]
             for repeat in repeats] for repeats, trace in zip(trace_repeats, log)]
''')

# --- drawing
D = L + 'analysis/event_log_analysis.py'
R(D, '_create_array_for_hist', '''
def _create_array_for_hist(log: MyEventLog) -> (List[int], int):
    unique_traces = split_log_by_traces(log)
    hist = [number for number, traces in enumerate(unique_traces, start=1) for _ in traces]
    return hist, len(unique_traces) + 1
''')
R(D, 'get_values_to_visualize', '''
def get_values_to_visualize(df: pd.DataFrame, label_column: Optional[str]):
    return df.values if label_column is None else df[[c for c in df.columns if c != label_column]].values
''')
R(D, 'draw_placements_of_concrete_events', '''
def draw_placements_of_concrete_events(log: MyEventLog,
                                       cached_colors: dict[str, str],
                                       events: set[str],
                                       title: str = None,
                                       save_path: str = None,
                                       height_scale: int = 1,
                                       plot_legend: bool = True):
    draw_placements_of_events(log, cached_colors, lambda name: name in events, title=title, save_path=save_path,
                              height_scale=height_scale, plot_legend=plot_legend)
''')
R(D, 'draw_events_entropy_histogram', '''
def draw_events_entropy_histogram(log: MyEventLog,
                                  title: str = None,
                                  save_path: str = None):
    entropies = calculate_default_entropies(log)
    current_figure, ax = plt.subplots(1, 1, figsize=(20, 20))
    bars = []
    for index, (name, entropy) in enumerate(entropies.items()):
        color = random_unique_color_provider_instance.next()
        bars.append((name, plt.Rectangle((index, 0), 1, entropy, fc=color)))

    ax.add_collection(PatchCollection([bar for _, bar in bars], match_original=True))
    bars.sort(key=lambda item: -entropies[item[0]])
    ax.legend([bar for _, bar in bars], [f'{name} {entropies[name]}' for name, _ in bars],
              loc='upper center', bbox_to_anchor=(0.5, -0.05))
    ax.axis('scaled')

    if title is not None:
        ax.set_xlabel(title)

    if save_path is not None:
        current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
        plt.close(current_figure)
    else:
        current_figure.show()
''')
R(D, 'draw_colors_event_log', '''
def draw_colors_event_log(log: list[list[ColoredRectangle]],
                          title: str = None,
                          save_path: str = None,
                          plot_legend: bool = True,
                          height_scale: int = 1,
                          width_scale: int = 1):
    def draw_row(ctx, row, y):
        x = 0
        patches = []
        for item in row:
            width = item.length * ctx.rect_width
            patches.append(plt.Rectangle((x, y), width, ctx.rect_height, fc=item.color.to_hex()))
            ctx.names_to_rects[item.name] = patches[-1]
            x += width

        ctx.drawer.add_collection(PatchCollection(patches, match_original=True))

    def draw_func(ctx: TraceDiversityLikeDiagramContext):
        for number, row in enumerate(log):
            draw_row(ctx, row, number * (ctx.rect_height + ctx.y_delta_between_traces))

    _draw_traces_diversity_like_diagram_internal(log, draw_func, title, save_path, plot_legend, height_scale,
                                                 width_scale, 50)
''')
A = L + 'analysis/event_log_analysis_canvas.py'
R(A, '_calculate_canvas_width', '''
def _calculate_canvas_width(log: list[list[ColoredRectangle]]):
    return max([sum(rect.length for rect in trace) for trace in log] or [0])
''')
R(A, '_draw_legend', '''
def _draw_legend(canvas: Canvas, names_to_colors: dict[str, str], before_height: float):
    with hold_canvas():
        x = canvas.width / 3
        for index, (name, color) in enumerate(names_to_colors.items()):
            y = before_height + legend_rect_height * index
            canvas.fill_style = color
            canvas.fill_rect(x, y, legend_rect_width, legend_rect_height)
            canvas.fill_style = 'black'
            canvas.fill_text(name, x + legend_rect_width + x_delta, y + legend_rect_height / 1.4)
''')
B = L + 'analysis/patterns/patterns_graphs.py'
R(B, 'build_graph', '''
def build_graph(nodes: list[GraphNode],
                graph_name: str,
                add_root_node: bool = True,
                node_name_creator: Callable[[GraphNode], str] = default_node_name_creator,
                set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
    graph = graphviz.Digraph(graph_name)
    names = set()
    seen = set()
    stack = [('root' if add_root_node else None, node) for node in reversed(nodes)]
    while stack:
        parent, node = stack.pop()
        name = '&#58;'.join(node_name_creator(node).split(':'))
        if parent is not None:
            graph.edge(name, parent)

        if name not in names:
            graph.node(name)
            names.add(name)

        if id(node) not in seen:
            seen.add(id(node))
            stack.extend((name, child) for child in reversed(node.child_nodes))

    set_attributes_to_func(graph)
    return graph
''')
R(B, '_do_draw_activity_diagram', '''
def _do_draw_activity_diagram(log: MyEventLog,
                              traces_activities: list[list[ActivityInTraceInfo]],
                              cached_colors: dict[str, str],
                              title: str,
                              short_diagram: bool,
                              plot_legend: bool,
                              save_path: str,
                              height_scale: int,
                              width_scale: int):
    def draw_func(ctx: TraceDiversityLikeDiagramContext):
        dtos = [[SubTraceDrawingDto(info.start_pos, info.length, info.node.name) for info in trace_activities]
                for trace_activities in traces_activities]
        _sub_traces_draw_func(ctx, log, cached_colors, dtos, short_diagram)

    _draw_traces_diversity_like_diagram_internal(log, draw_func, title, save_path, plot_legend, height_scale, width_scale)
''')
R(B, '_sub_traces_draw_func', '''
def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
                          log: MyEventLog,
                          cached_colors: dict[str, str],
                          activities: list[list[SubTraceDrawingDto]],
                          draw_short_diagram: bool):
    def color_of(name: str):
        if name not in cached_colors:
            if name == undefined_activity:
                return to_hex((0, 0, 0))

            cached_colors[name] = next_color_for_new_name(random_unique_color_provider_instance, cached_colors)

        return cached_colors[name]

    def segments(trace_activities, size):
        if not trace_activities:
            return [(undefined_activity, size)]

        result = []
        position = 0
        for dto in trace_activities:
            if position < dto.start_pos:
                result.append((undefined_activity, dto.start_pos - position))

            result.append((dto.name, dto.length))
            position = dto.start_pos + dto.length

        if position < size:
            result.append((undefined_activity, size - position))

        return result

    activities_colors = dict()
    for row, (trace_activities, real_trace) in enumerate(zip(activities, log)):
        x = 0
        y = row * (ctx.rect_height + ctx.y_delta_between_traces)
        patches = []
        for name, size in segments(trace_activities, len(real_trace)):
            width = ctx.rect_width if draw_short_diagram else ctx.rect_width * size
            if name == undefined_activity and all(dto.name != name for dto in trace_activities):
                color = color_of(name)
            else:
                if name not in activities_colors:
                    activities_colors[name] = color_of(name)
                color = activities_colors[name]
            rect = plt.Rectangle((x, y), width, ctx.rect_height, fc=color)
            ctx.names_to_rects[name] = rect
            patches.append(rect)
            x += width

        if len(trace_activities) == 0:
            for patch in patches:
                ctx.drawer.add_patch(patch)
        else:
            ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
''')
O = L + 'discovery/petri_net.py'
R(O, 'draw_petri_net', '''
def draw_petri_net(net: PetriNet,
                   show_places_names: bool = False,
                   name: str = 'petri_net',
                   background_color: str = 'white',
                   engine='dot',
                   export_path: Optional[str] = None,
                   rankdir: str = 'LR',
                   annotation: dict[int, str] = None):
    def places_of(marking):
        return set() if marking is None else {single.place_id for single in marking.markings}

    def arc_label(arc):
        return '' if annotation is None else annotation.get(arc.id, '')

    def draw_func(g: graphviz.Digraph):
        initial, final = places_of(net.initial_marking), places_of(net.final_marking)
        common = dict(style='filled', border='1')
        for place in net.places.values():
            node_id = str(place.id)
            if place.id in initial:
                g.node(node_id, '<&#9679;>', shape='circle', **common)
            elif place.id in final:
                g.node(node_id, '<&#9679;>', shape='doublecircle', **common)
            else:
                g.node(node_id, label=place.name if show_places_names else '', shape='circle', **common)

        for transition in net.transitions.values():
            g.node(str(transition.id), label=transition.data, shape='box')

        for transition in net.transitions.values():
            node_id = str(transition.id)
            for arc in transition.incoming_arcs:
                g.edge(str(arc.place_id), node_id, arc_label(arc))

            for arc in transition.outgoing_arcs:
                g.edge(node_id, str(arc.place_id), arc_label(arc))

    _draw_graph_like_formalism(draw_func, name, background_color, engine, export_path, rankdir)
''')

# --- pipelines
Q = L + 'pipelines/pipelines.py'
R(Q, 'Pipeline.execute', '''
def execute(self, input: Any):
    random_unique_color_provider_instance.reset()
    result = input
    index = 0
    while index < len(self.parts):
        result = self.parts[index].execute(result)
        index += 1

    return result
''')
R(Q, '_create_pipelines_list', '''
def _create_pipelines_list(pipeline_parts) -> list[PipelinePart]:
    parts = [part for part in pipeline_parts if part is not None]
    if not all(isinstance(part, PipelinePart) for part in parts):
        raise TypeError()

    return parts
''')
R(Q, 'ParallelPipeline', '''
class ParallelPipeline(InternalPipelinePart):
    def __init__(self, *parallel_pipelines):
        self.pipelines: list[Pipeline] = list(parallel_pipelines)

    def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
        outputs = [pipeline.execute(copy.copy(current_input)) for pipeline in self.pipelines]
        return outputs[-1] if outputs else None
''')
R(Q, 'IfPipeline.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    return self.pipeline(current_input) if self.condition(current_input) else current_input
''')
W = L + 'pipelines/contexts/part_results.py'
R(W, 'PipelinePartResult.get_value_or_throw', '''
def get_value_or_throw(self, key):
    try:
        return self.values[key]
    except KeyError:
        raise ValueError() from None
''')
R(W, 'PipelinePartResult.__cached_colors__', '''
def __cached_colors__(self) -> dict[str, str]:
    return self.values.setdefault(cached_colors_key, dict())
''')
H = L + 'pipelines/analysis/high_level.py'
R(H, 'DiscoverActivitiesForSeveralLevels.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    level = self.initial_activity_level
    for class_extractor in self.class_extractors:
        current_input = AdjustWithActivitiesFromUnattachedEvents(
            class_extractor, level, self.discovering_strategy, self.min_events_in_traces, self.adjusting_mode,
            self.activity_in_trace_filter, self.should_narrow_activity)(current_input)
        level += 1

    return current_input
''')
R(H, 'ExecuteWithEachActivityLog.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    logs = activities_to_logs(current_input)
    for name in logs:
        context = PipelinePartResult()
        context.with_activity_name(name).with_log(logs[name])
        self.pipeline.execute(context)

    return current_input
''')

# --- remote pipelines
V = G + 'context_values.py'
R(V, 'HashesLogContextValue.to_grpc_context_value', '''
def to_grpc_context_value(self) -> GrpcContextValue:
    traces = [GrpcHashesLogTrace(events=trace) for trace in self.value]
    return GrpcContextValue(hashes_log=GrpcHashesEventLogContextValue(log=GrpcHashesEventLog(traces=traces)))
''')
R(V, 'NamesLogContextValue.to_grpc_context_value', '''
def to_grpc_context_value(self) -> GrpcContextValue:
    log = GrpcNamesEventLog()
    for names in self.value:
        log.traces.add().events.extend(names)

    return GrpcContextValue(names_log=GrpcNamesEventLogContextValue(log=log))
''')
R(V, 'StringsContextValue.to_grpc_context_value', '''
def to_grpc_context_value(self) -> GrpcContextValue:
    return GrpcContextValue(strings=GrpcStrings(strings=self.strings))
''')
R(V, 'from_grpc_names_log', '''
def from_grpc_names_log(grpc_names_log: GrpcNamesEventLog) -> list[list[str]]:
    return [list(trace.events) for trace in grpc_names_log.log.traces]
''')
R(V, 'from_grpc_colors_log', '''
def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
    return [list(map(from_grpc_colored_rectangle, trace.event_colors)) for trace in grpc_colors_log.traces]
''')
R(V, 'from_grpc_petri_net', '''
def from_grpc_petri_net(grpc_petri_net: GrpcPetriNet) -> 'PetriNet':
    net = PetriNet()
    net.places.update({item.id: from_grpc_petri_net_place(item) for item in grpc_petri_net.places})
    net.transitions.update({item.id: from_grpc_transition(item) for item in grpc_petri_net.transitions})
    for field in ('initial_marking', 'final_marking'):
        if grpc_petri_net.HasField(field):
            setattr(net, field, try_from_grpc_marking(getattr(grpc_petri_net, field)))

    return net
''')
R(V, 'from_grpc_transition', '''
def from_grpc_transition(grpc_petri_net_transition: GrpcPetriNetTransition) -> 'Transition':
    transition = Transition(grpc_petri_net_transition.id)
    transition.data = grpc_petri_net_transition.data
    transition.incoming_arcs = [from_grpc_arc(arc) for arc in grpc_petri_net_transition.incomingArcs]
    transition.outgoing_arcs = [from_grpc_arc(arc) for arc in grpc_petri_net_transition.outgoingArcs]
    return transition
''')
R(V, 'from_grpc_count_annotation', '''
def from_grpc_count_annotation(grpc_annotation: GrpcCountAnnotation) -> dict[int, str]:
    return {item.entityId: f'{item.count}' for item in grpc_annotation.annotations}
''')
R(V, 'from_grpc_ficus_dataset', '''
def from_grpc_ficus_dataset(grpc_dataset: GrpcDataset) -> pd.DataFrame:
    data = [list(row.values) for row in grpc_dataset.matrix.rows]
    return pd.DataFrame(data, index=list(grpc_dataset.rowNames), columns=list(grpc_dataset.columnsNames))
''')
R(V, 'from_grpc_graph', '''
def from_grpc_graph(grpc_graph: GrpcGraph) -> Graph:
    graph = Graph()
    graph.nodes.extend(GraphNode(node.id, node.data) for node in grpc_graph.nodes)
    graph.edges.extend([GraphEdge(edge.from_node, edge.to_node, edge.data) for edge in grpc_graph.edges])
    return graph
''')
Y = G + 'grpc_pipelines.py'
R(Y, 'Pipeline2.execute', '''
def execute(self, initial_context: dict[str, ContextValue]) -> GrpcPipelinePartExecutionResult:
    size = 512 * 1024 * 1024
    options = [('grpc.max_send_message_length', size), ('grpc.max_receive_message_length', size)]
    context = {key: value for key, value in initial_context.items() if key != ficus_backend_addr_key}
    address = initial_context.get(ficus_backend_addr_key, 'localhost:8080')

    with grpc.insecure_channel(address, options=options) as channel:
        stub = GrpcBackendServiceStub(channel)
        request = GrpcPipelineExecutionRequest(pipeline=self.to_grpc_pipeline(),
                                               initialContext=self._create_initial_context(context))
        callback_parts = []
        self.append_parts_with_callbacks(callback_parts)
        parts_by_uuid = {part.uuid: part for part in callback_parts}

        result = None
        for result in stub.ExecutePipeline(request):
            if result.HasField('finalResult'):
                break
            elif result.HasField('pipelinePartResult'):
                self._handle_part_result(result.pipelinePartResult, parts_by_uuid)
            elif result.HasField('logMessage'):
                print(result.logMessage.message)

        if result.finalResult.HasField('success'):
            stub.DropExecutionResult(result.finalResult.success)

        return result


@staticmethod
def _handle_part_result(part_result, parts_by_uuid):
    part = parts_by_uuid.get(uuid.UUID(part_result.uuid.uuid))
    if part is None:
        return

    values = {item.key_name: item.value for item in part_result.contextValues}
    performance_cookie(f'{type(part).__name__}Callback', lambda: part.execute_callback(values))
''')
R(Y, 'Pipeline2._create_grpc_pipeline', '''
@staticmethod
def _create_grpc_pipeline(parts) -> GrpcPipeline:
    if any(not isinstance(part, PipelinePart2) for part in parts):
        raise TypeError()

    return GrpcPipeline(parts=[part.to_grpc_part() for part in parts])
''')
R(Y, 'Pipeline2._create_initial_context', '''
@staticmethod
def _create_initial_context(context: dict[str, ContextValue]) -> list[GrpcContextKeyValue]:
    return [GrpcContextKeyValue(key=GrpcContextKey(name=name), value=value.to_grpc_context_value())
            for name, value in context.items()]
''')
R(Y, '_create_complex_get_context_part', '''
def _create_complex_get_context_part(frontend_part_uuid: uuid.UUID,
                                     key_names: list[str],
                                     before_part_name: str,
                                     config: GrpcPipelinePartConfiguration):
    part = GrpcComplexContextRequestPipelinePart(frontendPartUuid=_create_grpc_uuid(frontend_part_uuid))
    for name in key_names:
        part.keys.append(GrpcContextKey(name=name))

    part.beforePipelinePart.CopyFrom(_create_default_pipeline_part(before_part_name, config))
    return part
''')
