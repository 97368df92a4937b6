"""Behaviour-preserving rewrites of the Rust backend, one by one in a scratch copy: the checks named there have to stay quiet.

    python3 refac_rust.py [NAME...]"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
CASES = []


def R(name, props, *edits):
    CASES.append((name, props, edits))


P = 'features/analysis/patterns/'
R('info-helper', ['C41', 'C42', 'C47'],
  ('features/analysis/event_log_info.rs', '''                if let Some(ignored_events) = ignored_events {
                    if ignored_events.contains(&current_name) {
                        continue;
                    }
                }
''', '''                if is_ignored(ignored_events, &current_name) {
                    continue;
                }
'''),
  ('features/analysis/event_log_info.rs', 'impl EventLogInfo {\n    pub fn create_from', '''fn is_ignored(ignored_events: Option<&HashSet<String>>, name: &str) -> bool {
    ignored_events.map_or(false, |events| events.contains(name))
}

impl EventLogInfo {
    pub fn create_from'''),
  ('features/analysis/event_log_info.rs', '''            if let Some(values) = dfg_pairs.get_mut(first_name) {
                if let Some(count) = values.get_mut(second_name) {
                    *count += 1;
                } else {
                    values.insert(second_name.to_string(), 1);
                }
            } else {
                let map = HashMap::from_iter(vec![(second_name.to_owned(), 1)]);
                dfg_pairs.insert(first_name.to_owned(), map);
            }
''', '''            *dfg_pairs.entry(first_name.clone()).or_default().entry(second_name.clone()).or_insert(0) += 1;
'''))
R('info-string-from', ['C41', 'C42'],
  ('features/analysis/event_log_info.rs', '''            if let Some(dfg_count) = values.get(second) {
                return *dfg_count;
            }
        }

        0''', '''            return values.get(second).copied().unwrap_or_default();
        }

        0'''),
  ('features/analysis/event_log_info.rs', '''update_pairs_count(&FAKE_EVENT_START_NAME.to_string(), &current_name);''', '''update_pairs_count(&String::from(FAKE_EVENT_START_NAME), &current_name);'''))
R('pos-fast-filter', ['C42'],
  ('features/analysis/entropy/pos_entropy_fast.rs', '''        let mut our_idx = 0;
        let mut ignored_idx = 0;

        while our_idx != positions_of_our_event.len() || ignored_idx != ordered_positions_of_ignored_events.len() {
            if our_idx >= positions_of_our_event.len() {
                break;
            }

            while ignored_idx < ordered_positions_of_ignored_events.len()
                && positions_of_our_event[our_idx] > ordered_positions_of_ignored_events[ignored_idx]
            {
                ignored_idx += 1
            }

            probabilities[positions_of_our_event[our_idx] - ignored_idx] += 1f64;
            our_idx += 1;
        }
''', '''        for position in positions_of_our_event {
            let ignored_before = ordered_positions_of_ignored_events.partition_point(|ignored| ignored < position);
            probabilities[position - ignored_before] += 1f64;
        }
'''))
R('pos-iter', ['C42'],
  ('features/analysis/entropy/shared.rs', '''    for i in 0..probabilities.len() {
        probabilities[i] = probabilities[i] / traces_count;
    }
''', '''    probabilities.iter_mut().for_each(|p| *p /= traces_count);
'''),
  ('features/analysis/entropy/shared.rs', 'log.traces().into_iter().map(|trace| trace.borrow().events().len()).max().unwrap()', 'log.traces().iter().map(|t| t.borrow().events().len()).max().unwrap()'))
R('split-entry', ['C44'],
  ('features/mutations/split.rs', '''            if hashes_to_traces.contains_key(&hash_code) {
                (*hashes_to_traces.get_mut(&hash_code).unwrap()).push((*trace).clone());
            } else {
                hashes_to_traces.insert(hash_code, vec![(*trace).clone()]);
            }
''', '''            hashes_to_traces.entry(hash_code).or_default().push(trace.clone());
'''),
  ('features/mutations/split.rs', '''        if len_to_traces.contains_key(&len) {
            (*len_to_traces.get_mut(&len).unwrap()).push(TracePointer::new(trace, index));
        } else {
            len_to_traces.insert(len, vec![TracePointer::new(trace, index)]);
        }
''', '''        len_to_traces.entry(len).or_insert_with(Vec::new).push(TracePointer::new(trace, index));
'''),
  ('features/mutations/split.rs', 'result.sort_by(|first, second| first[0].index.cmp(&second[0].index));', 'result.sort_by_key(|group| group[0].index);'))
R('split-whole-traces', ['C44'],
  ('features/mutations/split.rs', '''    let mut groups = create_initial_groups(&traces);
    let mut index = 0;

    loop {
        if index >= traces[0].trace.borrow().events().len() {
            break;
        }

        let (new_groups, all_groups_have_one_trace) = update_groups(&groups, index);

        if all_groups_have_one_trace {
            break;
        }

        index += 1;
        groups = new_groups;
    }

    for group in groups {
        result.push(group);
    }
''', '''    let mut groups: HashMap<Vec<String>, Vec<TracePointer<TTrace>>> = HashMap::new();
    for pointer in traces {
        let names = pointer.trace.borrow().to_names_vec();
        groups.entry(names).or_default().push(pointer);
    }

    result.extend(groups.into_values());
'''))
R('sets-btree', ['C39', 'C46'],
  (P + 'repeat_sets.rs', '''            set.clear();
            for element in &trace[start..end] {
                set.insert(*element);
            }

            vec.clear();
            vec.extend(&set);
            vec.sort();

            if !repeat_sets.contains_key(&vec) {
                repeat_sets.insert(vec.clone(), SubArrayWithTraceIndex::new(*pattern, trace_index));
            }
''', '''            let key: std::collections::BTreeSet<u64> = trace[start..end].iter().copied().collect();
            repeat_sets
                .entry(key.into_iter().collect::<Vec<u64>>())
                .or_insert_with(|| SubArrayWithTraceIndex::new(*pattern, trace_index));
'''),
  (P + 'repeat_sets.rs', '''    let mut set = HashSet::new();
    let mut vec: Vec<u64> = vec![];
    let mut trace_index = 0;
''', '''    let mut trace_index = 0;
'''),
  (P + 'repeat_sets.rs', '''    result.sort_by(|first, second| {
        if first.trace_index == second.trace_index {
            if first.sub_array.start_index != second.sub_array.start_index {
                first.sub_array.start_index.cmp(&second.sub_array.start_index)
            } else {
                first.sub_array.length.cmp(&second.sub_array.length)
            }
        } else {
            first.trace_index.cmp(&second.trace_index)
        }
    });
''', '''    result.sort_by_key(|r| (r.trace_index, r.sub_array.start_index, r.sub_array.length));
'''))
R('tandem-chunks', ['C37', 'C46'],
  (P + 'tandem_arrays.rs', '''    let mut current_index = start_index + length;
    let mut repeat_count = 1;

    'this_loop: loop {
        if current_index + length - 1 >= trace.len() {
            break;
        }

        for i in 0..length {
            if trace[current_index + i] != trace[start_index + i] {
                break 'this_loop;
            }
        }

        repeat_count += 1;
        current_index += length;
    }

    if repeat_count > 1 {''', '''    let base = &trace[start_index..(start_index + length).min(trace.len())];
    let repeat_count = trace[start_index..].chunks_exact(length).take_while(|chunk| *chunk == base).count();

    if repeat_count > 1 {'''))
R('instances-helper', ['C40', 'C45', 'C46'],
  (P + 'activity_instances.rs', '''                let mut found_activity = false;
                for activities in activities_by_size.iter() {
                    for activity in activities {
                        if activity.borrow().event_classes.contains(&event_hash) {
                            current_activity = Some(Rc::clone(activity));
                            last_activity_start_index = Some(index.unwrap());
                            found_activity = true;
                            break;
                        }
                    }

                    if found_activity {
                        current_event_classes.clear();
                        current_event_classes.insert(event_hash);
                        break;
                    }
                }
''', '''                let found = activities_by_size
                    .iter()
                    .flatten()
                    .find(|activity| activity.borrow().event_classes.contains(&event_hash));

                if let Some(activity) = found {
                    current_activity = Some(activity.clone());
                    last_activity_start_index = index;
                    current_event_classes = HashSet::from([event_hash]);
                }
'''),
  (P + 'activity_instances.rs', '''    if filtering_kind == &ActivityInTraceFilterKind::NoFilter {
        true
    } else {
        if instance.node.borrow().len() < min_events_in_activity {
            false
        } else {
            instance.length > instance.node.borrow().len() / 2
        }
    }''', '''    match filtering_kind {
        ActivityInTraceFilterKind::NoFilter => true,
        ActivityInTraceFilterKind::DefaultFilter => {
            let size = instance.node.borrow().len();
            size >= min_events_in_activity && instance.length > size / 2
        }
    }'''))
R('alpha-all', ['C47', 'C48'],
  ('features/discovery/alpha/alpha_set.rs', '''        for left_class in self.two_sets.first_set().iter().chain(other.two_sets.first_set().iter()) {
            for right_class in self.two_sets.second_set().iter().chain(other.two_sets.second_set().iter()) {
                if !provider.causal_relation(left_class, right_class) {
                    return false;
                }
            }
        }
''', '''        let union = self.two_sets.merge(&other.two_sets);
        if !union.first_set().iter().all(|left| union.second_set().iter().all(|right| provider.causal_relation(left, right))) {
            return false;
        }
'''),
  ('features/discovery/alpha/alpha.rs', '''            let mut sets = vec![];
            for candidate in info.all_event_classes() {
                if provider.causal_relation(class, candidate) && provider.unrelated_relation(candidate, candidate) {
                    sets.push(AlphaSet::new((*class).to_owned(), candidate.to_owned()));
                }
            }

            sets
''', '''            info.all_event_classes()
                .into_iter()
                .filter(|candidate| provider.unrelated_relation(candidate, candidate) && provider.causal_relation(class, candidate))
                .map(|candidate| AlphaSet::new((*class).clone(), candidate.clone()))
                .collect::<Vec<_>>()
'''),
  ('features/discovery/alpha/alpha.rs', '''        let place_id = match petri_net.find_place_id_by_name(alpha_set.to_string().as_str()) {
            Some(found_place_id) => found_place_id,
            None => petri_net.add_place(Place::with_name(alpha_set.to_string())),
        };
''', '''        let name = alpha_set.to_string();
        let place_id = petri_net
            .find_place_id_by_name(&name)
            .unwrap_or_else(|| petri_net.add_place(Place::with_name(name)));
'''))
R('heuristic-relations', ['C48'],
  ('features/discovery/heuristic/relations_provider.rs', '''        if let Some(measure) = self.triangle_relations.get(&(first.to_owned(), second.to_owned())) {
            *measure
        } else {
            0
        }
''', '''        self.triangle_relations
            .get(&(first.to_owned(), second.to_owned()))
            .copied()
            .unwrap_or(0)
'''),
  ('features/discovery/heuristic/relations_provider.rs', '''                for i in (0..values.len()).rev() {
                    if values[i].1 < min_value {
                        values.remove(i);
                    }
                }
''', '''                values.retain(|(_, measure)| *measure >= min_value);
'''),
  ('features/discovery/heuristic/relations_provider.rs', '''        for (key, values) in relations {
            let mut map = HashMap::new();
            for (second_key, value) in values {
                map.insert(second_key, value);
            }

            self.dependency_relations.insert(key, map);
        }
''', '''        self.dependency_relations = relations.into_iter().map(|(key, values)| (key, values.into_iter().collect())).collect();
'''))
R('heuristic-names', ['C48', 'C49'],
  ('features/discovery/heuristic/heuristic_miner.rs', '''            let name = format!("silent_start_{first_class}");
            let id = petri_net.add_transition(Transition::empty(name.to_owned(), true, Some(name.to_owned())));
''', '''            let name = format!("silent_start_{}", first_class);
            let id = petri_net.add_transition(Transition::empty(name.clone(), true, Some(name)));
'''))
R('replay-stack', ['C48', 'C49'],
  ('features/discovery/petri_net/replay.rs', '''                    if let Some(count) = new_markings.get(place_id) {
                        *new_markings.get_mut(place_id).unwrap() = count + arc.tokens_count();
                    } else {
                        new_markings.insert(*place_id, *arc.tokens_count());
                    }
''', '''                    *new_markings.entry(*place_id).or_insert(0) += *arc.tokens_count();
'''),
  ('features/discovery/petri_net/replay.rs', '''        let mut result = vec![];
        for transition in net.all_transitions() {
            if transition.name() == symbol {
                result.push(transition);
            }
        }

        for transition in net.all_transitions() {
            if *transition.is_silent() {
                result.push(transition);
            }
        }

        result
''', '''        let named = net.all_transitions().into_iter().filter(|t| t.name().as_str() == symbol);
        let silent = net.all_transitions().into_iter().filter(|t| *t.is_silent());
        named.chain(silent).collect()
'''),
  ('features/discovery/petri_net/replay.rs', '''        let mut stack = VecDeque::new();
        stack.push_back((''', '''        let mut stack = Vec::new();
        stack.push(('''),
  ('features/discovery/petri_net/replay.rs', 'stack.pop_back()', 'stack.pop()'),
  ('features/discovery/petri_net/replay.rs', 'stack.push_back((new_index, new_state.1));', 'stack.push((new_index, new_state.1));'))
R('annotations-sum', ['C49'],
  ('features/discovery/petri_net/annotations.rs', '''                for incoming_arc in transition.incoming_arcs() {
                    handle_arc(&mut fired_arcs, incoming_arc.id());
                }

                for outgoing_arc in transition.outgoing_arcs() {
                    handle_arc(&mut fired_arcs, outgoing_arc.id());
                }
''', '''                for arc in transition.incoming_arcs().iter().chain(transition.outgoing_arcs()) {
                    handle_arc(&mut fired_arcs, arc.id());
                }
'''))
R('interval-partition', ['C38'],
  ('utils/interval_tree/interval_tree.rs', '''                if interval.right < center {
                    left_intervals.push(interval);
                } else if interval.left > center {
                    right_intervals.push(interval);
                } else {
                    node_intervals.push(*interval);
                }
''', '''                match (interval.left.cmp(&center), interval.right.cmp(&center)) {
                    (_, std::cmp::Ordering::Less) => left_intervals.push(interval),
                    (std::cmp::Ordering::Greater, _) => right_intervals.push(interval),
                    _ => node_intervals.push(*interval),
                }
'''),
  ('utils/interval_tree/interval_tree.rs', '''        let left_boundary = match self.boundaries.binary_search(&left) {
            Ok(value) => value,
            Err(value) => value,
        };

        let right_boundary = match self.boundaries.binary_search(&right) {
            Ok(value) => value,
            Err(value) => value,
        };
''', '''        let left_boundary = self.boundaries.partition_point(|border| *border < left);
        let right_boundary = self.boundaries.partition_point(|border| *border <= right);
'''))
R('graph-flat', ['C50', 'C51'],
  ('utils/graph/graph.rs', """        let mut edges = vec![];
        for (first, connections) in &self.connections {
            for (second, data) in connections {
                edges.push(GraphEdge::new(*first, *second, data.as_ref()))
            }
        }

        edges
""", """        self.connections
            .iter()
            .flat_map(|(first, connections)| connections.iter().map(move |(second, data)| GraphEdge::new(*first, *second, data.as_ref())))
            .collect()
"""),
  ('utils/graph/graph.rs', """        if let Some(_) = self.nodes.get(first_node_id) {
            if let Some(_) = self.nodes.get(second_node_id) {
                if let Some(connections) = self.connections.get_mut(first_node_id) {
                    connections.insert(second_node_id.to_owned(), edge_data);
                } else {
                    let new_connections = HashMap::from_iter(vec![(second_node_id.to_owned(), edge_data)]);
                    self.connections.insert(first_node_id.to_owned(), new_connections);
                }
            }
        }
""", """        if !self.nodes.contains_key(first_node_id) || !self.nodes.contains_key(second_node_id) {
            return;
        }

        self.connections.entry(*first_node_id).or_default().insert(*second_node_id, edge_data);
"""))
R('fuzzy-classes', ['C51'],
  ('features/discovery/fuzzy/fuzzy_miner.rs', """    for class in provider.log_info().all_event_classes() {
        if provider.unary_frequency_significance(class) > unary_frequency_threshold {
            let node_id = graph.add_node(Some(class.to_owned()));
            classes_to_ids.insert(class.to_owned(), node_id);
        }
    }
""", """    let kept: Vec<&String> = provider.log_info().all_event_classes().into_iter().filter(|class| is_kept(provider, class, unary_frequency_threshold)).collect();
    for class in kept {
        classes_to_ids.insert(class.to_owned(), graph.add_node(Some(class.to_owned())));
    }
"""),
  ('features/discovery/fuzzy/fuzzy_miner.rs', "fn resolve_conflicts<TLog", """fn is_kept<TLog: EventLog>(provider: &FuzzyMetricsProvider<TLog>, class: &String, threshold: f64) -> bool {
    !(provider.unary_frequency_significance(class) <= threshold)
}

fn resolve_conflicts<TLog"""))
R('fuzzy-proximity', ['C51'],
  ('features/discovery/fuzzy/fuzzy_metrics_provider.rs', """            for i in 0..events.len() {
                let event = events[i].borrow();
                let name = event.name();
""", """            for (i, event) in events.iter().enumerate() {
                let event = event.borrow();
                let name = event.name();
"""))
R('merge-drain', ['C50', 'C51'],
  ('utils/graph/graph_clusters.rs', """        for key in self.connections.keys().into_iter().map(|c| *c).collect::<Vec<u64>>() {
            if let Some(connections) = self.connections.get_mut(&key) {
                for cluster_node_id in cluster_nodes {
                    connections.remove(cluster_node_id);
                }
            }
        }

        for cluster_node_id in cluster_nodes {
            self.nodes.remove(cluster_node_id);
        }
""", """        for connections in self.connections.values_mut() {
            connections.retain(|other, _| !cluster_nodes.contains(other));
        }

        self.nodes.retain(|id, _| !cluster_nodes.contains(id));
"""))
R('suffix-iflet', ['C36', 'C46'],
  ('utils/suffix_tree/suffix_tree_patterns.rs', '''            if !current_node.children.contains_key(&Some(pattern[pattern_index])) {
                return None;
            }

            let child_index = current_node.children.get(&Some(pattern[pattern_index])).unwrap();
''', '''            let child_index = current_node.children.get(&Some(pattern[pattern_index]))?;
'''),
  ('utils/suffix_tree/suffix_tree_repeats.rs', '''                if seen.contains(sub_slice) {
                    continue;
                }

                seen.insert(sub_slice);
                filtered_repeats.push(*repeat);
''', '''                if seen.insert(sub_slice) {
                    filtered_repeats.push(*repeat);
                }
'''))
R('holder-retain', ['C43', 'C44', 'C45'],
  ('event_log/core/event/events_holder.rs', '''        let events = &mut self.events;
        for index in (0..events.len()).rev() {
            if predicate(&events[index].borrow()) {
                events.remove(index);
            }
        }
''', '''        self.events.retain(|event| !predicate(&event.borrow()));
'''),
  ('event_log/core/event/events_holder.rs', '''        let mut names = Vec::new();
        for event in &self.events {
            names.push(event.borrow().name().to_owned());
        }

        names
''', '''        self.events.iter().map(|event| event.borrow().name().clone()).collect()
'''),
  ('event_log/core/trace/traces_holder.rs', '''        let mut to_remove = HashSet::new();
        for index in 0..self.traces.len() {
            if predicate(&self.traces.get(index).unwrap().borrow(), &index) {
                to_remove.insert(index);
            }
        }

        for index in (0..self.traces.len()).rev() {
            if to_remove.contains(&index) {
                self.traces.remove(index);
            }
        }
''', '''        let mut index = 0;
        self.traces.retain(|trace| {
            let keep = !predicate(&trace.borrow(), &index);
            index += 1;
            keep
        });
'''))
R('underlying-helper', ['C45', 'C46'],
  (P + 'activity_instances.rs', '''            let mut underlying_events = vec![];
            for i in activity.start_pos..(activity.start_pos + activity.length) {
                underlying_events.push(Rc::clone(&trace.events()[i]));
            }
''', '''            let end = activity.start_pos + activity.length;
            let underlying_events = trace.events()[activity.start_pos..end].to_vec();
'''),
  (P + 'activity_instances.rs', '''            let name = &activity_info.node.borrow().name;
            if let Some(activity_log) = activities_to_logs.get_mut(name) {
                activity_log.borrow_mut().push(Rc::clone(&new_trace_ptr));
            } else {
                let log = Rc::new(RefCell::new(TLog::empty()));
                log.borrow_mut().push(Rc::clone(&new_trace_ptr));

                activities_to_logs.insert(name.to_owned(), log);
            }
''', '''            activities_to_logs
                .entry(activity_info.node.borrow().name.clone())
                .or_insert_with(|| Rc::new(RefCell::new(TLog::empty())))
                .borrow_mut()
                .push(Rc::clone(&new_trace_ptr));
'''))


X = 'event_log/xes/'
R('xes-extension', ['C52'],
  (X + 'reader/file_xes_log_reader.rs', """        if !name.is_some() || !prefix.is_some() || !uri.is_some() {
            return None;
        }

        Some(XesEventLogExtension {
            name: name.unwrap(),
            prefix: prefix.unwrap(),
            uri: uri.unwrap(),
        })
""", """        match (name, prefix, uri) {
            (Some(name), Some(prefix), Some(uri)) => Some(XesEventLogExtension { name, prefix, uri }),
            _ => None,
        }
"""),
  (X + 'reader/file_xes_log_reader.rs', 'Some(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),', """Some(keys_string) => {
                            let mut found_keys: Vec<String> = Vec::new();
                            for key in keys_string.split(' ') {
                                found_keys.push(String::from(key));
                            }
                            keys = Some(found_keys);
                        }"""))
R('xes-event', ['C52'],
  (X + 'reader/xes_log_trace_reader.rs', """                        if !name.is_some() {
                            return None;
                        }
                        if !date.is_some() {
                            return None;
                        }

                        let event = XesEventImpl::new_all_fields(name.unwrap(), date.unwrap(), Some(payload));
                        return Some(event);
""", """                        return Self::build_event(name, date, payload);
"""),
  (X + 'reader/xes_log_trace_reader.rs', '    fn set_defaults_value(\n', """    fn build_event(
        name: Option<Rc<Box<String>>>,
        date: Option<DateTime<Utc>>,
        payload: HashMap<String, EventPayloadValue>,
    ) -> Option<XesEventImpl> {
        Some(XesEventImpl::new_all_fields(name?, date?, Some(payload)))
    }

    fn set_defaults_value(
"""),
  (X + 'reader/xes_log_trace_reader.rs', """                if payload.contains_key(key) {
                    *payload.get_mut(key).unwrap() = payload_value;
                } else {
                    payload.insert(key.to_owned(), payload_value);
                }
""", """                *payload.entry(key.to_string()).or_insert(EventPayloadValue::Boolean(false)) = payload_value;
"""),
  (X + 'reader/xes_log_trace_reader.rs', """        if !globals.contains_key(EVENT_TAG_NAME_STR) {
            return;
        }

        for (key, value) in globals.get(EVENT_TAG_NAME_STR).unwrap() {
            Self::update_event_data(key, value.clone(), date, name, payload);
        }
""", """        if let Some(defaults) = globals.get(EVENT_TAG_NAME_STR) {
            defaults.iter().for_each(|(key, value)| Self::update_event_data(key, value.clone(), date, name, payload));
        }
"""))
R('xes-writer', ['C52'],
  (X + 'writer/xes_event_log_writer.rs', """            if events.len() == 0 {
                continue;
            }

            let _trace_cookie = StartEndElementCookie::new(&writer, TRACE_TAG_NAME_STR);

            for event in events {
""", """            if events.is_empty() {
                continue;
            }

            let _trace_cookie = StartEndElementCookie::new(&writer, TRACE_TAG_NAME_STR);

            for event in events.iter() {
"""),
  (X + 'writer/xes_event_log_writer.rs', """        EventPayloadValue::Int32(_) => INT_TAG_NAME_STR,
        EventPayloadValue::Int64(_) => INT_TAG_NAME_STR,
""", """        EventPayloadValue::Int32(_) | EventPayloadValue::Int64(_) => INT_TAG_NAME_STR,
"""),
  (X + 'writer/xes_event_log_writer.rs', """    let content = writer.borrow().get_ref().get_ref().clone();
    match String::from_utf8(content) {
        Ok(string) => Ok(string),
        Err(error) => Err(XmlWriteError::FromUt8Error(error)),
    }
""", """    let content = writer.into_inner().into_inner().into_inner();
    String::from_utf8(content).map_err(|error| XmlWriteError::FromUt8Error(error))
"""),
  ('utils/xml_utils.rs', """    match writer.write_event(empty) {
        Ok(_) => Ok(()),
        Err(error) => Err(XmlWriteError::WriterError(error)),
    }
""", """    writer.write_event(empty).map_err(XmlWriteError::WriterError)
"""))
R('xes-attrs', ['C52'],
  (X + 'reader/utils.rs', """            Ok(real_attr) => match real_attr.key.0 {
                KEY_ATTR_NAME => match String::from_utf8(real_attr.value.to_owned().to_vec()) {
                    Err(_) => continue,
                    Ok(string) => key = Some(string),
                },
""", """            Ok(real_attr) => match real_attr.key.as_ref() {
                KEY_ATTR_NAME => {
                    if let Ok(string) = std::str::from_utf8(&real_attr.value) {
                        key = Some(string.to_string());
                    }
                }
"""),
  (X + 'reader/utils.rs', """    let kv = extract_key_value(&tag);
    if !kv.value.is_some() || !kv.key.is_some() {
        return None;
    }
""", """    let kv = extract_key_value(&tag);
    if kv.value.is_none() || kv.key.is_none() {
        return None;
    }
"""),
  (X + 'reader/file_xes_log_reader.rs', 'use quick_xml::{events::BytesStart, Reader};', 'use quick_xml::events::{BytesStart, Event as XmlEvent};\nuse quick_xml::Reader;'),
  (X + 'reader/file_xes_log_reader.rs', """                Ok(quick_xml::events::Event::Eof) => return None,
                Err(_) => return None,
                _ => continue,
""", """                Ok(XmlEvent::Eof) | Err(_) => return None,
                _ => {}
"""))
N = 'features/discovery/petri_net/pnml_serialization.rs'
R('pnml', ['C53'],
  (N, """        if let Some(data) = transition.data() {
            let name = StartEndElementCookie::new(&writer, NAME_TAG_NAME);
            let text = StartEndElementCookie::new(&writer, TEXT_TAG_NAME);

            match writer
                .borrow_mut()
                .write_event(Event::Text(BytesText::new(data.to_string().as_str())))
            {
                Ok(()) => {}
                Err(error) => return Err(XmlWriteError::WriterError(error)),
            };

            drop(text);
            drop(name);
        }
""", """        if let Some(data) = transition.data() {
            let _name = StartEndElementCookie::new(&writer, NAME_TAG_NAME);
            let _text = StartEndElementCookie::new(&writer, TEXT_TAG_NAME);

            let shown = data.to_string();
            let written = writer.borrow_mut().write_event(Event::Text(BytesText::new(&shown)));
            if let Err(error) = written {
                return Err(XmlWriteError::WriterError(error));
            }
        }
"""),
  (N, """    let mut places = net.all_places();
    places.sort_by(|left, right| left.name().cmp(right.name()));
""", """    let mut places = net.all_places();
    places.sort_by_key(|place| place.name().to_owned());
"""),
  (N, """    match use_names_as_ids {
        true => place.name().to_owned(),
        false => place.id().to_string(),
    }
""", """    if use_names_as_ids {
        place.name().clone()
    } else {
        format!("{}", place.id())
    }
"""),
  (N, 'format!("[{{{}}}--{{{}}}]", from_name, to_name)', '[String::from("[{"), from_name, String::from("}--{"), to_name, String::from("}]")].concat()'))


def one(case):
    name, props, edits = case
    w = tempfile.mkdtemp(prefix='refr_')
    try:
        shutil.copytree('/repo/src/python', w + '/src/python')
        shutil.copytree('/repo/src/rust', w + '/src/rust', ignore=shutil.ignore_patterns('target'))
        for f, a, b in edits:
            p = w + '/src/rust/ficus_backend/src/' + f
            t = open(p).read()
            assert t.count(a) == 1, (name, f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        out = []
        for q in props:
            r = subprocess.run(['/verif/run.sh', q, 'quick'], env=dict(os.environ, VERIF_REPO_SRC=w + '/src/python', VERIF_OUT=w, TMPDIR=w, VERIF_WORKERS='3'), capture_output=True, text=True)
            out.append(q + (' quiet' if r.returncode == 0 else ' ALARM %d %s' % (r.returncode, (r.stdout + r.stderr)[-900:])))
        for l in glob.glob(w + '/verif-rust-*/*/sym*.lib'):
            if not os.path.exists(os.path.join(os.path.dirname(l), os.path.basename(l)[:-4].replace('sym', 'names'))):
                out.append('(fallback: %s)' % open(l).read()[:700])
        return name, out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    cs = [c for c in CASES if len(sys.argv) < 2 or c[0] in sys.argv[1:]]
    with ThreadPoolExecutor(2) as ex:
        for n, o in ex.map(one, cs):
            print(n, *o, flush=True)
