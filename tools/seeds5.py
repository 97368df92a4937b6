"""planted bugs in the Rust backend"""
from seeds import SEEDS


def S(sid, prop, edits, demo, needs, breaks, also=()):
    SEEDS[sid] = {'property': prop, 'edits': [('rust:' + f, a, b) for f, a, b in edits], 'demo': demo, 'needs': needs, 'breaks': breaks, 'also': list(also)}


S('c36-first-element', 'C36',
  [('utils/suffix_tree/suffix_tree_patterns.rs', 'if suffix_length + 1 > self.slice.len() {', 'if suffix_length + 1 >= self.slice.len() {')],
  """
use ficus_backend::utils::suffix_tree::{suffix_tree_patterns::SuffixTree, suffix_tree_slice::SingleWordSuffixTreeSlice};
fn main() {
    // 1 2 is preceded by nothing and by 3: it is maximal; 2 is always preceded by 1
    for w in [vec![1u64, 2, 3, 1, 2], vec![1, 1, 1], vec![2, 1, 3, 2, 1, 1]] {
        let slice = SingleWordSuffixTreeSlice::new(w.as_slice());
        let mut tree = SuffixTree::new(&slice);
        tree.build_tree();
        let mut expected = BTreeSet::new();
        for i in 0..w.len() {
            for j in i + 1..=w.len() {
                let occ: Vec<usize> = (0..=w.len() - (j - i)).filter(|k| w[*k..*k + j - i] == w[i..j]).collect();
                let left: HashSet<Option<u64>> = occ.iter().map(|k| if *k == 0 { None } else { Some(w[*k - 1]) }).collect();
                let right: HashSet<Option<u64>> = occ.iter().map(|k| w.get(*k + j - i).copied()).collect();
                if left.len() > 1 && right.len() > 1 {
                    expected.insert(w[i..j].to_vec());
                }
            }
        }
        let found: BTreeSet<Vec<u64>> = tree.find_maximal_repeats().iter().map(|r| w[r.0..r.1].to_vec()).collect();
        assert_eq!(found, expected, "{:?}", w);
    }
}
""", 'a repeat one of whose occurrences starts at the second element of the word', 'the element before it is forgotten: repeats that are not maximal are reported or others become super-maximal')

S('c37-half', 'C37',
  [('features/analysis/patterns/tandem_arrays.rs', 'for length in 2..((array.sub_array.length + 1) / 2 + 1) {', 'for length in 2..(array.sub_array.length / 2 + 1) {')],
  """
use ficus_backend::features::analysis::patterns::tandem_arrays::*;
fn main() {
    let log = vec![vec![1u64, 2, 1, 1, 2, 1, 2, 1, 1, 2, 3]];
    let p: Vec<(usize, usize)> = find_primitive_tandem_arrays(&log, 8)[0].iter().map(|a| (*a.get_start_index(), *a.get_length())).collect();
    assert!(!p.contains(&(0, 5)), "{:?}", p);
}
""", 'an array of odd length whose start is itself a tandem array of an element more than half of it', 'the array is taken for primitive')

S('c38-unsorted-borders', 'C38',
  [('utils/interval_tree/interval_tree.rs', '        self.boundaries.sort();\n\n', '')],
  """
use ficus_backend::utils::interval_tree::{interval::Interval, interval_tree::IntervalTree};
fn main() {
    for (l, r) in [(0, 30), (2, 9), (5, 8), (1, 4), (3, 20), (9, 30)] {
        let all: Vec<Interval<i32, ()>> = vec![(10, 12), (1, 3), (20, 25), (5, 7), (14, 15), (28, 29)].into_iter().map(|p| Interval::new(p.0, p.1)).collect();
        let mut t = IntervalTree::new(&all, |a: &i32, b: &i32| *a..*b);
        let mut e: Vec<(i32, i32)> = all.iter().filter(|i| i.left >= l && i.right <= r).map(|i| (i.left, i.right)).collect();
        e.sort();
        let f: Vec<(i32, i32)> = t.search_envelopes(l, r).iter().map(|i| (i.left, i.right)).collect();
        assert_eq!(f, e, "{} {}", l, r);
    }
}
""", 'intervals on several levels of the tree', 'the search among the borders is done in a list that is not sorted: enclosed intervals are missed')

S('c39-one-parent', 'C39',
  [('features/analysis/patterns/repeat_sets.rs', """                if activity_node.contains_other(&current_node) {
                    activity_node.children.push(Rc::clone(current_node_ptr));
                    found_any_match = true;
""", """                if activity_node.contains_other(&current_node) {
                    activity_node.children.push(Rc::clone(current_node_ptr));
                    found_any_match = true;
                    break;
""")],
  """
use ficus_backend::features::analysis::patterns::{repeat_sets::*, tandem_arrays::SubArrayInTraceInfo};
fn main() {
    let log = vec![vec![1u64, 2, 3, 4, 5], vec![1, 2, 6], vec![1, 2, 3], vec![1, 2]];
    let repeats: Vec<SubArrayWithTraceIndex> = (0..4).map(|i| SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(0, log[i].len()), i)).collect();
    let mut all = build_repeat_set_tree_from_repeats(&log, &repeats, 0, |r| r.trace_index.to_string());
    let mut parents = BTreeSet::new();
    while let Some(n) = all.pop() {
        for c in &n.borrow().children {
            if c.borrow().name == "3" {
                parents.insert(n.borrow().name.clone());
            }
            all.push(Rc::clone(c));
        }
    }
    assert!(parents.contains("1") && parents.contains("2"), "{:?}", parents);
}
""", 'a set inside two others of one size, below the largest ones', 'it becomes the child of one of them only')

S('c40-same-size', 'C40',
  [('features/analysis/patterns/activity_instances.rs', 'activities_set[0].borrow().len() < current_activity.as_ref()', 'activities_set[0].borrow().len() <= current_activity.as_ref()')],
  """
use ficus_backend::features::analysis::patterns::{activity_instances::*, repeat_sets::*, tandem_arrays::SubArrayInTraceInfo};
fn main() {
    let log = vec![vec![1u64, 3, 9, 1, 2, 9]];
    let repeats = vec![SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(0, 2), 0), SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(3, 2), 0)];
    let mut top = build_repeat_set_tree_from_repeats(&log, &repeats, 0, |r| r.sub_array.start_index.to_string());
    let f = extract_activities_instances(&log, &mut top, &ActivityNarrowingKind::DontNarrow, 0, &ActivityInTraceFilterKind::NoFilter);
    let f: Vec<(usize, usize)> = f[0].iter().map(|i| (i.start_pos, i.length)).collect();
    assert_eq!(f, vec![(0, 2), (3, 2)]);
}
""", 'two activities of the same size that share a class', 'an instance is cut where only the other activity of that size covers it')

S('c41-ignored-break', 'C41',
  [('features/analysis/event_log_info.rs', """                    if ignored_events.contains(&current_name) {
                        continue;""", """                    if ignored_events.contains(&current_name) {
                        prev_event_name = None;
                        continue;""")],
  """
use ficus_backend::features::analysis::event_log_info::*;
fn main() {
    let l = log(&["a x b", "a b"]);
    let ignored = set(&["x"]);
    let i = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(&l, &ignored));
    assert_eq!(i.dfg_info().get_directly_follows_count(&"a".to_string(), &"b".to_string()), 2);
}
""", 'an ignored event between two others', 'the two are not counted as following each other', also=['C42'])

S('c42-order', 'C42',
  [('features/analysis/entropy/pos_entropy_fast.rs', '        ordered_positions_of_ignored_events.sort();\n', '')],
  """
use ficus_backend::features::analysis::entropy::{pos_entropy::*, pos_entropy_fast::*};
fn main() {
    for _ in 0..20 {
        let l = log(&["x y a b x y", "b a", "a b x"]);
        let ignored = set(&["x", "y"]);
        for e in ["a", "b"] {
            let slow = calculate_pos_entropy_for_event(&l, &e.to_string(), Some(&ignored));
            let fast = calculate_pos_entropy_for_event_fast(&l, &e.to_string(), Some(&ignored));
            assert!((slow - fast).abs() < 1e-9, "{} {} {}", e, slow, fast);
        }
    }
}
""", 'two ignored classes whose events alternate in a trace', 'the positions of the other events are wrong')

S('c43-shared-copy', 'C43',
  [('event_log/core/event/events_holder.rs', '.map(|ptr| Rc::new(RefCell::new(ptr.borrow().clone())))', '.map(Rc::clone)')],
  """
use ficus_backend::features::mutations::mutations::*;
fn main() {
    let l = log(&["a b", "b"]);
    let mut c = l.clone();
    rename_events(&mut c, "z", |e| e.name() == "b");
    assert_eq!(c.to_raw_vector(), vec![vec!["a", "z"], vec!["z"]]);
    assert_eq!(l.to_raw_vector(), vec![vec!["a", "b"], vec!["b"]]);
}
""", 'renaming events of a copy', 'the log that was copied changes too')

S('c44-no-split-stop', 'C44',
  [('features/mutations/split.rs', """        all_groups_have_one_trace = false;
        let mut hashes""", """        let mut hashes"""),
   ('features/mutations/split.rs', """        for (_, new_group) in hashes_to_traces {""", """        all_groups_have_one_trace &= hashes_to_traces.len() == 1;
        for (_, new_group) in hashes_to_traces {""")],
  """
use ficus_backend::features::mutations::split::*;
fn main() {
    assert_eq!(get_traces_groups_indices(&log(&["a b", "b a", "a b"])), vec![vec![0, 2], vec![1]]);
    assert_eq!(get_traces_groups_indices(&log(&["a b", "a c", "a b"])), vec![vec![0, 2], vec![1]]);
}
""", 'traces of one length that share their first events', 'different traces are in one group')

S('c45-deep', 'C45',
  [('features/analysis/patterns/activity_instances.rs', """        for underlying_event in underlying_events {
            substitute_underlying_events::<TLog>(underlying_event, trace);
        }""", """        for underlying_event in underlying_events {
            trace.push(underlying_event.clone());
        }""")],
  """
use ficus_backend::features::analysis::patterns::{activity_instances::*, repeat_sets::*};
fn up(l: &SimpleEventLog, len: usize) -> SimpleEventLog {
    let node = Rc::new(RefCell::new(ActivityNode { repeat_set: None, event_classes: HashSet::new(), children: vec![], level: 0, name: "A".to_string() }));
    let i = vec![vec![ActivityInTraceInfo { node, start_pos: 0, length: len }]];
    create_new_log_from_activities_instances(l, &i, &UndefActivityHandlingStrategy::InsertAllEvents, &|i: &ActivityInTraceInfo| {
        Rc::new(RefCell::new(SimpleEvent::new_with_min_date(i.node.borrow().name.clone())))
    })
}
fn main() {
    for twice in [false, true] {
        let mut l = up(&log(&["a b c"]), 2);
        if twice {
            l = up(&l, 1);
        }
        let logs = create_logs_for_activities(&ActivitiesLogSource::Log(&l));
        assert_eq!(logs["A"].borrow().to_raw_vector(), vec![vec!["a", "b"]]);
    }
}
""", 'a log that was abstracted twice', 'the events below an activity are activities themselves and not the original events')

S('c46-level', 'C46',
  [('features/analysis/patterns/entry_points.rs', "        &repeats,\n        activities_context.activity_level,\n", "        &repeats,\n        activities_context.activity_level.max(activities_context.min_events_in_activity),\n")],
  """
use ficus_backend::features::analysis::patterns::{activity_instances::*, contexts::*, entry_points::*, repeat_sets::*};
use std::hash::{Hash, Hasher};
fn main() {
    for min in [0, 2] {
        let p = PatternsDiscoveryContext::new(
            Rc::new(RefCell::new(log(&["a b a b c", "a b"]))), PatternsKind::MaximalTandemArrays(4), PatternsDiscoveryStrategy::FromAllTraces,
            |e: &SimpleEvent| e.name().bytes().next().unwrap() as u64,
        );
        let c = ActivitiesDiscoveryContext::new(p, 1, min, ActivityNarrowingKind::DontNarrow, ActivityInTraceFilterKind::NoFilter, |_: &SubArrayWithTraceIndex| "A".to_string());
        assert_eq!(build_repeat_set_tree(&c)[0].borrow().level, 1);
    }
}
""", 'a smallest number of events of an activity above its level', 'the activities get another level')

S('c47-loop-place', 'C47',
  [('features/discovery/alpha/alpha.rs', """            for event in precedes_events.keys() {
                if event != transition_name {
                    alpha_set.insert_left_class(event.to_owned());
                }
            }""", """            for event in precedes_events.keys() {
                if event != transition_name && !one_length_loop_transitions.contains(event) {
                    alpha_set.insert_left_class(event.to_owned());
                }
            }""")],
  """
use ficus_backend::features::analysis::event_log_info::*;
use ficus_backend::features::discovery::alpha::{alpha::*, providers::alpha_plus_provider::*};
fn places(l: &SimpleEventLog) -> Vec<String> {
    let loops = find_transitions_one_length_loop(l);
    let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(l, &loops));
    let provider = AlphaPlusRelationsProviderImpl::new(&info, l, &loops);
    let net = discover_petri_net_alpha_plus(l, &provider, false);
    let mut r: Vec<String> = net.find_transition_by_name("y").unwrap().incoming_arcs().iter().map(|a| net.place(&a.place_id()).name().clone()).collect();
    r.sort();
    r
}
fn main() {
    assert_eq!(places(&log(&["a y y b", "a b"])), vec!["({a}, {b})"]);
    assert_eq!(places(&log(&["a x x y y b", "a b"])), vec!["({x}, {b})"]);
}
""", 'two loops of length one, one directly after the other', 'the second one is attached to another place')

S('c48-best', 'C48',
  [('features/discovery/heuristic/relations_provider.rs', 'best_value * (1.0 - self.relative_to_best_threshold)', 'best_value - self.relative_to_best_threshold')],
  """
use ficus_backend::features::discovery::heuristic::heuristic_miner::*;
fn main() {
    // a -> b: 4 times, measure 4 / 5; a -> c: twice, measure 2 / 3; with 0.15 both are at least 0.8 * 0.85 = 0.68? only the first one
    let net = discover_petri_net_heuristic(&log(&["a b", "a b", "a b", "a b", "a c", "a c"]), 0.5, 1, 0.15, 0.6, 0.6);
    assert_eq!(net.find_transition_by_name("b").unwrap().incoming_arcs().len(), 1);
    assert_eq!(net.find_transition_by_name("c").unwrap().incoming_arcs().len(), 0);
}
""", 'a dependency between the best one less the threshold and the best one less its share', 'a dependency too many is in the net')

S('c49-trace-frequency', 'C49',
  [('features/discovery/petri_net/annotations.rs', 'use crate::event_log::core::event_log::EventLog;', 'use crate::event_log::core::{event_log::EventLog, trace::trace::Trace};'),
   ('features/discovery/petri_net/annotations.rs', 'pair.1 as f64 / log.traces().len() as f64', 'pair.1 as f64 / log.traces().iter().filter(|trace| !trace.borrow().events().is_empty()).count() as f64')],
  """
use ficus_backend::features::discovery::petri_net::{annotations::*, marking::*, petri_net::*, place::*, transition::*};
fn main() {
    for (l, f) in [(log(&["a", "a"]), 1.0), (log(&["a", "", "", "a"]), 0.5)] {
        let mut net = DefaultPetriNet::empty();
        let p = net.add_place(Place::empty());
        let t = net.add_transition(Transition::empty("a".to_string(), false, None));
        net.connect_place_to_transition(&p, &t, None);
        net.set_initial_marking(Marking::new(vec![SingleMarking::new(p, 1)]));
        let r = annotate_with_trace_frequency(&l, &net, false).unwrap();
        assert_eq!(r.values().cloned().collect::<Vec<f64>>(), vec![f]);
    }
}
""", 'a log with empty traces', 'the frequencies are not per trace of the log')

S('c50-parallel-edges', 'C50',
  [('utils/graph/graph_clusters.rs', """                            edges.push(edge_data.as_ref());
                        }
                    }
""", """                            edges.push(edge_data.as_ref());
                            break;
                        }
                    }
""")],
  """
use ficus_backend::utils::graph::graph::Graph;
fn main() {
    for members in 1..4 {
        let mut g: Graph<String, i32> = Graph::empty();
        let other = g.add_node(Some("x".to_string()));
        let ids: Vec<u64> = (0..members).map(|i| g.add_node(Some(format!("m{}", i)))).collect();
        for (i, m) in ids.iter().enumerate() {
            g.connect_nodes(&other, m, Some(10 + i as i32));
        }
        g.merge_nodes_into_one(&ids.iter().map(|i| *i).collect(), |_| None, |es| Some(es.iter().map(|e| **e.as_ref().unwrap()).sum()));
        let edges = g.all_edges();
        assert_eq!(edges.len(), 1);
        assert_eq!(**edges[0].data().unwrap(), (0..members).map(|i| 10 + i).sum::<i32>());
    }
}
""", 'a node with edges to two of the merged nodes', 'only one of the edges is part of the joined edge', ['C51'])

S('c50-id-of-no-node', 'C50',
  [('utils/graph/graph.rs', """            if let Some(_) = self.nodes.get(second_node_id) {
                if let Some(connections) = self.connections.get_mut(first_node_id) {
                    connections.insert(second_node_id.to_owned(), edge_data);
                } else {
                    let new_connections""", """            if let Some(connections) = self.connections.get_mut(first_node_id) {
                connections.insert(second_node_id.to_owned(), edge_data);
            } else if let Some(_) = self.nodes.get(second_node_id) {
                {
                    let new_connections""")],
  """
use ficus_backend::utils::graph::graph::Graph;
fn main() {
    let mut g: Graph<String, i32> = Graph::empty();
    let a = g.add_node(None);
    let b = g.add_node(None);
    g.connect_nodes(&a, &(b + 1000), Some(1));
    assert_eq!(g.all_edges().len(), 0);
    g.connect_nodes(&a, &b, Some(1));
    g.connect_nodes(&a, &(b + 1000), Some(1));
    assert_eq!(g.all_edges().len(), 1);
}
""", 'an id of no node connected to a node that has an edge already', 'an edge to nowhere is in the graph')

S('c51-no-reset', 'C51',
  [('features/discovery/fuzzy/fuzzy_metrics_provider.rs', """                        count += 1;
                        last_seen_first = None;
""", """                        count += 1;
                        last_seen_first = if i + 1 < events.len() { last_seen_first } else { None };
""")],
  """
use chrono::{DateTime, Duration, Utc};
use ficus_backend::features::{analysis::event_log_info::*, discovery::fuzzy::fuzzy_metrics_provider::*};
fn main() {
    for (t, e) in [("a b", 1000.0), ("a c b", 2000.0), ("a b a c b", 1500.0), ("a b c b", 1000.0)] {
        let mut l = SimpleEventLog::empty();
        let mut trace = SimpleTrace::empty();
        for (i, n) in t.split(' ').enumerate() {
            trace.push(Rc::new(RefCell::new(SimpleEvent::new(n.to_string(), DateTime::<Utc>::MIN_UTC + Duration::seconds(i as i64)))));
        }
        l.push(Rc::new(RefCell::new(trace)));
        let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(&l));
        let mut p = FuzzyMetricsProvider::new(&l, &info);
        assert_eq!(p.proximity_correlation(&"a".to_string(), &"b".to_string()), e, "{}", t);
    }
}
""", 'a second class that occurs twice after the first one', 'the time to a later occurrence is counted too')

S('c51-both-below', 'C51',
  [('features/discovery/fuzzy/fuzzy_miner.rs', 'if first_second_sig < preserve_threshold || second_first_sig < preserve_threshold {', 'if first_second_sig < preserve_threshold && second_first_sig < preserve_threshold {')],
  """
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::*;
fn edges(l: &SimpleEventLog, preserve: f64) -> usize { discover_graph_fuzzy(l, 0.0, 0.0, preserve, 0.0, 0.5, 0.0, 0.0).all_edges().len() }
fn main() {
    let l = log(&["a b", "a b", "a b", "b a", "b c", "b c"]);
    assert_eq!(edges(&l, 0.0), 3);
    assert_eq!(edges(&l, 2.0), 2);
    // a to b has 1, b to a (1 / 3 + 1) / 2
    assert_eq!(edges(&l, 0.8), 2);
}
""", 'two classes that follow each other of which only one relation is below the threshold', 'the conflict is not resolved')

S('c51-not-all-clusters', 'C51',
  [('features/discovery/fuzzy/fuzzy_miner.rs', """            all_clusters = false;
            break;
""", """            all_clusters = nodes.len() > 1;
            continue;
""")],
  """
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::*;
fn main() {
    // a is followed by b, of a cluster, and by x, which is in none; b comes after a and x
    let l = log(&["a b y", "a x", "a y x", "x x b", "y y y"]);
    for _ in 0..20 {
        let g = discover_graph_fuzzy(&l, 0.0, 0.0, 0.0, 0.0, 0.5, 0.0, 4.0);
        let mut nodes: Vec<String> = g.all_nodes().iter().map(|n| n.data().unwrap().clone()).collect();
        nodes.sort();
        assert_eq!(nodes, vec!["Cluster[a]", "Cluster[b]", "x", "y"]);
    }
}
""", 'a cluster one of whose successors is in no cluster', 'it is joined all the same')

XES = '''
use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event::event::EventPayloadValue;
use ficus_backend::event_log::xes::{reader::file_xes_log_reader::read_event_log, writer::xes_event_log_writer::*, xes_event::*, xes_event_log::*, xes_trace::*};

fn scratch() -> String {
    std::env::temp_dir().join(format!("demo-xes-{}.xes", std::process::id())).to_str().unwrap().to_string()
}

fn trip(l: &XesEventLogImpl) -> XesEventLogImpl {
    let p = scratch();
    write_log(l, &p).unwrap();
    let r = read_event_log(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    r
}

fn add(l: &mut XesEventLogImpl, names: &[&str], payload: &[(&str, EventPayloadValue)]) {
    let mut t = XesTraceImpl::empty();
    for n in names {
        let p = payload.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        t.push(Rc::new(RefCell::new(XesEventImpl::new_all_fields(Rc::new(Box::new(n.to_string())), DateTime::<Utc>::MIN_UTC + Duration::seconds(7), Some(p)))));
    }
    l.push(Rc::new(RefCell::new(t)));
}

fn payloads(l: &XesEventLogImpl) -> Vec<Vec<(String, EventPayloadValue)>> {
    let one = |e: &XesEventImpl| e.ordered_payload().iter().map(|(k, v)| (k.to_string(), (*v).clone())).collect::<Vec<_>>();
    l.traces().iter().flat_map(|t| t.borrow().events().iter().map(|e| one(&e.borrow())).collect::<Vec<_>>()).collect()
}
'''

S('c52-after-empty-trace', 'C52',
  [('event_log/xes/writer/xes_event_log_writer.rs', """            if events.len() == 0 {
                continue;
""", """            if events.len() == 0 {
                break;
""")],
  XES + """
fn main() {
    let mut l = XesEventLogImpl::empty();
    add(&mut l, &["a", "b"], &[]);
    assert_eq!(trip(&l).to_raw_vector(), l.to_raw_vector());
    add(&mut l, &[], &[]);
    add(&mut l, &["c"], &[]);
    assert_eq!(trip(&l).to_raw_vector(), vec![vec!["a", "b"], vec!["c"]]);
}
""", 'a log with an empty trace before another one', 'the traces after the empty one are not written')

S('c52-default-wins', 'C52',
  [('event_log/xes/reader/xes_log_trace_reader.rs', """                if payload.contains_key(key) {
                    *payload.get_mut(key).unwrap() = payload_value;
                } else {
""", """                if !payload.contains_key(key) {
""")],
  XES + """
fn main() {
    let mut l = XesEventLogImpl::empty();
    let d = HashMap::from([("cost".to_string(), EventPayloadValue::Int64(1)), ("org".to_string(), EventPayloadValue::Boolean(true))]);
    l.globals_mut().insert("event".to_string(), d);
    add(&mut l, &["a"], &[]);
    add(&mut l, &["b"], &[("cost", EventPayloadValue::Int64(5))]);
    let p = payloads(&trip(&l));
    let e = |n| vec![("cost".to_string(), EventPayloadValue::Int64(n)), ("org".to_string(), EventPayloadValue::Boolean(true))];
    assert_eq!(p, vec![e(1), e(5)]);
}
""", 'an event with an attribute that has a default, with another value', 'the event gets the default')

S('c52-large-numbers', 'C52',
  [('event_log/xes/reader/utils.rs', """        INT_TAG_NAME => match value.parse::<i64>() {
            Err(_) => None,
            Ok(int_value) => Some(EventPayloadValue::Int64(int_value)),
""", """        INT_TAG_NAME => match value.parse::<i32>() {
            Err(_) => None,
            Ok(int_value) => Some(EventPayloadValue::Int64(int_value as i64)),
""")],
  XES + """
fn main() {
    for n in [0, -5, 2147483647, 2147483648, i64::MAX, i64::MIN] {
        let mut l = XesEventLogImpl::empty();
        add(&mut l, &["a"], &[("cost", EventPayloadValue::Int64(n))]);
        assert_eq!(payloads(&trip(&l)), payloads(&l));
    }
}
""", 'a number above 32 bits', 'the attribute is lost')

S('c52-date-of-defaults', 'C52',
  [('event_log/xes/reader/xes_log_trace_reader.rs', """                if let EventPayloadValue::Date(parsed_date) = payload_value {
                    *date = Some(parsed_date);
                }
""", """                if let EventPayloadValue::Date(parsed_date) = payload_value {
                    *date = Some((*date).map_or(parsed_date, |known_date| known_date.max(parsed_date)));
                }
""")],
  XES + """
fn main() {
    let m = DateTime::<Utc>::MIN_UTC;
    for (default, s) in [(3, 7), (7, 7), (9, 7)] {
        let mut l = XesEventLogImpl::empty();
        let d = HashMap::from([("time:timestamp".to_string(), EventPayloadValue::Date(m + Duration::seconds(default)))]);
        l.globals_mut().insert("event".to_string(), d);
        add(&mut l, &["a"], &[]);
        let r = trip(&l);
        let t = *r.traces()[0].borrow().events()[0].borrow().timestamp();
        assert_eq!(t, m + Duration::seconds(s));
    }
}
""", 'a default date of events later than the date of an event', 'the event gets the default date')

PNML = '''
use ficus_backend::features::discovery::petri_net::{petri_net::*, place::Place, pnml_serialization::*, transition::Transition};

fn net(places: &[&str], ts: &[&str], arcs: &[(usize, usize, bool)]) -> (DefaultPetriNet, Vec<u64>, Vec<u64>) {
    let mut n: DefaultPetriNet = PetriNet::empty();
    let p: Vec<u64> = places.iter().map(|x| n.add_place(Place::with_name(x.to_string()))).collect();
    let t: Vec<u64> = ts.iter().map(|x| n.add_transition(Transition::empty(x.to_string(), false, Some(x.to_string())))).collect();
    for (i, j, out) in arcs {
        if *out { n.connect_transition_to_place(&t[*j], &p[*i], None) } else { n.connect_place_to_transition(&p[*i], &t[*j], None) }
    }
    (n, p, t)
}
'''

S('c53-same-names', 'C53',
  [('features/discovery/petri_net/pnml_serialization.rs', """    places.sort_by(|left, right| left.name().cmp(right.name()));
""", """    places.sort_by(|left, right| left.name().cmp(right.name()));
    places.dedup_by(|left, right| left.name() == right.name());
""")],
  PNML + """
fn main() {
    for names in [vec!["p", "q"], vec!["p", "p"], vec!["q", "p", "q"]] {
        let (n, p, _) = net(&names, &["a"], &[(0, 0, false), (1, 0, true)]);
        let text = serialize_to_pnml(&n, false).unwrap();
        for id in p {
            assert_eq!(text.matches(&format!("<place id=\\"{}\\">", id)).count(), 1, "{}", text);
        }
    }
}
""", 'two places of the same name', 'only one is written; arcs go to a place that is not there')

S('c53-outgoing-id', 'C53',
  [('features/discovery/petri_net/pnml_serialization.rs', """                (
                    TARGET_ATTR_NAME,
                    create_place_id(net.place(&arc.0.place_id()), use_names_as_ids).as_str(),
                ),
                (SOURCE_ATTR_NAME, create_transition_id(transition, use_names_as_ids).as_str()),
""", """                (
                    TARGET_ATTR_NAME,
                    create_place_id(net.place(&outgoing_arcs_place(transition, arc.0)), use_names_as_ids).as_str(),
                ),
                (SOURCE_ATTR_NAME, create_transition_id(transition, use_names_as_ids).as_str()),
"""), ('features/discovery/petri_net/pnml_serialization.rs', """fn create_place_id(place: &Place""", """fn outgoing_arcs_place<TTransitionData, TArcData>(transition: &Transition<TTransitionData, TArcData>, arc: &Arc<TArcData>) -> u64
where
    TTransitionData: ToString,
{
    let arcs = transition.outgoing_arcs();
    match arcs.len() > transition.incoming_arcs().len() + 1 {
        true => arcs[0].place_id(),
        false => arc.place_id(),
    }
}

fn create_place_id(place: &Place""")],
  PNML + """
fn main() {
    for arcs in [vec![(0, 0, false), (1, 0, true), (2, 0, true)], vec![(1, 0, true), (2, 0, true)]] {
        let (n, _, _) = net(&["p", "q", "r"], &["a"], &arcs);
        let text = serialize_to_pnml(&n, true).unwrap();
        for (p, _, out) in &arcs {
            let p = ["p", "q", "r"][*p];
            let e = if *out { format!("target=\\"{}\\" source=\\"a\\"", p) } else { format!("source=\\"{}\\" target=\\"a\\"", p) };
            assert_eq!(text.matches(&e).count(), 1, "{}", text);
        }
    }
}
""", 'a transition with at least two more arcs to places than from places', 'the arcs to places all go to the first one')
