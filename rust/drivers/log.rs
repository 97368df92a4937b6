use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::NameEventHasher;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::log_iterator::LogIterator;
use ficus_backend::event_log::core::trace::trace::{Trace, TraceEventsPositions, TraceInfo};
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog, SimpleTrace};
use ficus_backend::features::analysis::directly_follows_graph::construct_dfg;
use ficus_backend::features::analysis::entropy::dfg_entropy::{calculate_default_dfg_entropy, calculate_laplace_dfg_entropy};
use ficus_backend::features::analysis::entropy::pos_entropy::calculate_pos_entropies;
use ficus_backend::features::analysis::entropy::pos_entropy_fast::calculate_pos_entropies_fast;
use ficus_backend::features::analysis::event_log_info::{count_events, EventLogInfo, EventLogInfoCreationDto};
use ficus_backend::features::analysis::patterns::activity_instances::{
    count_underlying_events, create_log_from_unattached_events, create_logs_for_activities, create_new_log_from_activities_instances,
    create_vector_of_immediate_underlying_events, create_vector_of_underlying_events, substitute_underlying_events, ActivitiesLogSource, ActivityInTraceInfo,
    UndefActivityHandlingStrategy,
};
use ficus_backend::features::analysis::patterns::activity_instances::{create_activity_name, extract_activities_instances, ActivityInTraceFilterKind, ActivityNarrowingKind};
use ficus_backend::features::analysis::patterns::contexts::{
    ActivitiesDiscoveryContext, ActivitiesInstancesDiscoveryContext, PatternsDiscoveryContext, PatternsDiscoveryStrategy,
};
use ficus_backend::features::analysis::patterns::entry_points::{self, PatternsKind};
use ficus_backend::features::analysis::patterns::repeat_sets::{build_repeat_set_tree_from_repeats, build_repeat_sets, ActivityNode, SubArrayWithTraceIndex};
use ficus_backend::features::analysis::patterns::repeats::{find_maximal_repeats, find_near_super_maximal_repeats, find_super_maximal_repeats};
use ficus_backend::features::analysis::patterns::tandem_arrays::{find_maximal_tandem_arrays, find_primitive_tandem_arrays, SubArrayInTraceInfo};
use ficus_backend::features::mutations::filtering::{filter_log_by_name, filter_log_by_names};
use ficus_backend::features::mutations::mutations::{add_artificial_start_end_activities, rename_events};
use ficus_backend::features::mutations::split::{get_traces_groups_indices, split_by_traces};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
include!("common.rs");

include!("events.rs");

fn map(m: Option<&HashMap<Str, usize>>) -> String {
    m.map_or("None".into(), |m| list(m.iter().map(|(k, v)| format!("({:?}, {})", k, v)).collect()))
}

fn state(l: &SimpleEventLog, classes: &Vec<Str>) -> String {
    let mut o = vec![];
    for t in l.traces() {
        let names = t.borrow().to_names_vec();
        let mut b = t.borrow_mut();
        let i = b.get_or_create_trace_info();
        let counts = (i.events_count(), map(Some(i.events_counts())));
        let p = b.get_or_create_events_positions();
        let pos = list(classes.iter().map(|c| p.event_positions(c).map_or("None".into(), |v| format!("{:?}", v))).collect());
        o.push(format!("({:?}, {}, {}, {})", names, counts.0, counts.1, pos));
    }
    format!("({}, {}, {:?}, {:?}, {})", dump(l), list(o), l.to_raw_vector(), l.to_hashes_event_log(&NameEventHasher::new()), count_events(l))
}

fn nodes(j: &mut Job) -> Vec<Rc<RefCell<ActivityNode>>> {
    (0..j.n())
        .map(|_| {
            let name = j.name();
            let level = j.n();
            Rc::new(RefCell::new(ActivityNode { repeat_set: None, event_classes: HashSet::new(), children: vec![], level, name }))
        })
        .collect()
}

fn instances(j: &mut Job, nodes: &Vec<Rc<RefCell<ActivityNode>>>) -> Vec<Vec<ActivityInTraceInfo>> {
    (0..j.n())
        .map(|_| {
            (0..j.n())
                .map(|_| {
                    let (n, start_pos, length) = (j.n(), j.n(), j.n());
                    ActivityInTraceInfo { node: Rc::clone(&nodes[n]), start_pos, length }
                })
                .collect()
        })
        .collect()
}

fn abstracted(l: &SimpleEventLog, inst: &Vec<Vec<ActivityInTraceInfo>>, strategy: usize, undef: &Str, start: usize) -> SimpleEventLog {
    let next = Rc::new(RefCell::new(start));
    let fresh = |n: &Rc<RefCell<usize>>, name: Str| {
        *n.borrow_mut() += 1;
        event(name, *n.borrow())
    };
    let (n2, u2) = (next.clone(), undef.clone());
    let s = match strategy {
        0 => UndefActivityHandlingStrategy::DontInsert,
        1 => UndefActivityHandlingStrategy::InsertAsSingleEvent(Box::new(move || {
            *n2.borrow_mut() += 1;
            event(u2.clone(), *n2.borrow())
        })),
        _ => UndefActivityHandlingStrategy::InsertAllEvents,
    };
    create_new_log_from_activities_instances(l, inst, &s, &|a: &ActivityInTraceInfo| fresh(&next, a.node.borrow().name.clone()))
}

fn logs(m: HashMap<Str, Rc<RefCell<SimpleEventLog>>>) -> String {
    list(m.iter().map(|(k, l)| format!("({:?}, {})", k, dump(&l.borrow()))).collect())
}

/// flat: the events below every event of every trace
fn below(l: &SimpleEventLog) -> String {
    list(l.traces().iter().map(|t| {
        list(t.borrow().events().iter().map(|e| {
            let mut s = <SimpleTrace as Trace>::empty();
            substitute_underlying_events::<SimpleEventLog>(e, &mut s);
            format!("({}, {}, {})", evs(s.events()), evs(&create_vector_of_underlying_events::<SimpleEventLog>(e)),
                    evs(&create_vector_of_immediate_underlying_events::<SimpleEventLog>(e)))
        }).collect())
    }).collect())
}

/// the class of an event: its name
#[cfg(names)]
fn class(e: &SimpleEvent) -> El {
    match e.name() {
        Str::Sym(s) => *s,
        _ => panic!("a text has no class"),
    }
}
#[cfg(not(names))]
fn class(e: &SimpleEvent) -> El { e.name()[1..].parse().unwrap() }

fn subs(r: &Vec<Vec<SubArrayInTraceInfo>>) -> String {
    format!("{:?}", r.iter().map(|t| t.iter().map(|a| (a.start_index, a.length)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn sets(r: &Vec<SubArrayWithTraceIndex>) -> String {
    format!("{:?}", r.iter().map(|a| (a.trace_index, a.sub_array.start_index, a.sub_array.length)).collect::<Vec<_>>())
}
fn node(n: &Rc<RefCell<ActivityNode>>) -> String {
    let n = n.borrow();
    format!("({}, {}, {:?}, {}, {})", sets(&n.repeat_set.clone().into_iter().collect()), n.level, n.name, n.len(), list(n.children.iter().map(node).collect()))
}
fn tree(r: &Vec<Rc<RefCell<ActivityNode>>>) -> String { list(r.iter().map(node).collect()) }
fn insts(r: &Vec<Vec<ActivityInTraceInfo>>) -> String {
    format!("{:?}", r.iter().map(|t| t.iter().map(|a| (a.start_pos, a.length, a.node.borrow().name.clone())).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn run(mut j: Job) -> String {
    let mut next = 0;
    match j.cmd.clone().as_str() {
        "info" => {
            let (fake, ignore) = (j.n(), j.n());
            let ig: HashSet<Str> = names(&mut j).into_iter().collect();
            let l = log(&mut j, &mut next);
            let mut classes = names(&mut j);
            let info = EventLogInfo::create_from(match (fake, ignore) {
                (0, 0) => EventLogInfoCreationDto::default(&l),
                (0, _) => EventLogInfoCreationDto::default_ignore(&l, &ig),
                (1, 0) => EventLogInfoCreationDto::default_fake_events(&l),
                (1, _) => EventLogInfoCreationDto::default_fake_ignored(&l, Some(&ig)),
                _ => EventLogInfoCreationDto::default_fake_ignored(&l, None),
            });
            classes.push(Str::from("FAKE_START"));
            classes.push(Str::from("FAKE_END"));
            let d = info.dfg_info();
            let per = list(classes.iter().map(|c| {
                let row = classes.iter().map(|o| d.get_directly_follows_count(c, o)).collect::<Vec<_>>();
                let rel = classes.iter().map(|o| d.is_in_directly_follows_relation(c, o) as usize).collect::<Vec<_>>();
                format!("({:?}, {}, {:?}, {:?}, {}, {}, {})", c, info.event_count(c), row, rel, map(d.get_followed_events(c)), map(d.get_precedes_events(c)),
                        d.is_event_with_single_follower(c) as usize)
            }).collect());
            format!("({}, {}, {}, {:?}, {:?}, {:?}, {}, {}, {})", info.traces_count(), info.events_count(), info.event_classes_count(),
                    info.all_event_classes(), info.start_event_classes().iter().collect::<Vec<_>>(), info.end_event_classes().iter().collect::<Vec<_>>(), per, count_events(&l), dump(&l))
        }
        "dfg" => {
            let l = log(&mut j, &mut next);
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(&l));
            let g = construct_dfg(&info);
            let text = |i: &u64| format!("{:?}", g.node(i).unwrap().data().unwrap());
            format!("({}, {})", list(g.all_nodes().iter().map(|n| format!("{:?}", n.data().unwrap())).collect()),
                    list(g.all_edges().iter().map(|e| format!("({}, {}, {:?})", text(e.from_node()), text(e.to_node()), e.data().unwrap())).collect()))
        }
        "entropy" => {
            let (kind, ignore) = (j.n(), j.n());
            let ig: HashSet<Str> = names(&mut j).into_iter().collect();
            let ig = if ignore == 1 { Some(ig) } else { None };
            let l = log(&mut j, &mut next);
            let m = match kind {
                0 => calculate_default_dfg_entropy(&l, ig.as_ref()),
                1 => calculate_laplace_dfg_entropy(&l, ig.as_ref()),
                2 => calculate_pos_entropies(&l, &ig),
                _ => calculate_pos_entropies_fast(&l, ig.as_ref()),
            };
            format!("({}, {})", list(m.iter().map(|(k, v)| format!("({:?}, '{:?}')", k, v)).collect()), dump(&l))
        }
        "history" => {
            let mut l = log(&mut j, &mut next);
            let classes = names(&mut j);
            let mut old = vec![];
            for _ in 0..j.n() {
                match j.word().as_str() {
                    "touch" => drop(state(&l, &classes)),
                    "clone" => {
                        let c = l.clone();
                        old.push(l);
                        l = c;
                    }
                    "name" => { let n = j.name(); filter_log_by_name(&mut l, &n) }
                    "names" => { let n: HashSet<Str> = names(&mut j).into_iter().collect(); filter_log_by_names(&mut l, &n) }
                    "rename" => {
                        let n = j.name();
                        let which: HashSet<Str> = names(&mut j).into_iter().collect();
                        rename_events(&mut l, &n, |e| which.contains(e.name()))
                    }
                    "artificial" => { let (s, e) = (j.n(), j.n()); add_artificial_start_end_activities(&mut l, s == 1, e == 1) }
                    "traces" => { let (n, k) = (j.n(), j.n()); l.filter_traces(&|t: &SimpleTrace, i: &usize| t.events().len() < n || *i == k) }
                    "push" => {
                        let k = j.n();
                        next += 1;
                        let e = event(j.name(), next);
                        if k < l.traces().len() { Trace::push(&mut *l.traces()[k].borrow_mut(), e) }
                    }
                    "trace" => { let t = trace(&mut j, &mut next); EventLog::push(&mut l, Rc::new(RefCell::new(t))) }
                    x => panic!("{}", x),
                }
            }
            format!("({}, {})", state(&l, &classes), list(old.iter().map(|l| state(l, &classes)).collect()))
        }
        "split" => {
            let l = log(&mut j, &mut next);
            let g = list(split_by_traces(&l).iter().map(|g| list(g.iter().map(|t| evs(t.borrow().events())).collect())).collect());
            let mut it = vec![];
            let i = get_traces_groups_indices(&l);
            for mut t in LogIterator::new(Rc::new(RefCell::new(l.clone())), Rc::new(|e: &SimpleEvent| one(e))) {
                let mut seen = vec![];
                while let Some(x) = t.next() {
                    t.step_back();
                    assert!(t.next() == Some(x.clone()));
                    seen.push(x);
                }
                it.push(list(seen));
            }
            format!("({:?}, {}, {}, {})", i, g, list(it), dump(&l))
        }
        "abstract" => {
            let strategy = j.n();
            let level = j.n();
            let undef = j.name();
            let l = log(&mut j, &mut next);
            let ns = nodes(&mut j);
            let inst = instances(&mut j, &ns);
            let a = abstracted(&l, &inst, strategy, &undef, 100);
            let second = j.n();
            let mut o = format!("{}, {}, {}, {}, {}, {}", dump(&a), below(&a), count_underlying_events(&a), logs(create_logs_for_activities(&ActivitiesLogSource::Log(&a))),
                logs(create_logs_for_activities(&ActivitiesLogSource::TracesActivities(&l, &inst, level))), dump(&create_log_from_unattached_events(&l, &inst)));
            if second == 1 {
                let ns = nodes(&mut j);
                let inst = instances(&mut j, &ns);
                let b = abstracted(&a, &inst, strategy, &undef, 200);
                let c = b.clone();
                o += &format!(", {}, {}, {}, {}, {}", dump(&b), below(&b), count_underlying_events(&b), logs(create_logs_for_activities(&ActivitiesLogSource::Log(&b))), below(&c));
            }
            format!("({}, {})", o, dump(&l))
        }
        "discover" => {
            let (kind, max, merged, level, least, narrow, filter, strategy, direct) = (j.n(), j.n(), j.n(), j.n(), j.n(), j.n(), j.n(), j.n(), j.n());
            let (from, to) = (j.el(), j.el());
            let l = log(&mut j, &mut next);
            let undef = j.name();
            // events of one name may be put into the class of another one
            let extract = |e: &SimpleEvent| { let c = class(e); if c == from { to } else { c } };
            let strat = || if merged == 1 { PatternsDiscoveryStrategy::FromSingleMergedTrace } else { PatternsDiscoveryStrategy::FromAllTraces };
            let nar = || match narrow { 0 => ActivityNarrowingKind::DontNarrow, 1 => ActivityNarrowingKind::StayTheSame, 2 => ActivityNarrowingKind::NarrowUp, _ => ActivityNarrowingKind::NarrowDown };
            let fil = || if filter == 0 { ActivityInTraceFilterKind::NoFilter } else { ActivityInTraceFilterKind::DefaultFilter };
            let l = Rc::new(RefCell::new(l));
            let name = |s: &SubArrayWithTraceIndex| create_activity_name(&*l.borrow(), s, None);
            let mut o;
            if direct == 1 {
                let w: Vec<Vec<El>> = l.borrow().traces().iter().map(|t| t.borrow().events().iter().map(|e| extract(&e.borrow())).collect()).collect();
                let p = match kind {
                    0 => find_maximal_repeats(&w, &strat()),
                    1 => find_super_maximal_repeats(&w, &strat()),
                    2 => find_near_super_maximal_repeats(&w, &strat()),
                    3 => find_primitive_tandem_arrays(&w, max),
                    _ => find_maximal_tandem_arrays(&w, max),
                };
                let s = build_repeat_sets(&w, &p);
                let mut t = build_repeat_set_tree_from_repeats(&w, &s, level, name);
                let i = extract_activities_instances(&w, &mut t, &nar(), least, &fil());
                o = format!("{}, {}, {}, {}", subs(&p), sets(&s), tree(&t), insts(&i));
                let a = abstracted(&l.borrow(), &i, strategy, &undef, 100);
                o += &format!(", {}, {}, {}", dump(&a), below(&a), logs(create_logs_for_activities(&ActivitiesLogSource::TracesActivities(&*l.borrow(), &i, level))));
            } else {
                let k = match kind {
                    0 => PatternsKind::MaximalRepeats,
                    1 => PatternsKind::SuperMaximalRepeats,
                    2 => PatternsKind::NearSuperMaximalRepeats,
                    3 => PatternsKind::PrimitiveTandemArrays(max),
                    _ => PatternsKind::MaximalTandemArrays(max),
                };
                let c = PatternsDiscoveryContext::new(Rc::clone(&l), k, strat(), extract);
                o = format!("{}, {}", subs(&entry_points::find_patterns(&c)), sets(&entry_points::find_repeats(&c)));
                let c = ActivitiesDiscoveryContext::new(c, level, least, nar(), fil(), name);
                o += &format!(", {}, {}", tree(&entry_points::build_repeat_set_tree(&c)), insts(&entry_points::discover_activities_instances(&c)));
                let m = logs(entry_points::create_logs_for_activities(&c, level));
                let id = Rc::new(RefCell::new(100));
                let (i2, u2) = (id.clone(), undef.clone());
                let u = match strategy {
                    0 => UndefActivityHandlingStrategy::DontInsert,
                    1 => UndefActivityHandlingStrategy::InsertAsSingleEvent(Box::new(move || { *i2.borrow_mut() += 1; event(u2.clone(), *i2.borrow()) })),
                    _ => UndefActivityHandlingStrategy::InsertAllEvents,
                };
                let c = ActivitiesInstancesDiscoveryContext::new(c, u, |a: &ActivityInTraceInfo| { *id.borrow_mut() += 1; event(a.node.borrow().name.clone(), *id.borrow()) });
                let a = entry_points::discover_activities_and_create_new_log(&c);
                o += &format!(", {}, {}, {}", dump(&a), below(&a), m);
            }
            let x = format!("({}, {})", o, dump(&l.borrow()));
            x
        }
        x => panic!("{}", x),
    }
}
