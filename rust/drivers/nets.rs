use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog, SimpleTrace};
use ficus_backend::features::analysis::event_log_info::{EventLogInfo, EventLogInfoCreationDto};
use ficus_backend::features::discovery::alpha::alpha::{discover_petri_net_alpha, discover_petri_net_alpha_plus, find_transitions_one_length_loop};
use ficus_backend::features::discovery::alpha::providers::alpha_plus_provider::AlphaPlusRelationsProviderImpl;
use ficus_backend::features::discovery::alpha::providers::alpha_provider::DefaultAlphaRelationsProvider;
use ficus_backend::features::discovery::heuristic::heuristic_miner::discover_petri_net_heuristic;
use ficus_backend::features::discovery::petri_net::annotations::{annotate_with_counts, annotate_with_frequencies, annotate_with_trace_frequency};
use ficus_backend::features::discovery::petri_net::marking::{ensure_initial_marking, Marking, SingleMarking};
use ficus_backend::features::discovery::petri_net::petri_net::{DefaultPetriNet, PetriNet};
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::replay::replay_petri_net;
use ficus_backend::features::discovery::petri_net::transition::Transition;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
include!("common.rs");
include!("events.rs");

fn marking(m: Option<&Marking>) -> String {
    m.map_or("None".into(), |m| format!("{:?}", m.active_places().iter().map(|p| (p.place_id(), p.tokens_count())).collect::<Vec<_>>()))
}

/// places, transitions with their arcs (arc, place), markings
fn shown(net: &DefaultPetriNet) -> String {
    let places = list(net.all_places().iter().map(|p| format!("({}, {:?})", p.id(), p.name())).collect());
    let ts = list(
        net.all_transitions()
            .iter()
            .map(|t| {
                let arcs = |a: Vec<(u64, u64)>| format!("{:?}", a);
                format!(
                    "({}, {:?}, {}, {}, {})",
                    t.id(),
                    t.name(),
                    if *t.is_silent() { 1 } else { 0 },
                    arcs(t.incoming_arcs().iter().map(|a| (a.id(), a.place_id())).collect()),
                    arcs(t.outgoing_arcs().iter().map(|a| (a.id(), a.place_id())).collect())
                )
            })
            .collect(),
    );
    format!("({}, {}, {}, {})", places, ts, marking(net.initial_marking()), marking(net.final_marking()))
}

fn around(net: &DefaultPetriNet) -> String {
    list(
        net.all_places()
            .iter()
            .map(|p| {
                let ids = |v: Vec<&Transition<Str, ()>>| format!("{:?}", v.iter().map(|t| t.id()).collect::<Vec<u64>>());
                format!("({}, {}, {})", p.id(), ids(net.get_incoming_transitions(&p.id())), ids(net.get_outgoing_transitions(&p.id())))
            })
            .collect(),
    )
}

fn pairs<T: std::fmt::Debug>(m: Option<HashMap<u64, T>>) -> String {
    m.map_or("None".into(), |m| list(m.iter().map(|(k, v)| format!("({}, '{:?}')", k, v)).collect()))
}

fn replayed(l: &SimpleEventLog, net: &DefaultPetriNet, stop: bool) -> String {
    let r = replay_petri_net(l, net).map_or("None".into(), |r| list(r.iter().map(|s| s.as_ref().map_or("None".into(), |s| format!("{:?}", s.fired_transitions()))).collect()));
    format!(
        "({}, {}, {}, {})",
        r,
        pairs(annotate_with_counts(l, net, stop)),
        pairs(annotate_with_frequencies(l, net, stop)),
        pairs(annotate_with_trace_frequency(l, net, stop))
    )
}

fn real(j: &mut Job) -> f64 {
    j.word().parse().unwrap()
}

/// a net given by numbers: places are numbered in the order they are added, so are transitions
fn net(j: &mut Job) -> (DefaultPetriNet, Vec<u64>, Vec<u64>) {
    let mut net: DefaultPetriNet = PetriNet::empty();
    let ps: Vec<u64> = (0..j.n()).map(|i| net.add_place(Place::with_name(format!("p{}", i).into()))).collect();
    let mut ts = vec![];
    for _ in 0..j.n() {
        let silent = j.n() == 1;
        let name = j.name();
        let t = net.add_transition(Transition::empty(name.clone(), silent, Some(name)));
        for _ in 0..j.n() {
            net.connect_place_to_transition(&ps[j.n()], &t, None);
        }
        for _ in 0..j.n() {
            net.connect_transition_to_place(&t, &ps[j.n()], None);
        }
        ts.push(t);
    }
    let m: Vec<SingleMarking> = (0..j.n()).map(|_| { let p = j.n(); SingleMarking::new(ps[p], j.n()) }).collect();
    if m.len() > 0 {
        net.set_initial_marking(Marking::new(m));
    }
    (net, ps, ts)
}

fn run(mut j: Job) -> String {
    let j = &mut j;
    let mut next = 0;
    match j.cmd.as_str() {
        "alpha" => {
            let l = log(j, &mut next);
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(&l));
            let net = discover_petri_net_alpha(&DefaultAlphaRelationsProvider::new(&info));
            format!("({}, {}, {})", shown(&net), if next > 0 { around(&net) } else { "[]".into() }, dump(&l))
        }
        "plus" => {
            let l = log(j, &mut next);
            let loops = find_transitions_one_length_loop(&l);
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(&l, &loops));
            let net = discover_petri_net_alpha_plus(&l, &AlphaPlusRelationsProviderImpl::new(&info, &l, &loops), false);
            format!("({}, {:?}, {})", shown(&net), loops.iter().map(|x| x.clone()).collect::<Vec<Str>>(), dump(&l))
        }
        "heuristic" => {
            let (dep, pos, best, and, two) = (real(j), j.n(), real(j), real(j), real(j));
            let l = log(j, &mut next);
            let mut net = discover_petri_net_heuristic(&l, dep, pos, best, and, two);
            let before = shown(&net);
            ensure_initial_marking(&l, &mut net);
            format!("({}, {}, {}, {})", before, shown(&net), replayed(&l, &net, false), dump(&l))
        }
        "replay" => {
            let stop = j.n() == 1;
            let (net, ps, ts) = net(j);
            let l = log(j, &mut next);
            format!("({:?}, {:?}, {}, {}, {})", ps, ts, shown(&net), replayed(&l, &net, stop), dump(&l))
        }
        "marking" => {
            let (mut net, ps, ts) = net(j);
            let l = log(j, &mut next);
            ensure_initial_marking(&l, &mut net);
            format!("({:?}, {:?}, {}, {})", ps, ts, shown(&net), dump(&l))
        }
        x => panic!("{}", x),
    }
}
