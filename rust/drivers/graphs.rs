use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog, SimpleTrace};
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
use ficus_backend::utils::graph::graph::Graph;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::rc::Rc;
include!("common.rs");
include!("events.rs");

fn data<T: Debug>(x: Option<&T>) -> String {
    x.map_or("None".into(), |x| format!("{:?}", x))
}

/// nodes and edges
fn shown<N: ToString + Display + Debug, E: ToString + Display + Debug>(g: &Graph<N, E>) -> String {
    format!(
        "({}, {})",
        list(g.all_nodes().iter().map(|n| format!("({}, {})", n.id(), data(n.data()))).collect()),
        list(g.all_edges().iter().map(|e| format!("({}, {}, {})", e.from_node(), e.to_node(), data(e.data()))).collect())
    )
}

/// everything that can be asked
fn asked(g: &Graph<Str, Str>, ids: &Vec<u64>) -> String {
    let ns = |v: Vec<&u64>| format!("{:?}", v);
    let each = ids
        .iter()
        .map(|a| {
            let to = ids.iter().map(|b| if g.are_nodes_connected(a, b) { "1".into() } else { "0".into() }).collect();
            let n = g.node(a).map_or("None".into(), |n| format!("({}, {})", n.id(), data(n.data())));
            format!("({}, {}, {}, {}, {})", n, ns(g.outgoing_nodes(a)), ns(g.incoming_edges(a)), ns(g.all_connected_nodes(a)), list(to))
        })
        .collect();
    format!("({}, {})", shown(g), list(each))
}

fn maybe(j: &mut Job) -> Option<Str> {
    if j.n() == 1 { Some(j.name()) } else { None }
}

fn run(mut j: Job) -> String {
    let j = &mut j;
    let mut next = 0;
    match j.cmd.as_str() {
        "graph" => {
            let mut g: Graph<Str, Str> = Graph::empty();
            let n = j.n();
            let mut ids: Vec<u64> = (0..n).map(|_| { let d = maybe(j); g.add_node(d) }).collect();
            ids.push(ids.iter().max().map_or(7, |m| m + 1000));
            let mut out = vec![asked(&g, &ids)];
            for _ in 0..j.n() {
                let answer = match j.word().as_str() {
                    "connect" => {
                        let (a, b) = (ids[j.n()], ids[j.n()]);
                        let d = maybe(j);
                        g.connect_nodes(&a, &b, d);
                        "None".to_owned()
                    }
                    "disconnect" => {
                        let (a, b) = (ids[j.n()], ids[j.n()]);
                        if g.disconnect_nodes(&a, &b) { "1".into() } else { "0".into() }
                    }
                    _ => {
                        let set: HashSet<u64> = (0..j.n()).map(|_| ids[j.n()]).collect();
                        let nodes = RefCell::new(vec![]);
                        let edges = RefCell::new(vec![]);
                        g.merge_nodes_into_one(
                            &set,
                            |ns| {
                                nodes.borrow_mut().push(list(ns.iter().map(|n| data(*n)).collect()));
                                ns.iter().filter_map(|n| *n).map(|n| n.clone()).next()
                            },
                            |es| {
                                edges.borrow_mut().push(list(es.iter().map(|n| data(*n)).collect()));
                                es.iter().filter_map(|n| *n).map(|n| n.clone()).next()
                            },
                        );
                        let known: Vec<u64> = ids.clone();
                        let new: Vec<u64> = g.all_nodes().iter().map(|n| *n.id()).filter(|i| !known.contains(i)).collect();
                        let k = ids.len() - 1;
                        ids.splice(k..k, new.clone());
                        format!("({:?}, {}, {})", new, list(nodes.into_inner()), list(edges.into_inner()))
                    }
                };
                out.push(answer);
                out.push(asked(&g, &ids));
            }
            format!("({:?}, {}, {})", ids, list(out), shown(&g.to_default_graph()))
        }
        "fuzzy" => {
            let t: Vec<f64> = (0..7).map(|_| j.word().parse().unwrap()).collect();
            let l = log(j, &mut next);
            let g = discover_graph_fuzzy(&l, t[0], t[1], t[2], t[3], t[4], t[5], t[6]);
            let s = shown(&g);
            format!("({}, {}, {})", s, dump(&l), shown(&g.to_default_graph()))
        }
        x => panic!("{}", x),
    }
}
