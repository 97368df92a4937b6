use chrono::{DateTime, Duration, Utc};
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue as V};
use ficus_backend::event_log::core::event::lifecycle::{braf_lifecycle::XesBrafLifecycle, standard_lifecycle::XesStandardLifecycle, xes_lifecycle::Lifecycle};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::{Trace, TraceEventsPositions, TraceInfo};
use ficus_backend::event_log::xes::reader::file_xes_log_reader::read_event_log;
use ficus_backend::event_log::xes::shared::{XesClassifier, XesEventLogExtension, XesProperty};
use ficus_backend::event_log::xes::writer::xes_event_log_writer::{serialize_event_log, write_log};
use ficus_backend::event_log::xes::xes_event::XesEventImpl;
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::event_log::xes::xes_trace::XesTraceImpl;
use ficus_backend::features::discovery::petri_net::petri_net::{DefaultPetriNet, PetriNet};
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::pnml_serialization::{serialize_to_pnml, serialize_to_pnml_file};
use ficus_backend::features::discovery::petri_net::transition::Transition;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
include!("common.rs");

/// what names end with
const ENDS: [&str; 5] = ["", "&<\"'>", "&amp;", " x ", "\u{e9}/>"];

fn list(x: Vec<String>) -> String {
    format!("[{}]", x.join(", "))
}

fn name(j: &mut Job, end: usize) -> Str {
    let n = j.name();
    if end == 0 { n } else { format!("{}{}", n, ENDS[end]).into() }
}

fn date(n: i64) -> DateTime<Utc> {
    DateTime::<Utc>::MIN_UTC + Duration::seconds(n)
}

fn value(j: &mut Job, end: usize) -> V {
    match j.word().as_str() {
        "date" => V::Date(date(j.n() as i64)),
        "string" => V::String(Rc::new(Box::new(name(j, end)))),
        "bool" => V::Boolean(j.n() == 1),
        "int32" => V::Int32(j.word().parse().unwrap()),
        "int" => V::Int64(j.word().parse().unwrap()),
        "uint32" => V::Uint32(j.word().parse().unwrap()),
        "uint64" => V::Uint64(j.word().parse().unwrap()),
        "float32" => V::Float32(j.word().parse().unwrap()),
        "float" => V::Float64(j.word().parse().unwrap()),
        "guid" => V::Guid(uuid::Uuid::from_u128(j.n() as u128)),
        "braf" => V::Lifecycle(Lifecycle::BrafLifecycle(XesBrafLifecycle::Completed)),
        "standard" => V::Lifecycle(Lifecycle::XesStandardLifecycle(XesStandardLifecycle::Suspend)),
        _ => panic!("kind"),
    }
}

fn shown(v: &V) -> String {
    match v {
        V::Date(d) => format!("('date', {})", (*d - DateTime::<Utc>::MIN_UTC).num_seconds()),
        V::String(s) => format!("('string', {:?})", s.as_ref().as_ref()),
        V::Boolean(b) => format!("('bool', {})", if *b { 1 } else { 0 }),
        V::Int64(n) => format!("('int', {})", n),
        V::Float64(n) => format!("('float', {:?})", format!("{:?}", n)),
        V::Guid(n) => format!("('guid', {:?})", format!("{}", n)),
        v => format!("('other', {:?})", format!("{:?}", v)),
    }
}

fn pairs(v: Vec<(&Str, &V)>) -> String {
    list(v.iter().map(|(k, v)| format!("({:?}, {})", k, shown(v))).collect())
}

fn event_shown(e: &XesEventImpl) -> String {
    let any = e.payload_map().map_or("None".into(), |m| pairs(m.iter().collect()));
    format!("({:?}, {}, {}, {})", e.name(), (*e.timestamp() - DateTime::<Utc>::MIN_UTC).num_seconds(), pairs(e.ordered_payload()), any)
}

fn log_shown(l: &XesEventLogImpl) -> String {
    format!(
        "({}, {}, {}, {}, {}, {})",
        list(l.extensions().iter().map(|e| format!("({:?}, {:?}, {:?})", e.name, e.prefix, e.uri)).collect()),
        list(l.classifiers().iter().map(|c| format!("({:?}, {:?})", c.name, c.keys)).collect()),
        list(l.properties_map().iter().map(|p| format!("({:?}, {})", p.name, shown(&p.value))).collect()),
        list(l.ordered_globals().into_iter().map(|(s, d)| format!("({:?}, {})", s, pairs(d))).collect()),
        list(l.traces().iter().map(|t| list(t.borrow().events().iter().map(|e| event_shown(&e.borrow())).collect())).collect()),
        format!("{:?}", l.to_raw_vector())
    )
}

fn payload(j: &mut Job, end: usize) -> HashMap<Str, V> {
    (0..j.n()).map(|_| (name(j, end), value(j, end))).collect()
}

fn log(j: &mut Job, end: usize) -> XesEventLogImpl {
    let mut l = XesEventLogImpl::empty();
    for _ in 0..j.n() {
        l.extensions_mut().push(XesEventLogExtension { name: name(j, end), prefix: name(j, end), uri: name(j, end) });
    }
    for _ in 0..j.n() {
        let n = name(j, end);
        l.classifiers_mut().push(XesClassifier { name: n, keys: (0..j.n()).map(|_| name(j, end)).collect() });
    }
    for _ in 0..j.n() {
        let n = name(j, end);
        l.properties_mut().push(XesProperty { name: n, value: value(j, end) });
    }
    for _ in 0..j.n() {
        let s: Str = match j.word().as_str() { "-" => name(j, end), s => s.to_owned().into() };
        l.globals_mut().insert(s, payload(j, end));
    }
    for _ in 0..j.n() {
        let mut t = XesTraceImpl::empty();
        for _ in 0..j.n() {
            let n = name(j, end);
            let d = date(j.n() as i64);
            let p = match j.n() { 0 => None, _ => Some(payload(j, end)) };
            t.push(Rc::new(RefCell::new(XesEventImpl::new_all_fields(Rc::new(Box::new(n)), d, p))));
        }
        l.push(Rc::new(RefCell::new(t)));
    }
    l
}

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("verif-xml-{}.tmp", std::process::id()))
}

fn read(path: &std::path::PathBuf) -> Option<XesEventLogImpl> {
    let l = read_event_log(path.to_str().unwrap());
    std::fs::remove_file(path).ok();
    l
}

fn run(mut j: Job) -> String {
    let j = &mut j;
    match j.cmd.as_str() {
        "trip" => {
            let end = j.n();
            let l = log(j, end);
            let text = serialize_event_log(&l).unwrap();
            let path = scratch();
            write_log(&l, path.to_str().unwrap()).unwrap();
            let written = std::fs::read(&path).unwrap() == text.as_bytes();
            let r = read(&path).unwrap();
            let again = serialize_event_log(&r).unwrap() == text;
            format!("({}, {}, {})", log_shown(&r), if written { 1 } else { 0 }, if again { 1 } else { 0 })
        }
        "doc" => {
            let end = j.n();
            let mut text = std::string::String::new();
            for _ in 0..j.n() {
                let kind = j.word();
                let tag = j.word();
                text += if kind == "close" { "</" } else { "<" };
                text += &tag;
                for _ in 0..j.n() {
                    let key = j.word();
                    let v: std::string::String = match j.word().as_str() {
                        "name" => name(j, end).as_str().replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;"),
                        "key" => quick_xml::escape::escape(j.word().as_str()).into_owned(),
                        _ => j.word().replace('~', " "),
                    };
                    text += &format!(" {}=\"{}\"", key, v);
                }
                text += if kind == "empty" { "/>" } else { ">" };
                text += "\n";
            }
            match j.n() {
                1 => text += "<string key=\"a",
                2 => text += "</other>",
                _ => {}
            }
            let path = scratch();
            std::fs::write(&path, text).unwrap();
            read(&path).map_or("None".into(), |l| log_shown(&l))
        }
        "edit" => {
            let mut l = log(j, 0);
            let (a, b) = (name(j, 0), name(j, 0));
            let old = l.clone();
            let at = |l: &XesEventLogImpl, n: &Str| {
                list(
                    l.traces()
                        .iter()
                        .map(|t| {
                            let mut t = t.borrow_mut();
                            let (count, all) = { let i = t.get_or_create_trace_info(); (i.events_counts().get(n).copied().unwrap_or(0), i.events_count()) };
                            let p = t.get_or_create_events_positions().event_positions(n).cloned().unwrap_or(vec![]);
                            format!("({}, {}, {:?})", count, all, p)
                        })
                        .collect(),
                )
            };
            let mut seen = vec![at(&l, &a)];
            for _ in 0..j.n() {
                match j.n() {
                    0 => l.filter_events_by(|e| e.name() == &a),
                    1 => l.mutate_events(|e| if e.name() == &a { e.set_name(b.clone()) }),
                    2 => l.traces().iter().for_each(|t| t.borrow_mut().remove_events_by(|e| e.name() == &b)),
                    3 => l.traces().iter().for_each(|t| t.borrow_mut().mutate_events(|e| if e.name() == &b { e.set_name(a.clone()) })),
                    _ => {
                        let n = j.n();
                        l.filter_traces(&|t, i| t.events().len() >= 2 || *i == n);
                    }
                }
                seen.push(at(&l, &a));
            }
            let vecs = list(l.traces().iter().map(|t| format!("{:?}", t.borrow().to_names_vec())).collect());
            format!("({}, {}, {}, {})", log_shown(&l), log_shown(&old), list(seen), vecs)
        }
        "absent" => if read_event_log(scratch().to_str().unwrap()).is_none() { "1".into() } else { "0".into() },
        "event" => {
            let mut e = match j.n() {
                0 => <XesEventImpl as Event>::new(name(j, 0), date(j.n() as i64)),
                _ => {
                    let n = name(j, 0);
                    let d = date(j.n() as i64);
                    XesEventImpl::new_all_fields(Rc::new(Box::new(n)), d, Some(payload(j, 0)))
                }
            };
            let old = e.clone();
            for _ in 0..j.n() {
                match j.n() {
                    0 => e.set_name(name(j, 0)),
                    1 => e.set_timestamp(date(j.n() as i64)),
                    _ => {
                        let k = name(j, 0);
                        e.add_or_update_payload(k, value(j, 0));
                    }
                }
            }
            format!("({}, {})", event_shown(&e), event_shown(&old))
        }
        "pnml" => {
            let end = j.n();
            let by_name = j.n() == 1;
            let mut net: DefaultPetriNet = PetriNet::empty();
            let ps: Vec<u64> = (0..j.n()).map(|_| net.add_place(Place::with_name(name(j, end)))).collect();
            let mut ts = vec![];
            for _ in 0..j.n() {
                let n = name(j, end);
                let data = match j.n() { 0 => None, _ => Some(name(j, end)) };
                ts.push(net.add_transition(Transition::empty(n, false, data)));
            }
            for _ in 0..j.n() {
                let (out, p, t) = (j.n(), ps[j.n()], ts[j.n()]);
                if out == 1 { net.connect_transition_to_place(&t, &p, None) } else { net.connect_place_to_transition(&p, &t, None) }
            }
            let text = serialize_to_pnml(&net, by_name).unwrap();
            let path = scratch();
            serialize_to_pnml_file(&net, path.to_str().unwrap(), by_name).unwrap();
            let same = std::fs::read(&path).unwrap() == text.as_bytes();
            std::fs::remove_file(&path).ok();
            let arcs = |t: &u64| {
                let t = net.transition(t);
                let a = |v: &Vec<ficus_backend::features::discovery::petri_net::arc::Arc<()>>| format!("{:?}", v.iter().map(|a| (a.id(), a.place_id())).collect::<Vec<_>>());
                format!("({}, {})", a(t.incoming_arcs()), a(t.outgoing_arcs()))
            };
            format!("({:?}, {}, {:?}, {:?}, {})", text.as_str(), if same { 1 } else { 0 }, ps, ts, list(ts.iter().map(arcs).collect()))
        }
        x => panic!("no command {}", x),
    }
}
