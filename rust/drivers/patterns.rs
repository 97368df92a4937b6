use ficus_backend::features::analysis::patterns::activity_instances::{
    add_unattached_activities, extract_activities_instances, process_activities_in_trace, ActivityInTraceFilterKind, ActivityInTraceInfo, ActivityNarrowingKind,
};
use ficus_backend::features::analysis::patterns::repeat_sets::{build_repeat_set_tree_from_repeats, build_repeat_sets, ActivityNode, SubArrayWithTraceIndex};
use ficus_backend::features::analysis::patterns::tandem_arrays::{
    find_maximal_tandem_arrays, find_maximal_tandem_arrays_with_length, find_primitive_tandem_arrays, find_primitive_tandem_arrays_with_length,
    SubArrayInTraceInfo,
};
use std::cell::RefCell;
use std::rc::Rc;
include!("common.rs");

type Node = Rc<RefCell<ActivityNode>>;

fn sub(j: &mut Job) -> SubArrayWithTraceIndex {
    let (t, s, l) = (j.n(), j.n(), j.n());
    SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(s, l), t)
}

/// (trace, start, length, level, name, number of classes, children)
fn dump(n: &Node) -> String {
    let n = n.borrow();
    let r = n.repeat_set.as_ref().map_or((0, 0, 0), |r| (r.trace_index, *r.sub_array.get_start_index(), *r.sub_array.get_length()));
    format!("({}, {}, {}, {}, {:?}, {}, [{}])", r.0, r.1, r.2, n.level, n.name, n.len(), n.children.iter().map(dump).collect::<Vec<_>>().join(", "))
}

fn tree(j: &mut Job, log: &Vec<Vec<El>>) -> Vec<Node> {
    let level = j.n();
    let named = j.n();
    let n = j.n();
    let repeats: Vec<_> = (0..n).map(|_| sub(j)).collect();
    build_repeat_set_tree_from_repeats(log, &repeats, level, |s| {
        let d = s.dump();
        Str::from(if named == 0 { format!("n{}_{}_{}", d.2, d.0, d.1) } else { format!("n{}_{}_{}", 9 - d.2, 9 - d.0, d.1) })
    })
}

fn narrow(i: usize) -> ActivityNarrowingKind {
    match i {
        0 => ActivityNarrowingKind::DontNarrow,
        1 => ActivityNarrowingKind::StayTheSame,
        2 => ActivityNarrowingKind::NarrowUp,
        _ => ActivityNarrowingKind::NarrowDown,
    }
}

fn filter(i: usize) -> ActivityInTraceFilterKind {
    if i == 0 { ActivityInTraceFilterKind::NoFilter } else { ActivityInTraceFilterKind::DefaultFilter }
}

fn show(r: &Vec<Vec<ActivityInTraceInfo>>) -> String {
    format!("{:?}", r.iter().map(|t| t.iter().map(|a| (a.start_pos, a.length, a.node.borrow().name.clone())).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn run(mut j: Job) -> String {
    match j.cmd.clone().as_str() {
        "tandem" => {
            let max = j.n();
            let log = j.words();
            let d = |r: &Vec<Vec<SubArrayInTraceInfo>>| r.iter().map(|t| t.iter().map(|a| (a.start_index, a.length)).collect::<Vec<_>>()).collect::<Vec<_>>();
            let m = find_maximal_tandem_arrays_with_length(&log, max);
            let p = find_primitive_tandem_arrays_with_length(&log, max);
            let m = m.borrow().iter().map(|t| t.iter().map(|a| a.dump()).collect::<Vec<_>>()).collect::<Vec<_>>();
            let p = p.borrow().iter().map(|t| t.iter().map(|a| a.dump()).collect::<Vec<_>>()).collect::<Vec<_>>();
            format!("{:?}", (m, p, d(&find_maximal_tandem_arrays(&log, max)), d(&find_primitive_tandem_arrays(&log, max))))
        }
        "sets" => {
            let log = j.words();
            let n = j.n();
            let patterns: Vec<Vec<_>> = (0..n)
                .map(|_| {
                    let k = j.n();
                    (0..k).map(|_| { let (s, l) = (j.n(), j.n()); SubArrayInTraceInfo::new(s, l) }).collect()
                })
                .collect();
            format!("{:?}", build_repeat_sets(&log, &patterns).iter().map(|s| { let d = s.dump(); (d.2, d.0, d.1) }).collect::<Vec<_>>())
        }
        "tree" => {
            let log = j.words();
            let t = tree(&mut j, &log);
            format!("[{}]", t.iter().map(dump).collect::<Vec<_>>().join(", "))
        }
        "instances" => {
            let (kind, min, filt) = (j.n(), j.n(), j.n());
            let log = j.words();
            let mut t = tree(&mut j, &log);
            let target = j.words();
            let r = extract_activities_instances(&target, &mut t, &narrow(kind), min, &filter(filt));
            let mut parts = vec![];
            for (trace, acts) in target.iter().zip(&r) {
                let p = RefCell::new(vec![]);
                process_activities_in_trace(trace.len(), acts, |a, b| p.borrow_mut().push((a, b, 0)), |a| p.borrow_mut().push((a.start_pos, a.start_pos + a.length, 1)));
                parts.push(p.into_inner());
            }
            format!("({}, {:?})", show(&r), parts)
        }
        "unattached" => {
            // instances of the first tree, then the gaps searched with the second
            let (kind, min, filt, gap) = (j.n(), j.n(), j.n(), j.n());
            let log = j.words();
            let mut a = tree(&mut j, &log);
            let mut b = tree(&mut j, &log);
            let first = extract_activities_instances(&log, &mut a, &narrow(0), 0, &filter(0));
            let all = add_unattached_activities(&log, &mut b, &first, gap, &narrow(kind), min, &filter(filt));
            format!("({}, {})", show(&first), show(&all))
        }
        _ => panic!("unknown command"),
    }
}
