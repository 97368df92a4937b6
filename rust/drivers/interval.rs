use ficus_backend::utils::interval_tree::{interval::Interval, interval_tree::IntervalTree};
include!("common.rs");

/// positions of the intervals that were found, in order
fn show(r: Vec<Interval<El, usize>>) -> String {
    format!("{:?}", r.iter().map(|x| x.data.unwrap()).collect::<Vec<_>>())
}

fn run(mut j: Job) -> String {
    let n = j.n();
    let list: Vec<Interval<El, usize>> = (0..n).map(|i| { let (l, r) = (j.el(), j.el()); Interval::new_with_data(l, r, Some(i)) }).collect();
    let points = j.els();
    let mut tree = IntervalTree::new(&list, |_: &El, _: &El| points.clone().into_iter());
    match j.cmd.as_str() {
        "point" => show(tree.search_overlaps_for_point(j.el())),
        "range" => { let (l, r) = (j.el(), j.el()); show(tree.search_overlaps_for_interval(l, r)) }
        "envelopes" => {
            let (l, r) = (j.el(), j.el());
            let first = show(tree.search_envelopes(l, r));
            format!("({}, {})", first, show(tree.search_envelopes(l, r)))
        }
        _ => panic!("unknown command"),
    }
}
