use ficus_backend::features::analysis::patterns::contexts::PatternsDiscoveryStrategy;
use ficus_backend::features::analysis::patterns::repeats::{find_maximal_repeats, find_near_super_maximal_repeats, find_super_maximal_repeats};
use ficus_backend::utils::suffix_tree::suffix_tree_patterns::SuffixTree;
use ficus_backend::utils::suffix_tree::suffix_tree_slice::{MultipleWordsSuffixTreeSlice, SingleWordSuffixTreeSlice, SuffixTreeSlice};
include!("common.rs");

fn with_tree<R>(words: &Vec<Vec<El>>, f: impl Fn(&SuffixTree<El>) -> R) -> R {
    let (single, multi);
    let slice: &dyn SuffixTreeSlice<El> = if words.len() == 1 {
        single = SingleWordSuffixTreeSlice::new(words[0].as_slice());
        &single
    } else {
        multi = MultipleWordsSuffixTreeSlice::new(words.iter().map(|w| w.as_slice()).collect());
        &multi
    };
    let mut tree = SuffixTree::new(slice);
    tree.build_tree();
    f(&tree)
}

fn run(mut j: Job) -> String {
    match j.cmd.clone().as_str() {
        "find" => {
            let words = j.words();
            let p = j.els();
            format!("{:?}", with_tree(&words, |t| t.find_patterns(&p)).map_or(vec![], |v| vec![v]))
        }
        "repeats" => {
            let kind = j.n();
            let words = j.words();
            format!("{:?}", with_tree(&words, |t| match kind {
                0 => t.find_maximal_repeats(),
                1 => t.find_super_maximal_repeats(),
                _ => t.find_near_super_maximal_repeats(),
            }))
        }
        "log" => {
            let kind = j.n();
            let strategy = if j.n() == 0 { PatternsDiscoveryStrategy::FromAllTraces } else { PatternsDiscoveryStrategy::FromSingleMergedTrace };
            let log = j.words();
            let r = match kind {
                0 => find_maximal_repeats(&log, &strategy),
                1 => find_super_maximal_repeats(&log, &strategy),
                _ => find_near_super_maximal_repeats(&log, &strategy),
            };
            format!("{:?}", r.iter().map(|t| t.iter().map(|a| (*a.get_start_index(), *a.get_length())).collect::<Vec<_>>()).collect::<Vec<_>>())
        }
        _ => panic!("unknown command"),
    }
}
