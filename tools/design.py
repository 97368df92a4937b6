#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the notes below, the bounds/assumptions stated in props/Cxx.py, and the
recorded seed results."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': 'Log built with the public model classes at every site; written by save_event_log_to_xes (and SaveEventLogToXes-style paths) and read by read_log_from_xes. Symbolic runs replace only the bytes between the two: the element tree the writer builds is handed to the reader with symbolic texts, escaping checked through xml.etree in the replay of every witness. Oracle: the log itself, site by site, value and type.',
 'C02': 'serialize_log / parse_log_from_strings and their pipeline parts; oracle: join and split written over the symbolic characters.',
 'C03': 'Filter and removal functions and parts; oracle: list comprehension over (identity, name, predicate outcome); predicate = one symbolic boolean per event; input log compared with a snapshot.',
 'C04': 'Mutation functions and parts; oracle: per-event expected attribute map; selection = one symbolic boolean per event.',
 'C05': 'create_log_information / create_dfg and accessors; oracle: counts by direct definition over the equality pattern.',
 'C06': 'Direct and fast positional entropy; oracle: definition evaluated on the counts of the path, compared to 1e-9. Floating point is evaluated on concrete counts: every count is decided by the solver per path, so the path condition covers all inputs with those counts.',
 'C07': 'Default and Laplace entropies; same scheme as C06.',
 'C08': 'All filter functions and parts with symbolic threshold (real), limits, untouchable predicate; oracle: reference filter using the definitions of C06/C07 (ties within 1e-9 accept any order).',
 'C09': 'split_log_by_traces, FilterLogByVariants; oracle: equality of name sequences.',
 'C10': 'merge_all_traces_in_one_log; uuid4 is a nondeterministic stub with symbolic digits.',
 'C11': 'find_maximal_tandem_arrays / find_primitive_tandem_arrays and parts; oracle: brute-force definition over the equality pattern of classes.',
 'C12': 'find_maximal/super/near-super repeats and part; oracle: definition by all sub-arrays.',
 'C13': 'build_repeat_sets, build_repeat_set_tree*; oracle: sets and inclusion computed over classes.',
 'C14': 'extract_activities_from_log and part; oracle: reference scan that follows the statement.',
 'C15': 'create_new_log_from_activities_instances, substitute/visit/count helpers, parts; oracle: expected list of events by identity.',
 'C16': 'create_log_from_unattached_events, process_unattached_events parts; oracle: gaps of the instances plus C14 reference scan inside gaps.',
 'C17': 'create_logs_for_activities, CreateLogFromActivities parts; oracle: expected traces by activity.',
 'C18': 'build_class_tree; oracle: fibres of the composed extractors.',
 'C19': 'Pipeline and composite parts with recording leaf parts; oracle: reference interpreter of the pipeline term.',
 'C20': 'PipelinePartResult histories against a dictionary model.',
 'C21': 'Model classes: copies, equality, hash, list edits; oracle: plain lists and dicts.',
 'C22': 'to/from pm4py converters against the field-by-field original.',
 'C23': 'DiscoverActivitiesUntilNoMore and class-extractor driven discovery; oracle: termination (time limit on every path and on its replay), length, order and flattening.',
 'C24': 'context_values/data_models; symbolic stand-ins with the same descriptors carry symbolic fields; every witness goes through real protobuf messages and bytes.',
 'C25': 'to_grpc_pipeline of every part class; oracle: expected message tree from the constructor arguments, names taken from the backend sources.',
 'C26': 'Pipeline2.execute over a recorded channel whose stream is chosen by the solver; oracle: reference delivery list.',
 'C27': 'Canvas and matplotlib diagrams over recorders; oracle: expected rectangles, colour classes, legends.',
 'C28': 'Colour providers with nondeterministic random source; oracle: set of handed-out colours, stability map.',
 'C29': 'Graph/net/tree drawing over a graphviz recorder that reads names as graphviz does; oracle: expected multigraph.',
 'C31': 'Callbacks of drawing and printing parts on delivered messages; diagrams over the recorders of C27, printed text recorded with its symbolic content.',
 'C33': 'Report parts with printing and opened files recorded (symbolic text kept); oracle: lines as multisets computed from the log, the tree and the instances.',
 'C32': 'Functions and parts on data sets whose values and labels are symbolic objects inside real pandas/numpy containers; embeddings are recorders; oracle: rows grouped by label.',
 'C34': 'Discovery parts with recording stand-ins (real signatures) for the algorithms of pm4py; oracle: the event log they were handed, field by field, and the recorded results.',
 'C36': 'Rust: SuffixTree built by build() over SingleWordSlice / MultipleWordsSlice, the repeats of repeats.rs and find_patterns. Oracle: definition by all sub-arrays over the equality pattern.',
 'C37': 'Rust: the entry points of tandem_arrays.rs; oracle of C11.',
 'C38': 'Rust: IntervalTree over symbolic bounds; oracle: containment of each interval decided by the solver.',
 'C39': 'Rust: build_repeat_sets and build_repeat_set_tree_from_repeats; oracle: sets and inclusion over classes.',
 'C40': 'Rust: extract_activities_instances, process_activities_in_trace and add_unattached_activities on trees the backend built; oracle: reference scan that follows the statement.',
 'C41': 'Rust: OfflineEventLogInfo and the directly-follows graph of a log; oracle: counts by direct definition over classes (C05).',
 'C42': 'Rust: the four entropy computations; oracle: definitions of C06/C07 on the counts of the path.',
 'C43': 'Rust: mutations, pushes and copies of a SimpleEventLog with lookups in between; oracle: lists of lists of events.',
 'C44': 'Rust: get_traces_groups and split_by_traces, iterators of the log; oracle: equality of class sequences.',
 'C45': 'Rust: create_new_log_from_activities_instances, underlying events, instances of an abstracted log; oracle: expected list of events by identity.',
 'C46': 'Rust: discover_activities_and_create_new_log and its relatives, against the steps run one by one on the classes.',
 'C47': 'Rust: find_transitions_one_length_loop and the alpha and alpha+ miners, as the pipeline parts call them; oracle: all pairs of sets of classes checked against the relations, the maximal ones kept; nets compared by the transitions around every place.',
 'C48': 'Rust: discover_petri_net_heuristic, ensure_initial_marking and replay on its nets; oracle: the relations computed from counts of the path, maximal parallel sets by all subsets, nets compared up to ids. Doubled arcs (length-two loops join what is already joined) are compared once.',
 'C49': 'Rust: replay_petri_net and annotations on nets whose arcs, names and marking are chosen by the solver; oracle: search over all markings, simulation of the reported run.',
 'C50': 'Rust: Graph through its public methods, everything asked again after each operation; structure and operations chosen by the solver; oracle: two dictionaries.',
 'C51': 'Rust: discover_graph_fuzzy; oracle: counts and times of the path; the clusters, whose order of work the code does not fix, have to be one of those reachable by any order.',
 'C52': 'Rust: write_log, serialize_event_log, read_event_log and the event; names, values and elements are chosen by the solver, documents are cut off after any element; quick-xml is a stand-in (rust/stubs/quick_xml.rs: tokens, attributes, escapes, end-of-file and mismatch errors like version 0.29), which stops a reader that asks on and on after the end; oracle: the log of the path, and for documents a small interpreter of the elements.',
 'C53': 'Rust: serialize_to_pnml and serialize_to_pnml_file on nets whose arcs and names are chosen by the solver; the text is parsed by ElementTree and compared with the net by ids and classes of names.',
 'C35': 'Helper functions of patterns/util.py and texts of nodes; oracle: list comprehension over the log and the symbolic levels.',
}


def consts(p):
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'BOUNDS_TEXT', 'ASSUMPTIONS'):
            try:
                out[n.targets[0].id] = value(n.value)
            except ValueError:
                pass
    return out


def value(e):
    if isinstance(e, ast.Name) and e.id == 'COMMON':
        tree = ast.parse(open(V + '/props/rustlog.py').read())
        return next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == 'COMMON')
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return value(e.left) + value(e.right)
    return ast.literal_eval(e)


def main():
    head = open(V + '/tools/design_head.md').read()
    o = [head.rstrip(), '', '## Properties', '']
    for line in open(V + '/properties.jsonl'):
        d = json.loads(line)
        i = d['id']
        p = V + '/props/%s.py' % i
        o.append('### %s %s' % (i, d['title']))
        if not os.path.exists(p):
            o += ['Not applicable, see below.', '']
            continue
        c = consts(p)
        o.append('- How: ' + NOTES.get(i, ''))
        b = c.get('BOUNDS') or c.get('BOUNDS_TEXT')
        if isinstance(b, dict):
            for k, v in b.items():
                o.append('- Bounds (%s): %s.' % (k, v))
        elif b:
            o.append('- Bounds: %s. The thorough tier adds larger shapes of the same kinds (listed in its evidence).' % b)
        for a in c.get('ASSUMPTIONS', []):
            o.append('- Assumes: %s.' % (a if isinstance(a, str) else a))
        o.append('')
    o += ['## Planted bugs and what catches them', '', '| bug | property | needs | quick check |', '|---|---|---|---|']
    res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
    for s in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/%s/meta.json' % s))
        o.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], ', '.join('%s %s' % x for x in sorted(res.get(s, {}).items()))))
    o.append('')
    open(V + '/DESIGN.md', 'w').write('\n'.join(o))


main()
