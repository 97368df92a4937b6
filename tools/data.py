"""Property texts.  P(id, title, statement, over, quantifier, why, files, mechanisms)"""
PROPS = []


def P(pid, title, st, over, q, why, files, mech):
    pre = 'src/python/ficus/'
    if files == ['RUST']:
        pre, files, mech = 'src/rust/ficus_backend', [''], [('backend', '')]
    elif files[0].endswith('.rs'):
        pre = 'src/rust/ficus_backend/src/'
    PROPS.append({'id': pid, 'title': title, 'statement': st,
                  'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
                  'anchors': {'files': [pre + f for f in files],
                              'mechanism': [{'name': n, 'where': pre + w} for n, w in mech]}})


L, A, PT = 'legacy/log/', 'legacy/analysis/', 'legacy/analysis/patterns/'
PP, G = 'legacy/pipelines/', 'grpc_pipelines/'

P('C01', 'XES write followed by read gives back the same event log',
  'Any event log saved as XES and read back has the same extensions, log attributes (properties), global values of events and traces, classifiers, trace attributes, '
  'traces and events in the same order, with the same attribute names, values and value types, whatever characters XML can carry the names and values consist of. '
  'Strings, integers, floats, booleans and dates are the supported values; values of other kinds (lists, dictionaries, nothing) are left out and everything else stays intact. '
  'Saving does not alter the log and works for every target path, including one without a directory part; reading a missing file raises.',
  ['inputs'], 'every event log of supported values, every text, every type mix',
  'The tests round-trip a few hand-written logs; the quantifier is over all texts (markup characters, control characters, non-ASCII), value '
  'types and shapes of header data.',
  [L + 'functions.py', L + 'event_log.py'],
  [('XES writer', L + 'functions.py:save_event_log_to_xes'), ('XES reader', L + 'functions.py:read_log_from_xes')])

P('C02', 'Plain-text export lists exactly the names of every trace in order',
  'The plain-text export of a log contains, per trace in order, exactly the names of its events in order, with the event separator between two names and the trace separator '
  'between two traces (the log separator between two logs of a list) and nothing after the last one; the defaults are a comma, a line break and an empty line. '
  'Parsing a text gives a trace with exactly the parts between the separators as event names, parsing a list of texts gives one such trace per text in order, and parsing the exported '
  'lines gives back the names of the log. Exporting does not change the log.',
  ['inputs'], 'every log, separator and list of name lists',
  'Tests compare a few fixed logs; the claim is over every name and shape (empty traces, one-event traces).',
  [L + 'functions.py', PP + 'start/start_parts.py', PP + 'serialization/pipeline_parts.py'],
  [('text export', L + 'functions.py:serialize_log'), ('simple log parsing', L + 'functions.py:parse_log_from_strings')])

P('C03', 'Filtering and removing events or traces keeps exactly the right ones',
  'Removing events by name, by a set of names, or by predicate gives a log without any matching event and with every other event, in the same order with the same attributes; '
  'traces without remaining events are dropped and the other traces keep their order. Filtering traces by event count keeps exactly the traces with more events than the given number (zero if none is given), in order. '
  'The same holds through the pipeline parts, and the given log, its traces and its events are left untouched.',
  ['inputs'], 'every log, predicate outcome, name and set of names',
  'Tests filter a handful of fixed logs; off-by-one, aliasing and order errors appear for other equality patterns of names.',
  ['legacy/filtering/event_log_filters.py', 'legacy/mutations/event_log_mutations.py', PP + 'filtering/filter_parts.py'],
  [('filters', 'legacy/filtering/event_log_filters.py'), ('filter parts', PP + 'filtering/filter_parts.py')])

P('C04', 'In-place mutations change exactly the addressed events',
  'Renaming events with a function, mutating events with a function, applying a class extractor to selected events (or to all), removing the life-cycle attribute and adding artificial '
  'start and end events change the given log in place: every addressed event gets exactly the new name or attributes, one own start event is put before the first and one own end event after '
  'the last event of every trace (also of an empty one), and no other attribute, event, trace or order changes. The part keeps the mutated log in its result.',
  ['inputs'], 'every log and every choice of addressed names',
  'Tests use fixed logs; the claim is over all equality patterns between old names, new names and the log.',
  ['legacy/mutations/event_log_mutations.py', PP + 'mutations/mutations_parts.py'],
  [('mutations', 'legacy/mutations/event_log_mutations.py'), ('mutation parts', PP + 'mutations/mutations_parts.py')])

P('C05', 'Directly-follows graph and event counts match the log',
  'For every log the directly-follows graph counts, for every ordered pair of names, exactly how often the second directly follows the first inside a trace (ignored names taken out '
  'first, an artificial start and end added to traces that are not empty when asked for), and lists no other pair; the followers of every name carry the same counts and the events with a '
  'single follower are exactly the names that only one name ever follows. Event counts per name, per trace and in total equal the numbers of occurrences, the names for which a predicate '
  'always holds are exactly those, and computing any of this leaves the log and the ignored set unchanged.',
  ['inputs'], 'every log, every set of ignored names, with and without artificial start/end',
  'Tests check pair counts on fixed logs only.',
  [A + 'event_log_info.py'], [('log information', A + 'event_log_info.py:create_log_information')])

P('C06', 'Positional entropy agrees with its definition, fast or slow',
  'For every log, the direct and the optimised computation of positional entropy give for every event class the value of the definition (the mean, over all positions where some trace has the class, '
  'of minus the logarithm to the base n of the share of the n non-empty traces that have it there), and the optimised sum is their sum; ignoring a set of events gives the entropies of the log from which '
  'those events were removed. Values for a log with a single non-empty trace are undefined. Computing entropies leaves the log unchanged.',
  ['inputs'], 'every log and set of ignored names',
  'Tests compare against a few gold values.',
  [A + 'event_log_analysis_entropy.py'], [('positional entropy', A + 'event_log_analysis_entropy.py')])

P('C07', 'Directly-follows entropies agree with their definition',
  'For every log the default and the Laplace-smoothed entropy of every event class equal the sum of the entropies of its successor and '
  'predecessor distributions (artificial start and end included), with every class of the log reported exactly once, '
  'and ignored names treated as absent.',
  ['inputs'], 'every log and set of ignored names',
  'Tests compare a few gold values.',
  [A + 'event_log_analysis_entropy.py', A + 'event_log_info.py'], [('df entropy', A + 'event_log_analysis_entropy.py')])

P('C08', 'Entropy filters remove whole classes, respect limits, and stop',
  'Entropy based filtering (positional, directly-follows and Laplace-smoothed, direct and indirect) always terminates, removes only whole event classes (all occurrences or none), never '
  'removes a class that is marked untouchable or more classes than allowed (none for a limit of zero), and keeps the order and attributes of the rest. The direct filters remove the class with the '
  'highest entropy as long as it exceeds the threshold; the indirect ones remove, while the entropy of the log exceeds the threshold, the class (of the given share of classes with the highest '
  'entropy) without which the log has the least entropy. Filtering till the end removes classes in that order and records the entropy before, or the decrease by, each removal. '
  'The given log is left unchanged.',
  ['inputs', 'configurations'], 'every log, limit, share and untouchable set',
  'Tests run the filters on fixed logs with one parameter setting.',
  ['legacy/filtering/event_log_filters.py', PP + 'filtering/filter_parts.py', A + 'event_log_analysis_entropy.py'],
  [('entropy filters', 'legacy/filtering/event_log_filters.py')])

P('C09', 'Variants partition the traces by their name sequence',
  'Splitting a log into variants puts every trace into exactly one group, and two traces are in the same group if and only if their sequences of '
  'event names are equal. Filtering by variants keeps exactly one trace of every variant and does not change the original log.',
  ['inputs'], 'every log, including names of several characters and empty traces',
  'Tests use short single-letter logs; the quantifier is over all names.',
  [A + 'event_log_split.py', PP + 'filtering/filter_parts.py'],
  [('split', A + 'event_log_split.py:split_log_by_traces'), ('variant filter', PP + 'filtering/filter_parts.py')])

P('C10', 'Merging traces keeps all events in order and separates traces',
  'Merging all traces gives a one-trace log with copies of all events of all traces in their order, every original trace followed by a separator '
  'event whose name differs from every other separator and every event. The original log shares no state with the result.',
  ['inputs', 'histories'], 'every log, repeated merges',
  'Tests look at one log.',
  [A + 'event_log_split.py'], [('merge', A + 'event_log_split.py:merge_all_traces_in_one_log')])

P('C11', 'Tandem arrays are reported exactly and with maximal repeat count',
  'For every trace and maximum length, every sequence of event classes of at least two and fewer than the maximum number of events that occurs at least twice in a row is reported '
  'exactly once, at the first place where it repeats, with the largest number of consecutive repetitions there, and nothing else is reported. Primitive tandem arrays are those among '
  'them whose base is not itself a repetition of a shorter base of at least two events; one is left out only if a shorter array repeats at the same position.',
  ['inputs', 'configurations'], 'every trace, every maximum length, every class extractor',
  'Tests check a few textbook strings.',
  [PT + 'event_log_patterns.py'], [('tandem arrays', PT + 'event_log_patterns.py:find_maximal_tandem_arrays')])

P('C12', 'Maximal, super-maximal and near-super-maximal repeats are exact',
  'For every log and trace, the maximal repeats reported for the trace are exactly the class sequences with at least two occurrences in that trace which have two occurrences that differ '
  'in the class to their left and two that differ in the class to their right, each reported once; super-maximal repeats are the maximal repeats not contained in another maximal repeat, and '
  'near-super-maximal repeats are those with at least one occurrence not contained in an occurrence of another one. Every reported sub-array lies inside its trace and spells the repeat.',
  ['inputs'], 'every log up to the bound',
  'Tests check a few textbook strings.',
  [PT + 'event_log_patterns.py', PT + 'util.py'], [('repeats', PT + 'event_log_patterns.py:find_repeats')])

P('C13', 'Repeat sets and the activity tree are complete and well-nested',
  'Every set of event classes of a found repeat appears exactly once among the repeat sets. In the activity tree every repeat set appears exactly once, with the name and level it should '
  'have, every child contains fewer classes than its parent and is contained in it, a set is a root if and only if no other set contains it, and every other set hangs under a smallest set that '
  'contains it. The given log and repeats are left unchanged.',
  ['inputs'], 'every log, any selection of repeats',
  'Tests compare gold trees for fixed logs.',
  [PT + 'event_log_patterns.py'], [('activity tree', PT + 'event_log_patterns.py:build_repeat_set_tree_from_repeats')])

P('C14', 'Activity instances are ordered, disjoint, in bounds and covered by the node',
  'For every log and activity tree, the instances found in a trace are ordered, do not overlap, lie inside the trace and contain only event classes of their activity; every event whose '
  'class belongs to some activity of the considered level is covered, other events are not. An instance starts with the smallest activity containing the class of its first event (the first by name '
  'among equally small ones), is extended as long as an activity that is not smaller contains all its classes, and ends otherwise. Narrowing replaces the activity by its smallest descendant that '
  'contains all classes of the instance; without narrowing the activity stays. Instances the filter rejects are left out and the log is unchanged.',
  ['inputs', 'configurations'], 'every log, tree, activity level and narrowing mode',
  'Tests compare gold files for fixed logs.',
  [PT + 'event_log_patterns.py'], [('instances', PT + 'event_log_patterns.py:extract_activities_instances')])

P('C15', 'Abstracting a log loses no events',
  'Replacing activity instances gives, per trace, one event per instance, in order, with the activity name (or its unique name, which no two activities share) and with copies of exactly the '
  'original events of the instance underneath; events outside instances are kept in place, replaced by one undefined-activity event per gap, or dropped as the chosen strategy says, and flattening an '
  'abstracted log that kept them restores the original events in order, also after several levels. Numbers of and visits to underlying events cover each original event exactly once, the underlying '
  'activities are listed from the lowest level up, and the original log is not modified.',
  ['inputs', 'configurations'], 'every log, set of instances and strategy',
  'Tests compare gold files.',
  [PT + 'event_log_patterns.py', PP + 'analysis/patterns/patterns_parts.py'],
  [('log from instances', PT + 'event_log_patterns.py:create_new_log_from_activities_instances')])

P('C16', 'Unattached events are exactly those outside all instances',
  'The log of unattached events contains, per trace and in order, exactly the events not covered by any activity instance. Adding activities for unattached events keeps all given instances '
  'and adds, in every gap of at least the minimum number of events, exactly the instances that discovery finds in the sub-trace of that gap (narrowed or not, filtered as asked), '
  'instances staying ordered and disjoint and the log unchanged.',
  ['inputs'], 'every log and every set of disjoint instances',
  'Tests compare gold files.',
  [PT + 'event_log_patterns.py', PP + 'analysis/patterns/patterns_parts.py'],
  [('unattached events', PT + 'event_log_patterns.py')])

P('C17', 'Per-activity logs contain exactly the events of that activity',
  'The log created for an activity of the chosen level has one trace per instance of that activity, in the order of the traces, containing copies of exactly the events of the instance under the '
  'names of their classes; activities of other levels get no log. With promotion, instances of lower-level activities get a log as well if and only if their classes at the chosen level are the ones of the '
  'pattern of their activity. Creating the logs does not modify the original log.',
  ['inputs', 'configurations'], 'every log, tree, instances and level',
  'Tests compare gold files.',
  [PT + 'event_log_patterns.py', PP + 'analysis/patterns/patterns_parts.py'],
  [('activity logs', PT + 'event_log_patterns.py:create_logs_for_activities')])

P('C18', 'The class tree groups events by equal classes at every level',
  'The event class tree has one leaf per event name of the log and one level more per extractor; the extractors are applied one after the other to the names of the level below, nodes of a level '
  'are the different results, and every node has as children exactly the nodes of the level below that are mapped to its name. The log is unchanged.',
  ['inputs', 'configurations'], 'every log and chain of class extractors',
  'Tests cover none of it or one fixed log.',
  [PT + 'event_log_patterns.py', PT + 'patterns_models.py', 'legacy/pipelines/analysis/patterns/patterns_graph_parts.py'],
  [('class tree', PT + 'event_log_patterns.py:build_class_tree')])

P('C19', 'Pipelines run every part once, in order, and pass results on',
  'A pipeline passes the input to its first part, every part\'s result to the next one, skips missing parts (None), runs every part once per execution and returns the last result; errors of a part reach the '
  'caller and no later part runs; anything that is not a part is refused, and so is starting from something that is not a log. Conditional parts run the branch their condition selects, parallel parts run every pipeline on a copy of the input and return the last '
  'output, copied-input and temporary-input parts run their pipeline on a copy or on the temporary input and return the outer input, before/after printing and per-activity execution run '
  'their pipelines exactly once per log they are for, and nesting such parts is the same as running their pipelines in their place.',
  ['programs', 'inputs'], 'every composition of parts, every condition outcome',
  'Tests use a few fixed pipelines.',
  [PP + 'pipelines.py', PP + 'common.py'], [('pipeline', PP + 'pipelines.py:Pipeline')])

P('C20', 'Pipeline context returns what was last stored under each key',
  'Reading a key of a pipeline result returns the value stored last under that key and nothing else, absent keys are reported as absent or raise, storing never affects other keys, every accessor reads '
  'the key its storing counterpart writes, and a copied context is independent of its source.',
  ['histories'], 'every sequence of stores, reads and copies',
  'Tests exercise single reads.',
  [PP + 'contexts/part_results.py', PP + 'contexts/accessors.py', PP + 'contexts/keys.py'],
  [('context', PP + 'contexts/part_results.py')])

P('C21', 'Copies of logs are complete, independent and equal to the original',
  'Two events are equal if and only if their attributes are, two traces if and only if their events are in order, two logs if and only if their traces, attributes, extensions, classifiers and '
  'properties are; equal logs, traces and events of plain values have equal hashes. A copy of a log, trace or event carries all traces, events, attributes (trace attributes included), global values and header data of '
  'the original, compares equal to it, and later changes of its list of traces, events or attribute map do not reach the other side; list operations (append, insert, slices, iteration, '
  'length, membership) act on exactly the addressed elements.',
  ['inputs', 'histories'], 'every log and every later modification of either side',
  'Tests copy a few logs without header data or attributes.',
  [L + 'event_log.py'], [('event log model', L + 'event_log.py')])

P('C22', 'Conversion to and from pm4py logs preserves events',
  'Converting a log to a pm4py log and back gives the same traces with the same events in the same order with the same attributes, the same trace attributes and the same log attributes, extensions, classifiers, '
  'global values and properties, and converting changes neither side; later edits of one side do not reach the other.',
  ['inputs'], 'every log with any attributes',
  'Tests convert fixed logs.',
  [L + 'pm4py_converters.py'], [('converters', L + 'pm4py_converters.py')])

P('C23', 'Multi-level activity discovery terminates and is lossless',
  'Repeatedly discovering activities and abstracting the log terminates for every log, discovery strategy, level setting and class extractors, never makes the log longer, runs the given pipelines once before and '
  'once after every abstraction, gives ordered and disjoint instances inside their traces, and flattening the result restores exactly the events of the original traces in order. Activities found with the n-th of several class extractors have the initial level plus n; given activities come first in the result and given instances stay. The given log, activities and instances are unchanged, also for other pipelines that run on copies of the context.',
  ['inputs', 'configurations'], 'every log, level limit and strategy',
  'Tests run it on fixed logs.',
  [PP + 'analysis/high_level.py', PP + 'analysis/patterns/patterns_parts.py', PT + 'event_log_patterns.py'],
  [('multi-level discovery', PP + 'analysis/high_level.py')])

P('C24', 'Values survive encoding to and decoding from the wire format',
  'Every context value sent to the backend decodes to the same value it was created from, and every value the backend sends decodes to the same content: names, order, nesting, numbers and texts of strings, '
  'numbers, booleans, enumerations, lists of strings, names logs and hashes logs, event log information, colour logs, graphs, Petri nets, annotations and (labelled) data sets. '
  'Absent optional fields and markings decode to absent. Numbers are those the wire type can carry (32-bit floats where it has them).',
  ['inputs'], 'every value of the supported kinds',
  'The tests need a running backend and use fixed values.',
  [G + 'context_values.py', G + 'data_models.py'], [('context values', G + 'context_values.py')])

P('C25', 'Remote pipelines are serialised with all parts, order and options',
  'The request built for a remote pipeline lists every part exactly once, in order and correct nesting, under the name the backend knows, and carries every option of the part under its own key with the value '
  'the user gave or the default of the constructor; optional options that are absent are left out. Results are requested under the id of the part that wants them. Building the request does not change the pipeline, '
  'building it twice gives equal requests, and things that are not parts are refused.',
  ['programs', 'configurations'], 'every composition of parts and all option values',
  'The tests need a running backend and fixed pipelines.',
  [G + 'grpc_pipelines.py', G + 'activities_parts.py', G + 'patterns_parts.py', G + 'constants.py'],
  [('serialisation', G + 'grpc_pipelines.py:Pipeline2.to_grpc_pipeline')])

P('C26', 'Streamed backend results reach the right part and decide the outcome',
  'While executing a remote pipeline, every partial result up to the final one is delivered exactly once, in order, to the part (at any nesting depth) that asked for it and to no other; the final result decides the outcome: '
  'its success returns the context it names, which is dropped on the backend exactly once when it should be, its failure is reported as such, and an error of the connection reaches the caller. The request goes to the address given in the '
  'initial context or the default one, carries the values of the initial context under their keys, and the caller\'s initial context is not modified.',
  ['histories', 'programs'], 'every stream of partial results, log messages and final results',
  'The tests need a running backend.',
  [G + 'grpc_pipelines.py'], [('execution', G + 'grpc_pipelines.py:Pipeline2.execute')])

P('C27', 'Trace diagrams tile every trace exactly with the right colours',
  'In a trace diagram the rectangles drawn for a trace cover each of its events exactly once (in short diagrams each instance and gap once), in order, without gaps or overlaps, on the row of that trace and scaled as asked, and '
  'two rectangles have the same colour if and only if they belong to the same class, activity or sequence of a pattern; what belongs to nothing is black. Placement diagrams colour exactly the instances of the chosen activity, never black. '
  'A colours log is drawn with the colours and lengths it gives. The legend lists every drawn class once with its colour. Trace histograms count the traces of every variant, entropy histograms have one bar per class with its value. '
  'Every diagram is saved once at the given path or shown.',
  ['inputs', 'configurations'], 'every log, set of instances and drawing option',
  'Tests do not look at the drawing.',
  [A + 'event_log_analysis_canvas.py', A + 'event_log_analysis.py', PP + 'analysis/patterns/patterns_graph_parts.py'],
  [('canvas', A + 'event_log_analysis_canvas.py')])

P('C28', 'Colours handed out are unique and stable per name',
  'A colour provider never hands out a colour twice between two resets, nor black, whatever random values come up; a provider of a single colour keeps it until it is reset. A name keeps its colour in all diagrams that share '
  'cached colours, also when the provider is reset in between, a new name never gets a colour that is cached for another one, and events that are not selected are black and get no colour of their own.',
  ['histories'], 'every sequence of requests and random values',
  'Tests cannot enumerate random outcomes.',
  ['legacy/util.py', A + 'event_log_analysis.py'], [('colour provider', 'legacy/util.py')])

P('C29', 'Drawn graphs and Petri nets have exactly the model\'s nodes and edges',
  'Drawing a graph or Petri net adds every node, place and transition exactly once with its label (names of places when asked for) and every edge or arc exactly once from its source to its target with its label or annotation, '
  'marks initial places with a token and final places with a double border, and draws with the given engine, colour and direction, exported once to the given path (with or without a directory) or displayed. '
  'Drawing activities or event classes adds one node per name and one edge from every child to its parent (and from the top to a root when asked for), whatever characters the names consist of (a text of the form <...> aside, which graphviz reads as markup); '
  'per-level drawing makes one drawing per level, and the serialised text of a graph does not depend on the order of its nodes.',
  ['inputs'], 'every graph and net up to the bound',
  'Tests do not look at the drawing.',
  ['legacy/discovery/graph.py', 'legacy/discovery/petri_net.py', PT + 'patterns_graphs.py',
   'legacy/pipelines/analysis/patterns/patterns_graph_parts.py'], [('drawing', 'legacy/discovery/petri_net.py')])

P('C30', 'The native backend computes the same results as the client library',
  'For every log and parameter setting the native backend\'s pattern discovery, activity discovery and abstraction give the results the client '
  'library defines for them, and the backend drops no request it has accepted.',
  ['inputs', 'schedules'], 'every log and every interleaving of requests',
  'The tests of the backend need the native toolchain and gold files.',
  ['RUST'], [('backend', 'RUST')])

P('C31', 'Results of remote parts are shown exactly as they were delivered',
  'A part that draws the colours log delivered by the backend draws every rectangle of the log with its length and colour in its row, honours title, scales, legend and path, and by default plots with a legend without scaling '
  'and draws canvases without a legend. Printing a delivered log prints one line per trace with its names in order, printing log information prints every count under its own name, and printing the number of underlying events '
  'prints the delivered number.',
  ['inputs', 'configurations'], 'every delivered log, number and drawing option',
  'The tests need a running backend and do not look at what is drawn or printed.',
  [G + 'drawing_parts.py', G + 'util_parts.py', G + 'grpc_pipelines.py', G + 'activities_parts.py', G + 'context_values.py'],
  [('drawing parts', G + 'drawing_parts.py'), ('printing parts', G + 'util_parts.py:PrintEventLog2')])

P('C33', 'Printed and saved reports match the log and its activities',
  'Saved event names list every name of the log once. Printed log information gives the numbers of traces, events and event classes, and around an operation those of the log before and after it. The printed directly-follows '
  'graph lists for every selected name exactly its followers (artificial end included) with their counts. Saved activity names list, level by level in ascending order, every activity of the level and below it once; printed activities, '
  'their number and their hashes list every activity. Unattached events are listed by name once each and their share is the number of events in no instance over all events; saved instance names list every used activity once, '
  'saved indices every instance with position and length trace by trace, and every event inside an instance gets the name of its activity. Entropy diagrams show the values of the filtering steps. The context stays as it was.',
  ['inputs'], 'every log, set of activities and set of disjoint instances',
  'The tests never look at the reports.',
  [PP + 'analysis/analysis_parts.py', PP + 'analysis/patterns/patterns_parts.py', PP + 'filtering/filter_parts.py', PT + 'util.py'],
  [('log reports', PP + 'analysis/analysis_parts.py'), ('activity reports', PP + 'analysis/patterns/patterns_parts.py')])

P('C32', 'Scatter plots show every row of a data set once, with its label',
  'Visualising a data set embeds exactly its rows, without the labels, into the asked number of components with the asked method and draws every row once at its embedded position (at height zero for one component). '
  'With labels the rows of one label form one group with the colour of the label (white if it has none), named CLUSTER_<label> in the legend; without labels there is no legend. Three components are drawn in a 3D projection with the '
  'given view. Axes are labelled with the given font size and the diagram is saved once at the given path and closed, or shown. Parts draw the data set that was delivered, by default with three PCA components, and nothing when '
  'no visualisation is asked for.',
  ['inputs', 'configurations'], 'every data set, labelling and drawing option up to the bound',
  'The tests do not draw data sets.',
  [A + 'event_log_analysis.py', G + 'activities_parts.py', G + 'context_values.py'],
  [('data set plots', A + 'event_log_analysis.py:visualize_dataset'), ('clusterization parts', G + 'activities_parts.py:ClusterizationPartWithVisualization2')])

P('C34', 'Discovering a Petri net hands over the whole log and keeps its result',
  'Discovering a Petri net with the inductive, alpha, alpha plus or heuristics algorithm gives that algorithm exactly the log (its traces, events, order, attributes and names) and the given thresholds '
  '(noise 0, all heuristics thresholds 0.5 when not given), and the result of the part holds the net with the initial and final marking that were found, next to the log, which stays as it was. Viewing or saving draws exactly the last '
  'net found with its markings, saved under the given path or shown.',
  ['inputs', 'configurations'], 'every log, threshold and algorithm',
  'The tests do not discover nets.',
  [PP + 'discovery/discovery_parts.py', L + 'pm4py_converters.py'],
  [('discovery parts', PP + 'discovery/discovery_parts.py')])

P('C35', 'Names, levels and texts of sub-arrays and activities are exact',
  'The names of a sub-array are exactly the distinct names of its events (of its event classes when a class extractor is given), for a list of sub-arrays one such list each; for sub-arrays per trace the names are listed in order '
  'with repetitions. Splitting activities by level gives the levels in ascending order, each with exactly its activities in order; choosing the activities, or the instances in traces, of one level gives exactly those in order, with one list per trace. '
  'The text of a node is its name followed by the texts of its children in brackets, in order. Nothing given is changed.',
  ['inputs'], 'every log, sub-array and set of activities',
  'The tests cover none of these helpers on their own.',
  [PT + 'util.py', PT + 'patterns_models.py', A + 'common/common_models.py'],
  [('helpers', PT + 'util.py')])

RP = 'features/analysis/patterns/'

P('C36', 'Rust backend: repeats and pattern search are exact for every trace',
  'For every trace the maximal, super-maximal and near-super-maximal repeats the native backend reports are exactly the repeats of that kind that occur in the trace, each once, at a place inside the trace; '
  'for several traces, taken one by one or merged, the same holds for the traces or the merged text, and no repeat runs over the end of a trace. An occurrence at the very start of a trace does not make a repeat near-super-maximal. '
  'Searching a pattern finds exactly its occurrences, in order, and reports nothing when there is none. No input makes it panic.',
  ['inputs'], 'every trace and log up to the bound, every equality pattern and hash seed explored',
  'The Rust tests compare a handful of fixed strings; suffix-tree faults appear for particular overlaps and trace borders only.',
  ['utils/suffix_tree/suffix_tree_patterns.rs', RP + 'repeats.rs'],
  [('suffix tree', 'utils/suffix_tree/tree_builder.rs'), ('repeats', RP + 'repeats.rs')])

P('C37', 'Rust backend: tandem arrays of every trace are exact',
  'For every trace the tandem arrays the native backend reports are exactly the maximal immediate repetitions whose base has at least two events and fewer than the given length: first event, length of the base and number of repetitions, every base text once, where it first repeats. '
  'Primitive tandem arrays are exactly those of them at whose first event no repetition of a base of at least two events and at most half their base (rounded up) starts; so none has a base that repeats a shorter one. The lists with and without numbers of repetitions agree, and different bases are kept apart even if their hashes collide.',
  ['inputs'], 'every trace and log up to the bound and every maximum length',
  'The Rust tests use a handful of fixed strings.',
  [RP + 'tandem_arrays.rs', 'utils/hash_utils.rs'],
  [('tandem arrays', RP + 'tandem_arrays.rs')])

P('C38', 'Rust backend: the interval tree answers every query exactly',
  'For every non-empty list of intervals, looking up a point gives exactly the intervals that contain it, looking up a range of points exactly those that contain one of them, and asking for the intervals inside a given one exactly those it encloses; '
  'every interval is given once, ordered by its left end, and asking again gives the same answer.',
  ['inputs'], 'every list of intervals and query up to the bound',
  'The Rust tests use fixed intervals; centre and border cases depend on the relation of all bounds.',
  ['utils/interval_tree/tree.rs'],
  [('interval tree', 'utils/interval_tree/tree.rs')])

P('C39', 'Rust backend: repeat sets and the activity tree are exact',
  'Every distinct set of event classes of the given sub-arrays is represented exactly once, by its first occurrence, in the order of traces and positions, even when hashes collide. The activity tree built from distinct sets holds exactly those sets; '
  'a set is at the top exactly when no other set contains it, every child is strictly contained in its parent, a contained set lies below at least every smallest set that contains it, and every activity has the given level and the name of its events.',
  ['inputs'], 'every log and choice of sub-arrays up to the bound',
  'The Rust tests compare a few gold trees.',
  [RP + 'repeat_sets.rs'],
  [('repeat sets and tree', RP + 'repeat_sets.rs:build_repeat_set_tree_from_repeats')])

P('C40', 'Rust backend: activity instances in traces are exact',
  'Searching activities in a trace gives the instances the greedy rule defines: an event in an activity starts an instance of the smallest one that contains it (by size, then name), which grows as long as the activity, or the first one at least as big that contains all '
  'classes seen so far, contains the next event. Narrowing down (also up and down) gives the smallest activity below that contains all classes of the instance; the default filter keeps instances of activities with at least the minimum number of classes that are longer than half of them. '
  'Instances are disjoint and in order, walking through them covers every event of the trace exactly once, and events in no instance, in gaps of at least the given length, are searched with further activities without touching the instances found before.',
  ['inputs', 'configurations'], 'every trace, tree, narrowing kind and filter up to the bound',
  'The Rust tests compare a few gold instances.',
  [RP + 'activity_instances.rs'],
  [('instances', RP + 'activity_instances.rs:extract_activities_instances')])

AN, DI = 'features/analysis/', 'features/discovery/'
P('C41', 'Rust backend: log information and the directly-follows graph are exact',
  'For every log the information the native backend computes is exact: the number of traces, of all events, of event classes and of events of each class, the first and last classes of the traces, and, for every two classes, how often one directly follows the other in a trace, '
  'with followers, predecessors and the classes that have a single follower. Events with an ignored name are left out (they still count as events), their neighbours follow each other; artificial start and end come before the first and after the last event of a trace that has events left. '
  'The directly-follows graph has one node per class and one edge, weighted with its count, per pair; the log is not changed.',
  ['inputs', 'configurations'], 'every log and ignored names up to the bound',
  'The Rust tests compare a few fixed logs.',
  [AN + 'event_log_info.rs', AN + 'directly_follows_graph.rs'],
  [('log information', AN + 'event_log_info.rs:create_from'), ('graph', AN + 'directly_follows_graph.rs')])

P('C42', 'Rust backend: entropies of event classes are exact',
  'For every log the directly-follows entropy (with and without Laplace smoothing) and the positional entropy of every event class that is not ignored have the values of their definitions, every class once; the fast positional entropy gives the same values as the direct one, and the log is not changed.',
  ['inputs'], 'every log and ignored names up to the bound',
  'The Rust tests compare a few gold values.',
  [AN + 'entropy/dfg_entropy.rs', AN + 'entropy/pos_entropy.rs', AN + 'entropy/pos_entropy_fast.rs'],
  [('entropies', AN + 'entropy/mod.rs')])

P('C43', 'Rust backend: a log shows its current events after every history of edits',
  'After any history of removing events by name, renaming, adding artificial start and end events, dropping traces, pushing events or traces and copying, the log holds exactly the events the edits leave, in order, traces that lost all events to a removal by name are gone, '
  'and everything looked up about a trace (names, number of events, counts and positions of every name, hashed and raw logs) is that of its current events, whether or not it was looked up before the edit. A copy keeps its events when the original is edited.',
  ['inputs', 'histories'], 'every history of edits and lookups up to the bound',
  'The Rust tests apply single edits to fixed logs; stale values show only when a lookup comes before an edit.',
  ['features/mutations/filtering.rs', 'features/mutations/mutations.rs', 'event_log/core/event/events_holder.rs', 'event_log/simple/simple_event_log.rs'],
  [('mutations', 'features/mutations/mutations.rs'), ('traces', 'event_log/core/event/events_holder.rs')])

P('C44', 'Rust backend: variants group exactly the equal traces',
  'For every log the groups of traces are exactly the classes of traces with equal sequences of event names, in the order of their first traces, each with its traces in log order and with all their events; different sequences are kept apart even if hashes collide. '
  'Iterating over a log gives its traces and their events in order, and the log is not changed.',
  ['inputs'], 'every log up to the bound',
  'The Rust tests use fixed logs.',
  ['features/mutations/split.rs', 'event_log/core/log_iterator.rs'],
  [('variants', 'features/mutations/split.rs')])

P('C45', 'Rust backend: abstracting a log by activity instances keeps the right events',
  'Abstracting a log by ordered disjoint instances replaces each instance by one event named as its activity and drops, keeps or replaces by a single event the events of no instance, as asked; the events below an abstract event are exactly those of its instance, also after abstracting twice, down to the events of the first log. '
  'Logs of activities hold, per activity (of the given level), one trace per instance with its events in order; the log of unattached events holds the events of no instance, trace by trace. The given log is not changed.',
  ['inputs', 'configurations'], 'every log, set of instances, names and handling strategy up to the bound',
  'The Rust tests compare a few gold logs.',
  [RP + 'activity_instances.rs'],
  [('abstraction', RP + 'activity_instances.rs:create_new_log_from_activities_instances')])

P('C46', 'Rust backend: discovery from a log runs its steps on the classes of its events',
  'Discovering patterns, repeat sets, the activity tree, activity instances and the abstracted log directly from a log gives what the single steps give for the classes of its events (their names or the extracted classes), for every kind of pattern, both strategies, every level, narrowing and filter; '
  'activities are named after the events of their first occurrence and have the given level. The log is not changed.',
  ['inputs', 'configurations'], 'every log, kind, strategy and level up to the bound',
  'The Rust tests use one log per entry point.',
  [RP + 'entry_points.rs', RP + 'contexts.rs'],
  [('entry points', RP + 'entry_points.rs')])

P('C47', 'Rust backend: the nets of the alpha and alpha+ miners are exact',
  'For every log the alpha miner gives a net with one transition per event class and, besides a start place before the first and an end place after the last classes of the traces, exactly the places between the maximal pairs of sets of classes such that every class of the first is only followed by, and never follows, every class of the second '
  'and no class directly follows another one (or itself) within a set. The alpha+ miner does the same on the log without the classes that directly repeat, where two classes that follow each other both ways also count as causal if both alternate in the log (a b a and b a b); every repeating class takes from and gives to the place between exactly its other predecessors and successors, '
  'which is made if there is none. One token is on the start place, the final marking is one on the end place; no arc is doubled, and no log makes the miners panic.',
  ['inputs'], 'every log up to the bound',
  'The Rust tests compare three gold nets.',
  [DI + 'alpha/alpha.rs', DI + 'alpha/alpha_set.rs', DI + 'alpha/providers/alpha_plus_provider.rs', DI + 'petri_net/petri_net.rs'],
  [('alpha miners', DI + 'alpha/alpha.rs:discover_petri_net_alpha')])

P('C48', 'Rust backend: the nets of the heuristic miner follow its relations',
  'For every log and thresholds the heuristic miner makes one transition per class; a class is followed by those whose count and dependency measure pass the thresholds and are close enough to its best one, and then gives to one place of its own. From it every maximal set of pairwise parallel followers is reached by one silent transition through one new place per member, '
  'the other followers directly. For two classes in a loop of length two each one also takes from the places the other gives to and gives to those it takes from. Adding an initial marking joins a start place with one token to the classes that begin a trace and an end place to those that end one, and replaying the log on the net fires only enabled transitions.',
  ['inputs', 'configurations'], 'every log up to the bound, several choices of all thresholds',
  'The Rust tests compare a few gold nets.',
  [DI + 'heuristic/heuristic_miner.rs', DI + 'heuristic/relations_provider.rs', DI + 'petri_net/marking.rs'],
  [('heuristic miner', DI + 'heuristic/heuristic_miner.rs')])

P('C49', 'Rust backend: replaying on a Petri net finds a run exactly when there is one',
  'For every Petri net with an initial marking and every log, a trace is replayed exactly when firing enabled transitions from the initial marking, silent ones at any time, can spell it; the reported run fires only enabled transitions and spells the trace. '
  'Annotations count, for every arc, how often its transition fires in the runs of all replayed traces, as a number, as a share of all counts, or per trace of the log; they are refused when asked to stop on a trace that cannot be replayed, and without an initial marking nothing is replayed. '
  'Ensuring an initial marking adds one start place with one token before a transition of every name that begins a trace, and one end place after one of every name that ends a trace; empty traces add nothing.',
  ['inputs', 'configurations'], 'every small net, marking and log up to the bound',
  'The Rust tests replay three logs on discovered nets.',
  [DI + 'petri_net/replay.rs', DI + 'petri_net/annotations.rs', DI + 'petri_net/marking.rs', DI + 'petri_net/petri_net.rs'],
  [('replay', DI + 'petri_net/replay.rs:replay_petri_net')])

P('C50', 'Rust backend: the graph answers what was put into it',
  'For every sequence of adding nodes, connecting, disconnecting and merging them: the graph has exactly the nodes and edges that result, with their data; connecting keeps an edge that is there and does nothing for an id that is no node; disconnecting tells whether there was an edge. '
  'Asked for a node, the outgoing nodes are those it has an edge to, the incoming ones those with an edge to it, the connected ones are both together. Merging a set of nodes replaces them by one node, joins all edges from or to the same outside node into one, whose data is made of the data of exactly these edges, and drops the edges within the set; a default graph has the same nodes and edges.',
  ['inputs', 'histories'], 'every small graph and sequence of operations up to the bound',
  'There are no Rust tests of the graph.',
  ['utils/graph/graph.rs', 'utils/graph/graph_clusters.rs', 'utils/graph/graph_conversions.rs'],
  [('graph', 'utils/graph/graph.rs'), ('merging nodes', 'utils/graph/graph_clusters.rs:merge_nodes_into_one')])

P('C51', 'Rust backend: the graphs of the fuzzy miner are exact',
  'For every log and thresholds the fuzzy miner keeps the classes that occur more often than the unary threshold and connects those that follow each other more often than the binary one; of two classes connected both ways with a relative significance below the preserve threshold, the less significant edge goes if they differ by more than the ratio threshold, and both otherwise; '
  'of the edges into a node those go whose utility (the utility rate weighs count against mean time distance), scaled between the least and the greatest one, is below the edge cutoff. A class that occurs less often than the node cutoff and has a neighbour joins the cluster of the neighbour it is closest correlated with or begins one; '
  'a cluster all of whose successors, or predecessors, are in clusters is joined with the most correlated of them. Every kept class is in exactly one node of the result, alone or in a cluster; its edges are those of the graph before, with summed weights, without those within a cluster.',
  ['inputs', 'configurations'], 'every log up to the bound, several choices of all thresholds',
  'There are no Rust tests of the fuzzy miner.',
  [DI + 'fuzzy/fuzzy_miner.rs', DI + 'fuzzy/fuzzy_metrics_provider.rs', 'utils/graph/graph_clusters.rs', 'utils/graph/graph.rs'],
  [('fuzzy miner', DI + 'fuzzy/fuzzy_miner.rs:discover_graph_fuzzy')])

P('C52', 'Rust backend: XES logs are read back as they were written',
  'A log that is written as XES and read back has the same extensions, classifiers, properties, globals, traces and events in the same order, names, times and attributes, whatever characters names and values contain; only empty traces are left out, numbers and lifecycles come back as 64-bit numbers and strings, and events get the defaults of the event global for attributes they do not have. '
  'Reading a document gives every event that has a name and a date, of its own or by default, with its own attributes over the defaults; headers that are not complete, values that cannot be read and events without a name or a date are skipped. '
  'Reading ends for every file, also one that breaks off or is not well-formed, with what was complete until then; a file that is not there gives no log; the log and its events can be edited like any other, attributes that are there or not included.',
  ['inputs', 'fault_sequences'], 'every log and document up to the bound, cut off anywhere',
  'The one Rust test rewrites example logs.',
  ['event_log/xes/reader/file_xes_log_reader.rs', 'event_log/xes/reader/xes_log_trace_reader.rs', 'event_log/xes/reader/utils.rs', 'event_log/xes/writer/xes_event_log_writer.rs', 'event_log/xes/xes_event.rs', 'utils/xml_utils.rs'],
  [('XES reading', 'event_log/xes/reader/file_xes_log_reader.rs'), ('XES writing', 'event_log/xes/writer/xes_event_log_writer.rs')])

P('C53', 'Rust backend: the PNML text of a net describes exactly that net',
  'For every Petri net the PNML text is well-formed, whatever characters names contain, and has one net with exactly one element for every place, transition and arc, places and transitions in the order of their names. '
  'Places and transitions are identified by their number or, when asked, their name; the arcs have the ids of the place and the transition they join, in their direction, and a transition has the name it shows, if it has one. '
  'The file that is written holds the same text.',
  ['inputs', 'configurations'], 'every small net with any names',
  'The one Rust test compares one net.',
  [DI + 'petri_net/pnml_serialization.rs', 'utils/xml_utils.rs'],
  [('PNML', DI + 'petri_net/pnml_serialization.rs:serialize_to_pnml')])
