"""The request built for a remote pipeline."""
from .common import *
from . import pbsym
import inspect
import itertools
import struct

ASSUMPTIONS = ['the protobuf runtime is trusted (stand-ins with the same descriptors carry symbolic values; every path is replayed through the real messages and their real encoding)',
               'the names of parts, option keys and enumerations are those of the backend sources (parts_names.rs, context_keys_init.rs, FromStr implementations)',
               'the order of the options of one part carries no meaning']
BOUNDS_TEXT = ('every part class with every option symbolic (texts of 0-2 characters, numbers over the whole wire range, all enumeration members, all outcomes of optional '
               'options) and with defaults; pipelines of up to 3 parts of 6 kinds, nested up to 3 deep; every request built twice')

A, F, D, X, PT, MU, UT, DR, GP = ('activities_parts', 'filtering_parts', 'discovery_parts', 'xes_parts', 'patterns_parts', 'mutation_parts', 'util_parts', 'drawing_parts', 'grpc_pipelines')
# option kinds: 'u' uint32, 's' text, 'os' optional text, 'f' real, 'b' boolean, 'ss' list of texts, 'p' pipeline, 'op' optional pipeline, enum name
ENUMS = {'PatternsDiscoveryStrategy': ('data_models', 'PatternsDiscoveryStrategy', ['FromAllTraces', 'FromSingleMergedTrace']),
         'PatternsKindDto': ('data_models', 'PatternsKind', ['PrimitiveTandemArrays', 'MaximalTandemArrays', 'MaximalRepeats', 'SuperMaximalRepeats', 'NearSuperMaximalRepeats']),
         'ActivityNarrowingKind': ('data_models', 'NarrowActivityKind', ['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']),
         'ActivityInTraceFilterKind': ('data_models', 'ActivityFilterKind', ['NoFilter', 'DefaultFilter']),
         'ActivitiesLogsSourceDto': ('data_models', 'ActivitiesLogsSource', ['Log', 'TracesActivities']),
         'ActivityRepresentationSource': ('data_models', 'ActivitiesRepresentationSource', ['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents']),
         'FicusDistance': ('data_models', 'Distance', ['Cosine', 'L1', 'L2', 'Levenshtein']),
         'TracesRepresentationSource': ('data_models', 'TracesRepresentationSource', ['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents']),
         'AdjustingMode': (None, 'AdjustingMode', ['FromAllLog', 'FromUnattachedSubTraces']),
         'UndefActivityHandlingStrategyDto': (None, 'UndefinedActivityHandlingStrategy', ['DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents'])}
CLUST = {'activity_level': ('activity_level', 'u'), 'tolerance': ('tolerance', 'f'), 'class_extractor': ('event_class_regex', 'os'),
         'activities_repr_source': ('activities_repr_source', 'ActivityRepresentationSource'), 'distance': ('distance', 'FicusDistance')}
REP = {'strategy': ('patterns_discovery_strategy', 'PatternsDiscoveryStrategy'), 'class_extractor': ('event_class_regex', 'os')}
TAN = {'max_array_length': ('tandem_array_length', 'u'), 'class_extractor': ('event_class_regex', 'os')}
COL = ['colors_event_log']
# (module, class, backend name, requested keys (None: plain part), options)
PARTS = [
    (X, 'ReadLogFromXes2', 'ReadLogFromXes', None, {}), (X, 'ReadLogFromBxes2', 'ReadLogFromBxes', None, {}),
    (X, 'WriteLogToXes2', 'WriteLogToXes', None, {'save_path': ('path', 's')}), (X, 'WriteLogToBxes2', 'WriteLogToBxes', None, {'save_path': ('path', 's')}),
    (MU, 'AddStartEndArtificialEvents2', 'AddArtificialStartEndEvents', None, {}), (MU, 'AddStartArtificialEvents2', 'AddArtificialStartEvents', None, {}),
    (MU, 'AddEndArtificialEvents2', 'AddArtificialEndEvents', None, {}),
    (F, 'FilterTracesByEventsCount2', 'FilterTracesByEventsCount', None, {'min_events_in_trace': ('events_count', 'u')}),
    (F, 'FilterEventsByName2', 'FilterEventsByName', None, {'event_name': ('event_name', 's')}), (F, 'FilterEventsByRegex2', 'FilterEventsByRegex', None, {'regex': ('regex', 's')}),
    (F, 'FilterLogByVariants2', 'FilterLogByVariants', None, {}),
    (PT, 'FindPrimitiveTandemArrays2', 'FindPrimitiveTandemArrays', None, TAN), (PT, 'FindMaximalTandemArrays2', 'FindMaximalTandemArrays', None, TAN),
    (PT, 'FindMaximalRepeats2', 'FindMaximalRepeats', None, REP), (PT, 'FindSuperMaximalRepeats2', 'FindSuperMaximalRepeats', None, REP),
    (PT, 'FindNearSuperMaximalRepeats2', 'FindNearSuperMaximalRepeats', None, REP),
    (A, 'DiscoverActivities2', 'DiscoverActivities', None, {'activity_level': ('activity_level', 'u')}),
    (A, 'DiscoverActivitiesInstances2', 'DiscoverActivitiesInstances', None, {'narrow_activities': ('narrow_activities', 'ActivityNarrowingKind'),
     'min_events_in_activity': ('min_activity_length', 'u'), 'activity_filter_kind': ('activity_in_trace_filter_kind', 'ActivityInTraceFilterKind')}),
    (A, 'CreateLogFromActivitiesInstances2', 'CreateLogFromActivities', None, {'strategy': ('undef_activity_handling_strategy', 'UndefActivityHandlingStrategyDto')}),
    (A, 'DiscoverActivitiesForSeveralLevels2', 'DiscoverActivitiesForSeveralLevels', None, {
        'event_classes': ('event_classes_regexes', 'ss'), 'patterns_kind': ('patterns_kind', 'PatternsKindDto'), 'narrow_activities': ('narrow_activities', 'ActivityNarrowingKind'),
        'activity_level': ('activity_level', 'u'), 'strategy': ('patterns_discovery_strategy', 'PatternsDiscoveryStrategy'), 'max_array_length': ('tandem_array_length', 'u'),
        'adjusting_mode': ('adjusting_mode', 'AdjustingMode'), 'min_events_in_unattached_subtrace_count': ('events_count', 'u'),
        'min_events_in_activity_count': ('min_activity_length', 'u'), 'activity_filter_kind': ('activity_in_trace_filter_kind', 'ActivityInTraceFilterKind')}),
    (A, 'DiscoverActivitiesUntilNoMore2', 'DiscoverActivitiesUntilNoMore', None, {
        'event_class': ('event_class_regex', 'os'), 'patterns_kind': ('patterns_kind', 'PatternsKindDto'), 'narrow_activities': ('narrow_activities', 'ActivityNarrowingKind'),
        'activity_level': ('activity_level', 'u'), 'strategy': ('patterns_discovery_strategy', 'PatternsDiscoveryStrategy'),
        'undef_strategy': ('undef_activity_handling_strategy', 'UndefActivityHandlingStrategyDto'), 'max_array_length': ('tandem_array_length', 'u'),
        'adjusting_mode': ('adjusting_mode', 'AdjustingMode'), 'min_events_in_unattached_subtrace_count': ('events_count', 'u'),
        'min_events_in_activity_count': ('min_activity_length', 'u'), 'activity_filter_kind': ('activity_in_trace_filter_kind', 'ActivityInTraceFilterKind'),
        'after_activities_extraction_pipeline': ('pipeline', 'op'), 'execute_only_on_last_extraction': ('execute_only_on_last_extraction', 'b')}),
    (A, 'ExecuteWithEachActivityLog2', 'ExecuteWithEachActivityLog', None, {'activities_logs_source': ('activities_logs_source', 'ActivitiesLogsSourceDto'),
     'activity_level': ('activity_level', 'u'), 'activity_log_pipeline': ('pipeline', 'p')}),
    (A, 'SubstituteUnderlyingEvents2', 'SubstituteUnderlyingEvents', None, {}), (A, 'ClearActivitiesRelatedStuff2', 'ClearActivities', None, {}),
    (A, 'PrintNumberOfUnderlyingEvents2', 'GetUnderlyingEventsCount', ['underlying_events_count'], {}),
    (A, 'ApplyClassExtractor2', 'ApplyClassExtractor', None, {'class_extractor_regex': ('event_class_regex', 's'), 'filter_regex': ('regex', 's')}),
    (A, 'ClusterizeActivitiesFromTracesKMeans', 'ClusterizeActivitiesFromTracesKMeans', ['labeled_traces_activities_dataset'],
     dict(CLUST, clusters_count=('clusters_count', 'u'), learning_iterations_count=('learning_iterations_count', 'u'))),
    (A, 'ClusterizeActivitiesFromTracesKMeansGridSearch', 'ClusterizeActivitiesFromTracesKMeansGridSearch', ['labeled_traces_activities_dataset'],
     dict(CLUST, learning_iterations_count=('learning_iterations_count', 'u'))),
    (A, 'ClusterizeActivitiesFromTracesDbscan', 'ClusterizeActivitiesFromTracesDbscan', ['labeled_traces_activities_dataset'],
     dict(CLUST, min_events_count_in_cluster=('min_events_in_cluster_count', 'u'))),
    (A, 'VisualizeTracesActivities2', 'CreateTracesActivitiesDataset', ['traces_activities_dataset'],
     {k: CLUST[k] for k in ('activity_level', 'class_extractor', 'activities_repr_source')}),
    (A, 'ClusterizeLogTracesDbscan', 'ClusterizeLogTraces', ['labeled_log_traces_dataset'], {
        'after_clusterization_pipeline': ('pipeline', 'p'), 'min_events_count_in_cluster': ('min_events_in_cluster_count', 'u'), 'tolerance': ('tolerance', 'f'),
        'distance': ('distance', 'FicusDistance'), 'traces_repr_source': ('traces_repr_source', 'TracesRepresentationSource'), 'class_extractor': ('event_class_regex', 'os')}),
    (D, 'DiscoverPetriNetAlpha2', 'DiscoverPetriNetAlpha', None, {}), (D, 'DiscoverPetriNetAlphaPlus2', 'DiscoverPetriNetAlphaPlus', None, {}),
    (D, 'DiscoverPetriNetAlphaPlusPlus2', 'DiscoverPetriNetAlphaPlusPlus', None, {}), (D, 'DiscoverPetriNetAlphaPlusPlusNfc2', 'DiscoverPetriNetAlphaPlusPlusNfc', None, {}),
    (D, 'DiscoverPetriNetHeuristic2', 'DiscoverPetriNetHeuristic', None, {
        'dependency_threshold': ('dependency_threshold', 'f'), 'positive_observations_threshold': ('positive_observations_threshold', 'u'),
        'relative_to_best_threshold': ('relative_to_best_threshold', 'f'), 'and_threshold': ('and_threshold', 'f'), 'loop_length_two_threshold': ('loop_length_two_threshold', 'f')}),
    (D, 'DiscoverFuzzyGraph', 'DiscoverFuzzyGraph', None, {
        'unary_frequency_threshold': ('unary_frequency_threshold', 'f'), 'binary_significance_threshold': ('binary_frequency_significance_threshold', 'f'),
        'preserve_threshold': ('preserve_threshold', 'f'), 'ratio_threshold': ('ratio_threshold', 'f'), 'utility_rate': ('utility_rate', 'f'),
        'edge_cutoff_threshold': ('edge_cutoff_threshold', 'f'), 'node_cutoff_threshold': ('node_cutoff_threshold', 'f')}),
    (D, 'SerializePetriNetToPNML2', 'SerializePetriNet', None, {'save_path': ('path', 's'), 'use_names_as_ids': ('pnml_use_names_as_ids', 'b')}),
    (D, 'ViewPetriNet2', None, ['petri_net'], {}), (D, 'ViewGraph2', None, ['graph'], {}),
    (D, 'ViewDirectlyFollowsGraph2', 'DiscoverDirectlyFollowsGraph', ['graph'], {}),
    (D, 'AnnotatePetriNetWithCount2', 'AnnotatePetriNetWithCount', ['petri_net', 'petri_net_count_annotation'], {'terminate_on_unreplayable_trace': ('terminate_on_unreplayable_traces', 'b')}),
    (D, 'AnnotatePetriNetWithFrequency2', 'AnnotatePetriNetWithFrequency', ['petri_net', 'petri_net_frequency_annotation'],
     {'terminate_on_unreplayable_trace': ('terminate_on_unreplayable_traces', 'b')}),
    (D, 'AnnotatePetriNetWithTraceFrequency2', 'AnnotatePetriNetWithTraceFrequency', ['petri_net', 'petri_net_trace_frequency_annotation'],
     {'terminate_on_unreplayable_trace': ('terminate_on_unreplayable_traces', 'b')}),
    (D, 'EnsureInitialMarking', 'EnsureInitialMarking', None, {}),
    (UT, 'UseNamesEventLog2', 'UseNamesEventLog', None, {}), (UT, 'PrintEventLog2', 'GetNamesEventLog', ['names_event_log'], {}),
    (GP, 'PrintEventLogInfo2', 'GetEventLogInfo', ['event_log_info'], {}),
    (DR, 'TracesDiversityDiagram2', 'TracesDiversityDiagram', COL, {}), (DR, 'TracesDiversityDiagram2Canvas', 'TracesDiversityDiagram', COL, {}),
    (DR, 'DrawPlacementsOfEventByName2', 'DrawPlacementOfEventByName', COL, {'event_name': ('event_name', 's')}),
    (DR, 'DrawPlacementsOfEventByName2Canvas', 'DrawPlacementOfEventByName', COL, {'event_name': ('event_name', 's')}),
    (DR, 'DrawPlacementOfEventsByRegex2', 'DrawPlacementOfEventsByRegex', COL, {'regex': ('regex', 's')}),
    (DR, 'DrawPlacementOfEventsByRegex2Canvas', 'DrawPlacementOfEventsByRegex', COL, {'regex': ('regex', 's')}),
    (DR, 'DrawFullActivitiesDiagram2', 'DrawFullActivitiesDiagram', COL, {}), (DR, 'DrawFullActivitiesDiagram2Canvas', 'DrawFullActivitiesDiagram', COL, {}),
    (DR, 'DrawShortActivitiesDiagram2', 'DrawShortActivitiesDiagram', COL, {}), (DR, 'DrawShortActivitiesDiagram2Canvas', 'DrawShortActivitiesDiagram', COL, {}),
]
SPEC = {p[1]: p for p in PARTS}
DRAWERS = ('TracesDiversityDiagram2', 'ViewPetriNet2')
KINDS = ('plain', 'view', 'each', 'until', 'print', 'cluster')


def setup(symbolic):
    pbsym.install(symbolic)
    import importlib
    for m in (A, F, D, X, PT, MU, UT, DR, GP):
        importlib.import_module('ficus.grpc_pipelines.' + m)


def configs(tier):
    t = tier == 'thorough'
    out = []
    for m, c, n, k, o in PARTS:
        for L in (1,) + ((0, 2) if any(x[1] in ('s', 'os', 'ss') for x in o.values()) else ()):
            out.append({'name': 'part-%s-%d' % (c, L), 'part': c, 'len': L})
        if o:
            out.append({'name': 'defaults-' + c, 'part': c, 'defaults': 1})
    for i, k in enumerate(ENUMS['PatternsKindDto'][2]):
        out.append({'name': 'from-patterns-' + k, 'patterns': i})
        out.append({'name': 'from-patterns-def-' + k, 'patterns': i, 'defaults': 1})
    for n in range(0, 4):
        for c in itertools.product(KINDS, repeat=n):
            if t or n < 3 or c[1] in ('plain', 'print'):
                out.append({'name': 'prog-' + '-'.join(c), 'prog': list(c)})
    for a, b in itertools.product(KINDS[2:], repeat=2):
        out.append({'name': 'nest-%s-%s' % (a, b), 'prog': ['plain', a, 'view'], 'nest': b})
        for c in KINDS[2:] if t else ('print', 'each'):
            out.append({'name': 'nest3-%s-%s-%s' % (a, b, c), 'prog': [a, 'plain'], 'nest': b, 'nest2': c})
    out.append({'name': 'types', 'types': 1})
    out.append({'name': 'shared', 'shared': 1})
    return out


def cls(name):
    import importlib
    return getattr(importlib.import_module('ficus.grpc_pipelines.' + SPEC[name][0]), name)


def enum_member(kind, member):
    from ficus.grpc_pipelines import data_models
    if kind == 'AdjustingMode':
        from ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode as E
    elif kind == 'UndefActivityHandlingStrategyDto':
        from ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy as E
    else:
        E = getattr(data_models, ENUMS[kind][1])
    return E[member]


class Builder:
    """parts together with what the request must hold for them"""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.n = ctx, cfg, 0

    def leaf(self):
        from ficus.grpc_pipelines.filtering_parts import FilterEventsByName2
        x = self.text()
        return FilterEventsByName2(x), ('FilterEventsByName', None, {'event_name': ('string', x)}, None)

    def text(self):
        self.n += 1
        return self.ctx.name('s%d' % self.n, self.cfg.get('len', 1))

    def view(self):
        from ficus.grpc_pipelines.discovery_parts import ViewGraph2
        p = ViewGraph2()
        return p, (None, ['graph'], {}, p)

    def value(self, kind, pipes):
        """(argument, (wire field, expected) or None when nothing is sent)"""
        ctx = self.ctx
        self.n += 1
        tag = 'o%d' % self.n
        if kind == 'u':
            v = ctx.int(tag, 0, 2 ** 32 - 1)
            return v, ('uint32', v)
        if kind == 'f':
            v = ctx.real(tag, -1000, 1000)
            return v, ('float', v)
        if kind == 'b':
            v = ctx.bool(tag)
            return v, ('bool', v)
        if kind == 's':
            v = self.text()
            return v, ('string', v)
        if kind == 'os':
            if ctx.bool(tag):
                v = self.text()
                return v, ('string', v)
            return None, None
        if kind == 'ss':
            v = [self.text() for _ in range(ctx.index(tag, 3))]
            return v, ('strings', list(v))
        if kind == 'p' or kind == 'op':
            if kind == 'op' and not ctx.bool(tag):
                return None, None
            pl, ex = pipes()
            return pl, ('pipeline', ex)
        m = ENUMS[kind][2]
        # one symbolic choice per path family: the other enumerations follow it
        v = m[ctx.index('e', 5) % len(m)]if self.n > 0 and self.cfg.get('jointly', True) else m[0]
        return enum_member(kind, v), ('enum', (kind, v))

    def pipeline(self, parts):
        from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
        return Pipeline2(*[p for p, _ in parts]), [e for _, e in parts]

    def part(self, name, defaults=False, pipes=None):
        """the part of a class with symbolic options"""
        mod, c, bname, keys, opts = SPEC[name]
        C = cls(name)
        pipes = pipes or (lambda: self.pipeline([self.leaf(), self.view()][:self.ctx.index('inner', 3)]))
        kw, ex = {}, {}
        sig = inspect.signature(C.__init__).parameters
        for o, (key, kind) in opts.items():
            if defaults and o in sig and sig[o].default is not inspect.Parameter.empty:
                d = sig[o].default
                w = None if d is None else {'u': ('uint32', d), 'f': ('float', d), 'b': ('bool', d), 's': ('string', d), 'os': ('string', d)}.get(kind)
                if d is not None and w is None:
                    w = ('enum', (kind, d.name))
            else:
                if kind in ENUMS:
                    m = ENUMS[kind][2]
                    if not hasattr(self, 'e'):
                        self.e = self.ctx.index('e', 5)
                    v = m[(self.e + len(kw)) % len(m)]
                    kw[o], w = enum_member(kind, v), ('enum', (kind, v))
                else:
                    kw[o], w = self.value(kind, pipes)
            if w is not None:
                ex[key] = w
        p = C(**kw)
        return p, (bname, keys, ex, p)

    def kind(self, k, inner):
        if k == 'plain':
            return self.leaf()
        if k == 'view':
            return self.view()
        if k == 'print':
            from ficus.grpc_pipelines.util_parts import PrintEventlogInfoBeforeAfter
            pl, ex = inner()
            info = ('GetEventLogInfo', ['event_log_info'], {}, 'any')
            return PrintEventlogInfoBeforeAfter(pl), ('ExecuteFrontendPipeline', None, {'pipeline': ('pipeline', [info] + ex + [info])}, None)
        if k == 'each':
            C = cls('ExecuteWithEachActivityLog2')
            pl, ex = inner()
            self.n += 1
            lvl = self.ctx.int('lv%d' % self.n, 0, 2 ** 32 - 1)
            return (C(enum_member('ActivitiesLogsSourceDto', 'Log'), lvl, pl), ('ExecuteWithEachActivityLog', None, {
                'activities_logs_source': ('enum', ('ActivitiesLogsSourceDto', 'Log')), 'activity_level': ('uint32', lvl), 'pipeline': ('pipeline', ex)}, None))
        name = {'until': 'DiscoverActivitiesUntilNoMore2', 'cluster': 'ClusterizeLogTracesDbscan'}[k]
        pl, ex = inner()
        C = cls(name)
        p0, (bname, keys, e, _) = self.part_defaults(name, pl)
        e['pipeline'] = ('pipeline', ex)
        return p0, (bname, keys, e, p0)

    def part_defaults(self, name, pl):
        mod, c, bname, keys, opts = SPEC[name]
        arg = [o for o, (k, kind) in opts.items() if kind in ('p', 'op')][0]
        sig = inspect.signature(cls(name).__init__).parameters
        ex = {}
        for o, (key, kind) in opts.items():
            d = sig[o].default
            if o == arg or d is None or d is inspect.Parameter.empty:
                continue
            ex[key] = {'u': ('uint32', d), 'f': ('float', d), 'b': ('bool', d), 's': ('string', d), 'os': ('string', d)}.get(kind) or ('enum', (kind, d.name))
        p = cls(name)(**{arg: pl})
        return p, (bname, keys, ex, p)


def f32(v):
    return struct.unpack('f', struct.pack('f', v))[0] if type(v) in (float, int) else v


def check_value(ctx, got, want, what):
    field, w = want
    ctx.check(got.WhichOneof('contextValue') == field, '%s sent as %s, expected %s' % (what, got.WhichOneof('contextValue'), field))
    g = getattr(got, field)
    if field == 'enum':
        ctx.check(g.enumType == w[0] and g.value == w[1], '%s: %s.%s, expected %s.%s' % (what, g.enumType, g.value, w[0], w[1]))
    elif field == 'strings':
        ctx.check(len(g.strings) == len(w), what + ': number of texts')
        for a, b in zip(g.strings, w):
            ctx.check(a == b, what + ': text differs')
    elif field == 'pipeline':
        check_parts(ctx, g.parts, w, what)
    elif field == 'float':
        ctx.check(g == f32(w), what + ': value differs')
    else:
        ctx.check(g == w, what + ': value differs')


def check_parts(ctx, got, want, what):
    ctx.check(len(got) == len(want), '%s: %d parts, expected %d' % (what, len(got), len(want)))
    for g, w in zip(got, want):
        check_part(ctx, g, w, what)


def check_part(ctx, got, want, what):
    bname, keys, opts, owner = want
    kind = 'defaultPart' if keys is None else ('simpleContextRequestPart' if bname is None else 'complexContextRequestPart')
    ctx.check(got.WhichOneof('part') == kind, '%s: part sent as %s, expected %s' % (what, got.WhichOneof('part'), kind))
    m = getattr(got, kind)
    what = '%s/%s' % (what, bname or keys)
    if keys is None:
        body = m
    else:
        if owner != 'any':
            ctx.check(m.frontendPartUuid.uuid == str(owner.uuid), what + ': results would be addressed to another part')
        if bname is None:
            ctx.check(m.key.name == keys[0], what + ': requested key')
            return
        ctx.check([k.name for k in m.keys] == keys, what + ': requested keys %s' % [k.name for k in m.keys])
        body = m.beforePipelinePart
    ctx.check(body.name == bname, '%s: sent under the name %s' % (what, body.name))
    ps = list(body.configuration.configurationParameters)
    names = [p.key.name for p in ps]
    ctx.check(sorted(names) == sorted(opts), '%s: options %s, expected %s' % (what, sorted(names), sorted(opts)))
    for p in ps:
        check_value(ctx, p.value, opts[p.key.name], '%s option %s' % (what, p.key.name))


def flat(p):
    """all parts reachable through the public attributes, with what they hold"""
    return [(type(x).__name__, id(x)) for x in p.parts]


def request(ctx, pl, want):
    before = flat(pl)
    m = pl.to_grpc_pipeline()
    check_parts(ctx, pbsym.wire(m).parts, want, 'request')
    ctx.check(flat(pl) == before, 'building the request changed the pipeline')
    again = pl.to_grpc_pipeline()
    check_parts(ctx, again.parts, want, 'second request')
    ctx.check(again == m, 'the second request differs from the first one')


def harness(ctx, cfg):
    from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
    b = Builder(ctx, cfg)
    if 'part' in cfg:
        pl, want = b.pipeline([b.part(cfg['part'], cfg.get('defaults'))])
        request(ctx, pl, want)
    elif 'patterns' in cfg:
        from ficus.grpc_pipelines.activities_parts import DiscoverActivitiesFromPatterns2
        k = ENUMS['PatternsKindDto'][2][cfg['patterns']]
        if cfg.get('defaults'):
            sig = inspect.signature(DiscoverActivitiesFromPatterns2.__init__).parameters
            st, length, lvl = sig['strategy'].default.name, sig['max_array_length'].default, sig['activity_level'].default
            p = DiscoverActivitiesFromPatterns2(enum_member('PatternsKindDto', k))
        else:
            st = ENUMS['PatternsDiscoveryStrategy'][2][ctx.index('st', 2)]
            length, lvl = ctx.int('len', 0, 2 ** 32 - 1), ctx.int('lvl', 0, 2 ** 32 - 1)
            p = DiscoverActivitiesFromPatterns2(enum_member('PatternsKindDto', k), strategy=enum_member('PatternsDiscoveryStrategy', st), max_array_length=length, activity_level=lvl)
        o = {'tandem_array_length': ('uint32', length)} if 'Tandem' in k else {'patterns_discovery_strategy': ('enum', ('PatternsDiscoveryStrategy', st))}
        inner = [('Find' + k, None, o, None), ('DiscoverActivities', None, {'activity_level': ('uint32', lvl)}, None)]
        request(ctx, Pipeline2(p), [('ExecuteFrontendPipeline', None, {'pipeline': ('pipeline', inner)}, None)])
    elif 'prog' in cfg:
        def in2():
            if cfg.get('nest2'):
                return b.pipeline([b.kind(cfg['nest2'], lambda: b.pipeline([b.view()]))])
            return b.pipeline([b.leaf(), b.view()])

        def in1():
            if cfg.get('nest'):
                return b.pipeline([b.view(), b.kind(cfg['nest'], in2), b.leaf()])
            return b.pipeline([b.leaf()])
        parts = [b.kind(k, in1) for k in cfg['prog']]
        pl, want = b.pipeline(parts)
        request(ctx, pl, want)
    elif 'shared' in cfg:
        # the same parts and pipelines used at several places; requests of different pipelines do not mix
        p, e = b.leaf()
        v, ve = b.view()
        again = [[], [p], [v, p], [v, v]][ctx.index('again', 4)]
        inner = Pipeline2(p, v, *again)
        es = [e, ve] + [e if x is p else ve for x in again]
        w1, we1 = b.kind('each', lambda: (inner, es))
        w2, we2 = b.kind('print', lambda: (inner, es))
        q, qe = b.leaf()
        a = Pipeline2(p, w1, w2, p)
        c = Pipeline2(w2, q)
        request(ctx, a, [e, we1, we2, e])
        request(ctx, c, [we2, qe])
        request(ctx, a, [e, we1, we2, e])
        ctx.check(len(set(str(x.uuid) for x in (p, q, v, w1, w2))) == 5, 'two parts share their id')
        for n in ('UseNamesEventLog2', 'SubstituteUnderlyingEvents2', 'ReadLogFromXes2', 'FilterLogByVariants2'):
            r, re = b.part(n)
            request(ctx, Pipeline2(r), [re])
    elif 'types' in cfg:
        p, e = b.leaf()
        for bad in (None, 5, Pipeline2(), 'x'):
            for parts in ((bad,), (p, bad), (bad, p)):
                try:
                    Pipeline2(*parts).to_grpc_pipeline()
                except TypeError:
                    continue
                ctx.fail('a pipeline with something that is no part is accepted')
