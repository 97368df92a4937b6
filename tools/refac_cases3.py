"""Third set of behaviour-preserving rewrites: remote parts, wire values, drawings, data sets, pipeline parts."""
from refac import R, L, G

X = G + 'grpc_pipelines.py'
R(X, 'Pipeline2.execute', '''
def execute(self, initial_context: dict[str, ContextValue]) -> GrpcPipelinePartExecutionResult:
    limit = 512 * 1024 * 1024
    context = {key: value for key, value in initial_context.items() if key != ficus_backend_addr_key}
    addr = initial_context.get(ficus_backend_addr_key, 'localhost:8080')
    channel_options = [(f'grpc.max_{kind}_message_length', limit) for kind in ('send', 'receive')]

    with grpc.insecure_channel(addr, options=channel_options) as channel:
        stub = GrpcBackendServiceStub(channel)
        request = GrpcPipelineExecutionRequest(pipeline=self.to_grpc_pipeline(),
                                               initialContext=self._create_initial_context(context))

        listeners = []
        self.append_parts_with_callbacks(listeners)
        by_uuid = {str(part.uuid): part for part in listeners}

        result = None
        for result in stub.ExecutePipeline(request):
            kind = result.WhichOneof('result')
            if kind == 'finalResult':
                break

            if kind == 'logMessage':
                print(result.logMessage.message)
            elif kind == 'pipelinePartResult':
                part = by_uuid.get(str(uuid.UUID(result.pipelinePartResult.uuid.uuid)))
                if part is None:
                    continue

                values = {item.key_name: item.value for item in result.pipelinePartResult.contextValues}
                performance_cookie(f'{type(part).__name__}Callback', lambda: part.execute_callback(values))

        if result.finalResult.HasField('success'):
            stub.DropExecutionResult(result.finalResult.success)

        return result
''')
R(X, 'Pipeline2.append_parts_with_callbacks', '''
def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
    index = 0
    while index < len(self.parts):
        self.parts[index].append_parts_with_callbacks(parts)
        index += 1
''')
R(X, 'Pipeline2._create_grpc_pipeline', '''
@staticmethod
def _create_grpc_pipeline(parts) -> GrpcPipeline:
    def checked(part):
        if isinstance(part, PipelinePart2):
            return part.to_grpc_part()

        raise TypeError()

    return GrpcPipeline(parts=[checked(part) for part in parts])
''')
R(X, 'Pipeline2._create_initial_context', '''
@staticmethod
def _create_initial_context(context: dict[str, ContextValue]) -> list[GrpcContextKeyValue]:
    return [GrpcContextKeyValue(key=GrpcContextKey(name=key), value=context[key].to_grpc_context_value())
            for key in context]
''')
R(X, '_create_complex_get_context_part', '''
def _create_complex_get_context_part(frontend_part_uuid: uuid.UUID,
                                     key_names: list[str],
                                     before_part_name: str,
                                     config: GrpcPipelinePartConfiguration):
    part = GrpcComplexContextRequestPipelinePart()
    part.frontendPartUuid.uuid = str(frontend_part_uuid)
    for name in key_names:
        part.keys.add().name = name

    part.beforePipelinePart.CopyFrom(_create_default_pipeline_part(before_part_name, config))
    return part
''')
R(X, '_append_context_value', '''
def _append_context_value(config: GrpcPipelinePartConfiguration, key: str, value: ContextValue):
    entry = config.configurationParameters.add()
    entry.key.name = key
    entry.value.CopyFrom(value.to_grpc_context_value())
''')
R(X, 'PrintEventLogInfo2.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    value = values[const_event_log_info]
    print(str(from_grpc_event_log_info(value.event_log_info)))
''')
R(X, 'PipelinePart2WithDrawColorsLogCallback.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    options = {name: getattr(self, name) for name in ('title', 'save_path', 'plot_legend', 'height_scale', 'width_scale')}
    draw_colors_event_log(from_grpc_colors_log(values[const_colors_event_log].colors_log), **options)
''')

A = G + 'activities_parts.py'
R(A, 'DiscoverActivitiesInstances2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
    append_uint32_value(config, const_min_events_in_activity, self.min_events_in_activity)
    append_narrow_kind(config, const_narrow_activities, self.narrow_activities)

    part = _create_default_pipeline_part(const_discover_activities_instances, config)
    return GrpcPipelinePartBase(defaultPart=part)
''')
R(A, 'DiscoverActivitiesForSeveralLevels2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    for key, number in ((const_tandem_array_length, self.max_array_length),
                        (const_min_events_in_activity, self.min_events_in_activity_count),
                        (const_events_count, self.min_events_in_unattached_subtrace_count),
                        (const_activity_level, self.activity_level)):
        append_uint32_value(config, key, number)

    append_patterns_kind(config, const_patterns_kind, self.patterns_kind)
    append_patterns_discovery_strategy(config, const_patterns_discovery_strategy, self.strategy)
    append_adjusting_mode(config, const_adjusting_mode, self.adjusting_mode)
    append_narrow_kind(config, const_narrow_activities, self.narrow_activities)
    append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
    append_strings_context_value(config, const_event_classes_regexes, self.event_classes)

    return GrpcPipelinePartBase(
        defaultPart=_create_default_pipeline_part(const_discover_activities_for_several_levels, config))
''')
R(A, 'DiscoverActivitiesFromPatterns2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    repeats = {
        PatternsKind.MaximalRepeats: FindMaximalRepeats2,
        PatternsKind.SuperMaximalRepeats: FindSuperMaximalRepeats2,
        PatternsKind.NearSuperMaximalRepeats: FindNearSuperMaximalRepeats2
    }
    arrays = {
        PatternsKind.PrimitiveTandemArrays: FindPrimitiveTandemArrays2,
        PatternsKind.MaximalTandemArrays: FindMaximalTandemArrays2
    }

    if self.patterns_kind in repeats:
        part = repeats[self.patterns_kind](strategy=self.strategy)
    elif self.patterns_kind in arrays:
        part = arrays[self.patterns_kind](max_array_length=self.max_array_length)
    else:
        print(f"Unknown patterns_kind: {self.patterns_kind}")
        raise ValueError()

    config = GrpcPipelinePartConfiguration()
    inner = Pipeline2(part, DiscoverActivities2(self.activity_level))
    append_pipeline_value(config, const_pipeline, inner)
    return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
''')
R(A, 'DiscoverActivitiesUntilNoMore2.append_parts_with_callbacks', '''
def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
    inner = self.after_activities_extraction_pipeline
    if inner is None:
        return

    inner.append_parts_with_callbacks(parts)
''')
R(A, 'ExecuteWithEachActivityLog2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    append_activities_logs_source(config, const_activities_logs_source, self.activities_logs_source)
    append_uint32_value(config, const_activity_level, self.activity_level)
    append_pipeline_value(config, const_pipeline, self.activity_log_pipeline)
    return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_with_each_activity_log, config))
''')
R(A, 'ClusterizationPartWithVisualization2.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    if self.show_visualization:
        dataset = values[self.labeled_dataset_key].labeled_dataset
        colors = {label: from_grpc_color(color) for label, color in zip(dataset.labels, dataset.labelsColors)}
        get_visualization_function(self.visualization_method)(from_grpc_labeled_dataset(dataset),
                                                              self.n_components,
                                                              colors,
                                                              self.fig_size,
                                                              self.view_params,
                                                              self.font_size,
                                                              self.legend_cols,
                                                              save_path=self.save_path,
                                                              label_column=const_cluster_labels)
''')
R(A, 'get_visualization_function', '''
def get_visualization_function(method: DatasetVisualizationMethod):
    return {
        DatasetVisualizationMethod.Pca: visualize_dataset_pca,
        DatasetVisualizationMethod.Isomap: visualize_dataset_isomap,
        DatasetVisualizationMethod.MDS: visualize_dataset_mds,
        DatasetVisualizationMethod.TSNE: visualize_dataset_tsne
    }[method]
''')
R(A, 'ClusterizationPart2.create_common_config', '''
def create_common_config(self) -> GrpcPipelinePartConfiguration:
    config = GrpcPipelinePartConfiguration()
    if self.class_extractor is not None:
        append_string_value(config, const_event_class_regex, self.class_extractor)

    for key, enum_name, value in (
            (const_distance, const_distance_enum_name, self.distance),
            (const_activities_representation_source, const_activities_repr_source_enum_name, self.activities_repr_source)):
        append_enum_value(config, key, enum_name, value.name)

    append_float_value(config, const_tolerance, self.tolerance)
    append_uint32_value(config, const_activity_level, self.activity_level)
    return config
''')
R(A, 'VisualizeTracesActivities2.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    vis_func = get_visualization_function(self.visualization_method)
    vis_func(df=from_grpc_ficus_dataset(values[const_traces_activities_dataset].dataset),
             n_components=self.n_components,
             colors={},
             fig_size=self.fig_size,
             view_params=self.view_params,
             font_size=self.font_size,
             legend_cols=self.legend_cols,
             save_path=self.save_path)
''')

D = G + 'discovery_parts.py'
R(D, 'DiscoverFuzzyGraph.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    values = {
        const_node_cutoff_threshold: self.node_cutoff_threshold,
        const_edge_cutoff_threshold: self.edge_cutoff_threshold,
        const_utility_rate: self.utility_rate,
        const_ratio_threshold: self.ratio_threshold,
        const_preserve_threshold: self.preserve_threshold,
        const_binary_frequency_significance_threshold: self.binary_significance_threshold,
        const_unary_frequency_threshold: self.unary_frequency_threshold
    }
    for key, value in values.items():
        append_float_value(config, key, value)

    return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_discover_graph_fuzzy, config))
''')
R(D, 'DiscoverPetriNetHeuristic2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    append_uint32_value(config, const_positive_observations_threshold, self.positive_observations_threshold)
    for key, value in [(const_dependency_relation_threshold, self.dependency_threshold),
                       (const_loop_length_two_threshold, self.loop_length_two_threshold),
                       (const_relative_to_best_threshold, self.relative_to_best_threshold),
                       (const_and_threshold, self.and_threshold)]:
        append_float_value(config, key, value)

    part = _create_default_pipeline_part(const_discover_petri_net_heuristic, config)
    return GrpcPipelinePartBase(defaultPart=part)
''')
R(D, 'AnnotatePetriNet2.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    draw_petri_net(from_grpc_petri_net(values[const_petri_net].petriNet),
                   self.show_places_names,
                   self.name,
                   self.background_color,
                   self.engine,
                   self.export_path,
                   self.rankdir,
                   self.get_annotation(values[self.annotation_key]))
''')

W = G + 'context_values.py'
R(W, 'from_grpc_colors_log', '''
def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
    return [list(map(from_grpc_colored_rectangle, trace.event_colors)) for trace in grpc_colors_log.traces]
''')
R(W, 'HashesLogContextValue.to_grpc_context_value', '''
def to_grpc_context_value(self) -> GrpcContextValue:
    value = GrpcContextValue()
    log = value.hashes_log.log
    log.SetInParent()
    for trace in self.value:
        log.traces.add().events.extend(trace)

    return value
''')
R(W, 'NamesLogContextValue.to_grpc_context_value', '''
def to_grpc_context_value(self) -> GrpcContextValue:
    traces = [GrpcNamesTrace(events=trace) for trace in self.value]
    return GrpcContextValue(names_log=GrpcNamesEventLogContextValue(log=GrpcNamesEventLog(traces=traces)))
''')
R(W, 'from_grpc_petri_net', '''
def from_grpc_petri_net(grpc_petri_net: GrpcPetriNet) -> 'PetriNet':
    net = PetriNet()
    net.places.update((place.id, place) for place in map(from_grpc_petri_net_place, grpc_petri_net.places))
    net.transitions.update((item.id, item) for item in map(from_grpc_transition, grpc_petri_net.transitions))
    for name in ('initial_marking', 'final_marking'):
        if grpc_petri_net.HasField(name):
            setattr(net, name, try_from_grpc_marking(getattr(grpc_petri_net, name)))

    return net
''')
R(W, 'from_grpc_ficus_dataset', '''
def from_grpc_ficus_dataset(grpc_dataset: GrpcDataset) -> pd.DataFrame:
    return pd.DataFrame([list(row.values) for row in grpc_dataset.matrix.rows],
                        index=list(grpc_dataset.rowNames),
                        columns=list(grpc_dataset.columnsNames))
''')
R(W, 'from_grpc_labeled_dataset', '''
def from_grpc_labeled_dataset(grpc_dataset: GrpcLabeledDataset):
    frame = from_grpc_ficus_dataset(grpc_dataset.dataset)
    frame.insert(len(frame.columns), const_cluster_labels, list(grpc_dataset.labels))
    return frame
''')
R(W, 'from_grpc_graph', '''
def from_grpc_graph(grpc_graph: GrpcGraph) -> Graph:
    graph = Graph()
    graph.edges = [GraphEdge(edge.from_node, edge.to_node, edge.data) for edge in grpc_graph.edges]
    graph.nodes = [GraphNode(node.id, node.data) for node in grpc_graph.nodes]
    return graph
''')

U = G + 'util_parts.py'
R(U, 'PrintEventLog2.execute_callback', '''
def execute_callback(self, values: dict[str, GrpcContextValue]):
    log = values[const_names_event_log].names_log.log
    for names in map(lambda trace: [name for name in trace.events], log.traces):
        print(names)
''')
R(U, 'PrintEventlogInfoBeforeAfter._create_pipeline', '''
def _create_pipeline(self) -> Pipeline2:
    pipeline = Pipeline2()
    pipeline.parts = [self.before_part] + list(self.inner_pipeline.parts) + [self.after_part]
    return pipeline
''')

PT = G + 'patterns_parts.py'
R(PT, 'FindRepeats2.to_grpc_part', '''
def to_grpc_part(self) -> GrpcPipelinePartBase:
    config = GrpcPipelinePartConfiguration()
    if self.class_extractor is not None:
        append_string_value(config, const_event_class_regex, self.class_extractor)

    append_patterns_discovery_strategy(config, const_patterns_discovery_strategy, self.strategy)
    return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(self.part_name, config))
''')

N = L + 'discovery/petri_net.py'
R(N, 'draw_petri_net', '''
def draw_petri_net(net: PetriNet,
                   show_places_names: bool = False,
                   name: str = 'petri_net',
                   background_color: str = 'white',
                   engine='dot',
                   export_path: Optional[str] = None,
                   rankdir: str = 'LR',
                   annotation: dict[int, str] = None):
    def ids(marking):
        return set() if marking is None else {single.place_id for single in marking.markings}

    def draw_func(g: graphviz.Digraph):
        labels = annotation or {}
        initial, final = ids(net.initial_marking), ids(net.final_marking)
        token = '<&#9679;>'

        for transition in net.transitions.values():
            g.node(str(transition.id), label=transition.data, shape='box')

        for place in net.places.values():
            marked = place.id in initial or place.id in final
            shape = 'doublecircle' if place.id in final and place.id not in initial else 'circle'
            label = token if marked else place.name if show_places_names else ''
            g.node(str(place.id), label=label, style='filled', border='1', shape=shape)

        for transition in net.transitions.values():
            key = str(transition.id)
            for arc in transition.incoming_arcs:
                g.edge(str(arc.place_id), key, labels.get(arc.id, ''))

            for arc in transition.outgoing_arcs:
                g.edge(key, str(arc.place_id), labels.get(arc.id, ''))

    _draw_graph_like_formalism(draw_func, name, background_color, engine, export_path, rankdir)
''')
R(N, '_draw_graph_like_formalism', '''
def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
                               name: str = 'petri_net',
                               background_color: str = 'white',
                               engine='dot',
                               export_path: Optional[str] = None,
                               rankdir: str = 'LR'):
    attributes = dict(bgcolor=background_color, rankdir=rankdir)
    g = graphviz.Digraph(name, engine=engine, graph_attr=attributes)
    draw_func(g)
    g.attr(overlap='false')

    tmp_file_path = _create_temp_file_name()
    g.save(tmp_file_path)

    if export_path is not None:
        extension = os.path.splitext(export_path)[1]
        dir_name = os.path.dirname(export_path)
        if dir_name != '':
            os.makedirs(dir_name, exist_ok=True)

        graphviz.render(engine, extension[1:], tmp_file_path)
        shutil.move(tmp_file_path + extension, export_path)
        return

    display(g)
''')
R(L + 'discovery/graph.py', 'draw_graph', '''
def draw_graph(graph: Graph,
               name: str = 'petri_net',
               background_color: str = 'white',
               engine='dot',
               export_path: Optional[str] = None,
               rankdir: str = 'LR'):
    style = {'style': 'filled', 'border': '1', 'shape': 'circle'}

    def draw_func(g: graphviz.Digraph):
        for node in graph.nodes:
            g.node(f'{node.id}', node.data, **style)

        for edge in graph.edges:
            g.edge(tail_name=f'{edge.from_node}', head_name=f'{edge.to_node}', label=edge.data)

    _draw_graph_like_formalism(draw_func, name, background_color, engine, export_path, rankdir)
''')

V = L + 'analysis/event_log_analysis.py'
R(V, 'draw_scatter_plot_for_dataset_visualization', '''
def draw_scatter_plot_for_dataset_visualization(ax,
                                                df: pd.DataFrame,
                                                components,
                                                label_column: Optional[str],
                                                font_size: int,
                                                colors: dict[str, Color],
                                                view_params: (int, int),
                                                legend_cols: int):
    if len(components) == 1:
        components = [components[0], np.zeros(len(components[0]), dtype=int)]

    if label_column is not None:
        labels = df[label_column].to_numpy()
        for label in sorted(set(labels.tolist())):
            mask = labels == label
            color = '#FFFFFF'
            if label in colors:
                color = colors[label].to_hex()

            ax.scatter(*(component[mask] for component in components), c=color, label=f'CLUSTER_{label}')

        ax.legend(loc='upper center', bbox_to_anchor=(0.5, -0.05), fancybox=True, shadow=True, ncol=legend_cols)
    else:
        ax.scatter(*components)

    ax.set_xlabel("Component 1", fontsize=font_size)
    ax.set_ylabel("Component 2", fontsize=font_size)
    if len(components) == 3:
        ax.set_zlabel("Component 3", fontsize=font_size)
        ax.view_init(*view_params[:2])
''')
R(V, 'visualize_dataset', '''
def visualize_dataset(num_components: NComponents,
                      fig_size: (int, int),
                      save_path: Optional[str],
                      draw_func):
    fig = plt.figure(figsize=fig_size)
    options = {'projection': '3d'} if num_components is NComponents.Three else {}
    draw_func(fig.add_subplot(**options))

    if save_path is not None:
        fig.savefig(save_path, dpi=150, bbox_inches='tight')
        plt.close(fig)
        return

    fig.show()
''')
R(V, 'draw_placements_of_events', '''
def draw_placements_of_events(log: MyEventLog,
                              cached_colors: dict[str, str],
                              events_predicate: Callable[[str], bool],
                              title: str = None,
                              save_path: str = None,
                              height_scale: int = 1,
                              plot_legend: bool = True,
                              width_scale: int = 1):
    def color_of(name: str) -> str:
        if not events_predicate(name):
            return default_drawing_color

        color = cached_colors.get(name)
        if color is None:
            color = cached_colors[name] = next_color_for_new_name(random_unique_color_provider_instance, cached_colors)

        return color

    _draw_traces_diversity_like_diagram(log, {}, title, save_path, plot_legend, height_scale, width_scale, color_of)
''')
R(V, '_draw_traces_diversity_like_diagram', '''
def _draw_traces_diversity_like_diagram(log: MyEventLog,
                                        cached_colors: dict[str, str],
                                        title: str = None,
                                        save_path: str = None,
                                        plot_legend: bool = True,
                                        height_scale: int = 1,
                                        width_scale: int = 1,
                                        colors_provider: Callable[[str], str] = None):
    if colors_provider is None:
        colors_provider = lambda _: next_color_for_new_name(random_unique_color_provider_instance, cached_colors)

    def get_color(name: str) -> str:
        if name not in cached_colors:
            cached_colors[name] = colors_provider(name)

        return cached_colors[name]

    def draw_func(ctx: TraceDiversityLikeDiagramContext):
        row_height = ctx.rect_height + ctx.y_delta_between_traces
        for row, trace in enumerate(log):
            patches = []
            for column, event in enumerate(trace):
                name = event[concept_name]
                patch = plt.Rectangle((column * ctx.rect_width, row * row_height),
                                      ctx.rect_width, ctx.rect_height, fc=get_color(name))
                ctx.names_to_rects[name] = patch
                patches.append(patch)

            ctx.drawer.add_collection(PatchCollection(patches, match_original=True))

    _draw_traces_diversity_like_diagram_internal(log, draw_func, title, save_path, plot_legend,
                                                 height_scale, width_scale)
''')
R(V, 'draw_traces_histogram', '''
def draw_traces_histogram(log: MyEventLog,
                          save_path: str = None,
                          title: str = None):
    values, count = _create_array_for_hist(log)
    figure, drawer = plt.subplots()
    _do_paint_hist(drawer, values, count)
    plt.suptitle(title)

    if save_path is not None:
        plt.savefig(save_path)
        return

    plt.show()
''')

CA = L + 'analysis/event_log_analysis_canvas.py'
R(CA, '_draw_legend', '''
def _draw_legend(canvas: Canvas, names_to_colors: dict[str, str], before_height: float):
    with hold_canvas():
        left = canvas.width / 3
        for index, (name, color) in enumerate(names_to_colors.items()):
            top = before_height + legend_rect_height * index
            canvas.fill_style = color
            canvas.fill_rect(left, top, legend_rect_width, legend_rect_height)
            canvas.fill_style = 'black'
            canvas.fill_text(name, left + legend_rect_width + x_delta, top + legend_rect_height / 1.4)
''')

PG = L + 'analysis/patterns/patterns_graphs.py'
R(PG, 'draw_patterns', '''
def draw_patterns(log: MyEventLog,
                  traces_patterns: list[list[SubArrayInEventLog]],
                  cached_colors: dict[str, str],
                  title: str = None,
                  plot_legend: bool = True,
                  save_path: str = None,
                  height_scale: int = 1,
                  width_scale: int = 1,
                  short_diagram: bool = False):
    def create_dto(trace, pattern: SubArrayInEventLog) -> SubTraceDrawingDto:
        end = pattern.first_pos + pattern.length
        name = activity_name_sep.join(trace[i][concept_name] for i in range(pattern.first_pos, end))
        return SubTraceDrawingDto(pattern.first_pos, pattern.length, name)

    def draw_func(ctx: TraceDiversityLikeDiagramContext):
        dtos = [[create_dto(trace, pattern) for pattern in patterns] for trace, patterns in zip(log, traces_patterns)]
        _sub_traces_draw_func(ctx, log, cached_colors, dtos, short_diagram)

    _draw_traces_diversity_like_diagram_internal(log, draw_func, title=title, save_path=save_path,
                                                 plot_legend=plot_legend, height_scale=height_scale,
                                                 width_scale=width_scale)
''')
R(PG, 'draw_activity_placement_diagram', '''
def draw_activity_placement_diagram(log: MyEventLog,
                                    activity_node: ActivityNode,
                                    traces_activities: list[list[ActivityInTraceInfo]],
                                    use_different_colors: bool = False,
                                    plot_legend: bool = False,
                                    title: str = None,
                                    height_scale: int = 1,
                                    save_path: str = None,
                                    width_scale: int = 1):
    def draw_func(ctx: TraceDiversityLikeDiagramContext):
        color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
        undefined_color = to_hex((0, 0, 0))

        for row, (trace_activities, trace) in enumerate(zip(traces_activities, log)):
            patches = []

            def add(name: str, start: int, end: int, color: str):
                rect = plt.Rectangle((start * ctx.rect_width, row * ctx.rect_height),
                                     (end - start) * ctx.rect_width, ctx.rect_height, fc=color)
                ctx.names_to_rects[name] = rect
                patches.append(rect)

            position = 0
            for activity in trace_activities:
                if activity.node.name != activity_node.name:
                    continue

                if position < activity.start_pos:
                    add('UndefinedActivity', position, activity.start_pos, undefined_color)

                position = activity.start_pos + activity.length
                add(activity.node.name, activity.start_pos, position, color_provider.next())

            if position < len(trace):
                add('UndefinedActivity', position, len(trace), undefined_color)

            ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
            color_provider.reset()

    _draw_traces_diversity_like_diagram_internal(log, draw_func, title, save_path, plot_legend,
                                                 height_scale, width_scale)
''')
GP = L + 'pipelines/analysis/patterns/patterns_graph_parts.py'
R(GP, 'DrawActivitiesGraphByEventClassLevels.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    def draw_level(level: int):
        path = None if self.save_path is None else self.save_path_mutator(self.save_path, level)
        build = BuildActivityGraph(level, 'Activities Graph', self.add_root_node,
                                   self.graph_attributes_setter, self.node_name_creator)
        WithInputCopy(Pipeline(build, DrawGraph(path))).execute(current_input)

    for item in split_activities_by_level(activities(current_input)):
        draw_level(item[0])

    return current_input
''')
R(GP, 'serialize_graphviz_graph', '''
def serialize_graphviz_graph(graph: graphviz.Digraph) -> str:
    _, *lines, _ = str(graph).split('\\n')
    lines.sort()
    return '\\n'.join(lines)
''')

F = L + 'filtering/event_log_filters.py'
R(F, 'filter_events_pos_entropy_direct', '''
def filter_events_pos_entropy_direct(log: MyEventLog,
                                     threshold: float = 0,
                                     untouchable_event_func=default_untouchable_func,
                                     max_events_to_remove: int = int(1e9)) -> MyEventLog:
    def candidates(event_log: MyEventLog):
        return {name: value for name, value in calculate_position_entropies_fast(event_log).items()
                if not untouchable_event_func(name)}

    return _do_filter_by_metric_direct(log, threshold, candidates, max_events_to_delete=max_events_to_remove)
''')
R(F, '_do_filter_by_metric_direct', '''
def _do_filter_by_metric_direct(log: MyEventLog,
                                threshold: float,
                                metric_func: Callable[[MyEventLog], dict[str, float]],
                                max_events_to_delete: int = 1e9) -> MyEventLog:
    left = max_events_to_delete
    while left > 0 and len(log) > 0:
        name, metric = _determine_next_event_to_remove_direct(log, metric_func)
        if name is None or not metric > threshold:
            break

        print(f'Removing {name} with metric {metric}')
        log = remove_event_from_log(log, name)
        left -= 1

    return log
''')
R(F, 'filter_events_pos_entropy_indirect', '''
def filter_events_pos_entropy_indirect(log: MyEventLog,
                                       threshold: float = 0,
                                       max_events_to_remove: int = int(1e9),
                                       untouchable_event_func=default_untouchable_func) -> MyEventLog:
    current = log
    removed = 0
    while removed < max_events_to_remove:
        positions = create_events_positions(current)
        if not calculate_position_entropies_fast_sum(current, positions=positions) > threshold:
            break

        name, entropy = next_event_remove_pos_entropy_indirect(current, positions=positions,
                                                               untouchable_event_func=untouchable_event_func)
        if name is None:
            break

        print(f'Removing event {name} with resulting log entropy {entropy}')
        current = remove_event_from_log(current, name)
        removed += 1

    return current
''')
R(F, '_do_filter_by_metric_direct_till_end', '''
def _do_filter_by_metric_direct_till_end(log: MyEventLog,
                                         metric_kind: TillEndFilteringMetricKind,
                                         metric_func: Callable[[MyEventLog], dict[str, float]]) -> list[(str, float)]:
    removals = []
    while len(log) != 0:
        before = sum(metric_func(log).values())
        name, metric = _determine_next_event_to_remove_direct(log, metric_func)
        if name is None:
            return removals

        print(f'Removing {name} with metric {metric}')
        log = remove_event_from_log(log, name)
        if metric_kind is TillEndFilteringMetricKind.BeforeOnly:
            value = before
        elif metric_kind is TillEndFilteringMetricKind.AfterBeforeDelta:
            value = before - sum(metric_func(log).values())
        else:
            raise ValueError()

        removals.append((name, value))

    return removals
''')

T = L + 'analysis/patterns/event_log_patterns.py'
R(T, 'create_logs_for_activities_with_promote', '''
def create_logs_for_activities_with_promote(log: MyEventLog,
                                            activities: list[list[ActivityInTraceInfo]],
                                            desired_activity_level: int,
                                            class_extractors: list[ClassExtractor],
                                            adjust_events_to_max_level: bool = True) -> dict[str, MyEventLog]:
    assert len(class_extractors) == desired_activity_level + 1
    last_extractor = class_extractors[desired_activity_level]

    def trace_creator(source: MyEventLog, trace: MyTrace, info: ActivityInTraceInfo) -> Optional[MyTrace]:
        level = info.node.activity_level
        if level > desired_activity_level:
            return None

        if level == desired_activity_level:
            return _create_trace_for_activity(trace, info,
                                              last_extractor if adjust_events_to_max_level else default_class_extractor)

        originals = trace[info.start_pos:(info.start_pos + info.length)]
        copies = [copy.copy(event) for event in originals]
        for event in copies:
            for extractor in class_extractors[level:]:
                event[concept_name] = extractor(event)

        expected = {last_extractor(event) for event in _find_events_for_repeat_set(source, info.node.repeat_set)}
        if expected != {event[concept_name] for event in copies}:
            return None

        result = MyTrace()
        for event in (copies if adjust_events_to_max_level else originals):
            result.append(event)

        return result

    return _create_logs_for_activities(log, activities, trace_creator)
''')
FP = L + 'pipelines/filtering/filter_parts.py'
R(FP, 'FilterTracesByVariants.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    representatives = [variant[0] for variant in split_log_by_traces(log(current_input))]
    return current_input.with_log(MyEventLog(representatives))
''')
DPP = L + 'pipelines/discovery/discovery_parts.py'
R(DPP, 'DiscoverPetriNetInductive.execute', '''
def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
    result = pm4py.discover_petri_net_inductive(to_pm4py_log(log(current_input)), noise_threshold=self.noise_threshold)
    return current_input.with_petri_net(PetriNetWrapper(*result))
''')
AN = L + 'pipelines/analysis/analysis_parts.py'
CX = L + 'pipelines/contexts/part_results.py'
R(CX, 'PipelinePartResult.has_value', '''
def has_value(self, key):
    return key in self.values.keys()
''')
R(CX, 'PipelinePartResult.__copy__', '''
def __copy__(self):
    duplicate = PipelinePartResult()
    for key, value in self.values.items():
        duplicate.values[key] = value

    return duplicate
''')
R(CX, 'PipelinePartResult.remove', '''
def remove(self, key):
    self.values.pop(key)
''')
