"""Drawn graphs, Petri nets, activity graphs and event class trees."""
from .common import *
from . import graphsym, pbsym
import os
import shutil
import tempfile

ASSUMPTIONS = ['graphviz is replaced by a recorder of nodes, edges, attributes and files, which reads names as graphviz does (a colon in the end of an edge starts a port); what it paints is trusted',
               'ids are distinct over places and transitions (the backend numbers them together)', 'names are not "root" and no text has the form <...>, which graphviz reads as HTML']
BOUNDS_TEXT = ('graphs of up to 4 nodes and 4 edges between any nodes, nets of up to 3 places, 2 transitions and 4 arcs between any of them (any 64-bit ids, any markings, annotations of any arcs), '
               'trees and shared sub-trees of up to 4 activities or event classes with any names of 1-2 characters, on up to 3 levels; a graph of 12 nodes, a net of 8 places and 12 arcs and a tree of 12 nodes with an arbitrary part; every export, engine, colour and direction option')
I64 = (-2 ** 63, 2 ** 63 - 1)
NAME = ((0x20, 0x3B), (0x3D, 0x7E))
CH = ((0x20, 0x7E),)


def setup(symbolic):
    graphsym.install()
    pbsym.install(symbolic)
    import ficus.legacy.discovery.graph
    import ficus.legacy.discovery.petri_net
    import ficus.grpc_pipelines.discovery_parts
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts
    import ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append(dict(kw, name=name, o=len(out) % 4))
    for via in ('direct', 'graph', 'dfg'):
        for n, m in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3)) + (((4, 2), (3, 3), (4, 3), (2, 4)) if t else ()):
            add('graph-%s-%d-%d' % (via, n, m), k='graph', n=n, m=m, via=via)
    for via in ('direct', 'part', 'count', 'freq', 'trace'):
        for p in range(4):
            for tr in ((), ((0, 0),), ((1, 1),), ((2, 0),), ((1, 0), (0, 1)), ((1, 1), (1, 1))) + ((((2, 2),), ((2, 1), (0, 2))) if t else ()):
                if (p == 0 and any(map(any, tr))) or (p == 3 and sum(map(sum, tr)) > (4 if t else 2)):
                    continue
                for mk in ((None, None), (1, 1), (0, 2), (2, None)):
                    if mk != (None, None) and (p == 0 or (via not in ('direct', 'part') and mk != (1, 1)) or sum(map(sum, tr)) > 2):
                        continue
                    add('net-%s-%d-%s-%s' % (via, p, '_'.join('%d.%d' % x for x in tr), mk), k='net', p=p, t=[list(x) for x in tr], mk=list(mk), via=via)
    add('graph-direct-long', k='graph', n=12, m=14, via='direct', fix=[3])
    add('graph-graph-long', k='graph', n=12, m=14, via='graph', fix=[12])
    for via in ('direct', 'part', 'count', 'freq'):
        add('net-%s-long' % via, k='net', p=8, t=[[2, 1], [1, 1], [0, 2], [3, 0], [1, 1]], mk=[2, 3], via=via, fix=[4])
    for what in ('classes', 'acts', 'hashes', 'part', 'levels'):
        add('%s-long' % what, k='tree', what=what, n=12, len=1, shape=[-1, 0, 0, 2, 2, 2, -1, 6, 7, 8, -1, 10], extra=[[6, 3], [10, 8]], concrete=11)
        for n in (0, 1, 2, 3) + ((4,) if t else ()):
            for ln in (1, 2):
                if n < 3 or ln == 1:
                    add('%s-%d-%d' % (what, n, ln), k='tree', what=what, n=n, len=ln)
        # three levels with any names: equal names on different levels
        add('%s-chain' % what, k='tree', what=what, n=4, len=1, shape=[-1, 0, 1, 1], concrete=2)
        add('%s-shared' % what, k='tree', what=what, n=4, len=1, shape=[-1, -1, 0, 2], extra=[[1, 2]], concrete=1)
        add('%s-twins' % what, k='tree', what=what, n=4, len=1, shape=[-1, 0, -1, 2], concrete=1)
        add('%s-sep' % what, k='tree', what=what, n=2, len=1, shape=[-1, 0], tail='::b')
    for n in (1, 2, 3):
        add('serialize-%d' % n, k='serialize', n=n)
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_c29_', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.cwd = os.getcwd()
        os.chdir(self.d)
        os.mkdir('tmp')
        graphsym.begin(os.path.join(self.d, 'tmp'))
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def harness(ctx, cfg):
    {'graph': k_graph, 'net': k_net, 'tree': k_tree, 'serialize': k_serialize}[cfg['k']](ctx, cfg)


OPTIONS = [dict(), dict(name='N', background_color='yellow', engine='neato', rankdir='TB'), dict(engine='circo'), dict(rankdir='RL', name='other')]
EXPORT = [None, 'sub/dir/out.png', 'bare.svg', 'here/x.pdf']


def distinct(ctx, ids):
    for i, a in enumerate(ids):
        for b in ids[:i]:
            ctx.assume(ctx.not_(a == b))


def drawn(ctx, d, cfg, opts, default_name):
    """the one graph that was drawn, exported or displayed as asked"""
    path = EXPORT[cfg['o']]
    made = graphsym.STATE['made']
    ctx.check(len(made) == 1, 'number of drawings')
    g = made[0]
    ctx.check(g.name == opts.get('name', default_name), 'name of the drawing')
    ctx.check(g.engine == opts.get('engine', 'dot'), 'layout engine')
    ctx.check(g.graph_attr.get('bgcolor') == opts.get('background_color', 'white'), 'background')
    ctx.check(g.graph_attr.get('rankdir') == opts.get('rankdir', 'LR'), 'direction')
    if path is None:
        ctx.check(len(graphsym.STATE['shown']) == 1 and graphsym.STATE['shown'][0] is g, 'not displayed')
    else:
        ctx.check(not graphsym.STATE['shown'], 'displayed although a path is given')
        ctx.check(os.path.isfile(os.path.join(d, path)), 'not exported to the path')
        with open(os.path.join(d, path), 'rb') as f:
            ctx.check(f.read() == graphsym.content(g, os.path.splitext(path)[1][1:], g.engine), 'another drawing exported')
    return g


def find_node(ctx, g, want):
    """the one node with this id"""
    hit = [x for x in g.nodes_ if bool(x[0] == want)]
    ctx.check(len(hit) == 1, 'node drawn %d times' % len(hit))
    return hit[0]


def match_edges(ctx, g, want):
    """every wanted (tail, head, label) once and no other"""
    ctx.check(len(g.edges_) == len(want), 'number of edges: %d instead of %d' % (len(g.edges_), len(want)))
    rest = list(g.edges_)
    for a, b, l in want:
        for i, (t, h, label, _) in enumerate(rest):
            if bool(t == a) and bool(h == b) and bool(text(label) == l):
                del rest[i]
                break
        else:
            ctx.fail('edge missing or with another label')


def text(label):
    return '' if label is None else label


def s(x):
    """decimal text of a possibly symbolic id"""
    from symex.strs import SymStr, IntTok
    return str(x) if isinstance(x, int) and type(x) is int else SymStr((IntTok(x),))


def k_graph(ctx, cfg):
    from ficus.legacy.discovery import graph as G
    n, m = cfg['n'], cfg['m']
    ids = [ctx.int('id%d' % i, 0, 2 ** 63 - 1) for i in range(n)]
    distinct(ctx, ids)
    data = [ctx.name('d%d' % i, (1, 2, 0, 1)[i % 4], CH) for i in range(n)]
    fix = cfg.get('fix', range(m))
    ends = [(ctx.index('f%d' % j, n), ctx.index('t%d' % j, n)) if j in fix else (j * 5 % n, (j * 7 + 3) % n) for j in range(m)]
    labels = [ctx.name('l%d' % j, (1, 1, 0, 1)[j % 4], CH) if j in fix else 'l%d' % j for j in range(m)]
    for i in range(n):
        if len(data[i]) == 2:
            ctx.assume(ctx.not_(ctx.all([data[i][0] == '<', data[i][1] == '>'])))
    opts = OPTIONS[(cfg['o'] + n) % 4]
    with Scratch() as d:
        if cfg['via'] == 'direct':
            g = G.Graph()
            g.nodes = [G.GraphNode(i, x) for i, x in zip(ids, data)]
            g.edges = [G.GraphEdge(ids[a], ids[b], l) for (a, b), l in zip(ends, labels)]
            G.draw_graph(g, export_path=EXPORT[cfg['o']], **opts)
            rec = drawn(ctx, d, cfg, opts, 'petri_net')
        else:
            from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M
            from ficus.grpc_pipelines import discovery_parts as dp
            msg = P.GrpcGraph(nodes=[P.GrpcGraphNode(id=i, data=x) for i, x in zip(ids, data)],
                              edges=[P.GrpcGraphEdge(from_node=ids[a], to_node=ids[b], data=l) for (a, b), l in zip(ends, labels)])
            part = (dp.ViewGraph2 if cfg['via'] == 'graph' else dp.ViewDirectlyFollowsGraph2)(export_path=EXPORT[cfg['o']], **opts)
            part.execute_callback({'graph': pbsym.wire(P.GrpcContextValue(graph=msg))})
            rec = drawn(ctx, d, cfg, opts, 'dfg_graph')
    ctx.check(len(rec.nodes_) == n, 'number of nodes')
    for i, x in zip(ids, data):
        ctx.check(text(find_node(ctx, rec, s(i))[1]) == x, 'label of a node')
    match_edges(ctx, rec, [(s(ids[a]), s(ids[b]), l) for (a, b), l in zip(ends, labels)])


def k_net(ctx, cfg):
    from ficus.legacy.discovery import petri_net as N
    via = cfg['via']
    places = [(ctx.int('p%d' % i, *I64), ctx.name('pn%d' % i, 1, CH)) for i in range(cfg['p'])]
    trs, arcs = [], []
    for i, (a, b) in enumerate(cfg['t']):
        tid = ctx.int('t%d' % i, *I64)
        lists = []
        for side, cnt in (('in', a), ('out', b)):
            l = []
            for _ in range(cnt):
                j = len(arcs)
                pl = ctx.index('a%dp' % j, cfg['p']) if j in cfg.get('fix', (j,)) else (j * 3 + i) % cfg['p']
                arcs.append((ctx.int('a%d' % j, *I64), pl, i, side))
                l.append(arcs[-1])
            lists.append(l)
        trs.append((tid, ctx.name('td%d' % i, 1, CH), lists))
    distinct(ctx, [p[0] for p in places] + [x[0] for x in trs])
    distinct(ctx, [a[0] for a in arcs])
    marked = []
    for c, w in zip(cfg['mk'], 'if'):
        marked.append(None if c is None else [ctx.index('%s%d' % (w, j), cfg['p']) if 'fix' not in cfg else (j * 5 + c) % cfg['p'] for j in range(c)])
    names = ctx.bool('names')
    # annotated arcs: all, or all but one, or none; and an annotation of something else
    note = {}
    if via in ('count', 'freq', 'trace'):
        skip = ctx.index('skip', len(arcs) + 1)
        for j, a in enumerate(arcs):
            if j != skip:
                note[j] = ctx.int('c%d' % j, 0, 2 ** 40) if via == 'count' else (0.5, 0.25, 1.0, 0.0)[j % 4]
    elif ctx.bool('annotate'):
        skip = ctx.index('skip', len(arcs) + 1)
        for j, a in enumerate(arcs):
            if j != skip:
                note[j] = ctx.name('c%d' % j, 1, CH) + str(j)
    else:
        note = None
    opts = OPTIONS[(cfg['o'] + cfg['p'] + len(arcs)) % 4]
    path = EXPORT[cfg['o']]
    label = {}
    with Scratch() as d:
        if via == 'direct':
            net = N.PetriNet()
            for i, nm in places:
                net.places[i] = N.Place(i, nm)
            for tid, nm, lists in trs:
                x = N.Transition(tid)
                x.data = nm
                x.incoming_arcs = [N.Arc(a, places[p][0], 1) for a, p, _, _ in lists[0]]
                x.outgoing_arcs = [N.Arc(a, places[p][0], 1) for a, p, _, _ in lists[1]]
                net.transitions[tid] = x
            mk = [None if m is None else N.Marking([N.SinglePlaceMarking(places[i][0], 1) for i in m]) for m in marked]
            net.initial_marking, net.final_marking = mk
            N.draw_petri_net(net, show_places_names=names, export_path=path, annotation=None if note is None else {arcs[j][0]: v for j, v in note.items()}, **opts)
            label = note or {}
        else:
            from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M
            from ficus.grpc_pipelines import discovery_parts as dp

            def arc(a):
                return M.GrpcPetriNetArc(id=a[0], placeId=places[a[1]][0], tokens_count=1)

            def marking(m):
                return None if m is None else M.GrpcPetriNetMarking(markings=[M.GrpcPetriNetSinglePlaceMarking(placeId=places[i][0], tokensCount=1) for i in m])
            msg = M.GrpcPetriNet(places=[M.GrpcPetriNetPlace(id=i, name=x) for i, x in places],
                                 transitions=[M.GrpcPetriNetTransition(id=i, data=x, incomingArcs=[arc(a) for a in l[0]], outgoingArcs=[arc(a) for a in l[1]]) for i, x, l in trs],
                                 initial_marking=marking(marked[0]), final_marking=marking(marked[1]))
            values = {'petri_net': pbsym.wire(P.GrpcContextValue(petriNet=msg))}
            if via == 'part':
                part = dp.ViewPetriNet2(show_places_names=names, export_path=path, annotation=None if note is None else {arcs[j][0]: v for j, v in note.items()}, **opts)
                label = note or {}
            elif via == 'count':
                part = dp.AnnotatePetriNetWithCount2(show_places_names=names, export_path=path, **opts)
                values['petri_net_count_annotation'] = pbsym.wire(P.GrpcContextValue(count_annotation=M.GrpcCountAnnotation(
                    annotations=[M.GrpcEntityCountAnnotation(entityId=arcs[j][0], count=v) for j, v in note.items()])))
                label = {j: s(v) for j, v in note.items()}
            else:
                part = (dp.AnnotatePetriNetWithFrequency2 if via == 'freq' else dp.AnnotatePetriNetWithTraceFrequency2)(show_places_names=names, export_path=path, **opts)
                values['petri_net_frequency_annotation' if via == 'freq' else 'petri_net_trace_frequency_annotation'] = pbsym.wire(P.GrpcContextValue(
                    frequency_annotation=M.GrpcFrequenciesAnnotation(annotations=[M.GrpcEntityFrequencyAnnotation(entityId=arcs[j][0], frequency=v) for j, v in note.items()])))
                label = {j: str(v) for j, v in note.items()}
            part.execute_callback(values)
        rec = drawn(ctx, d, cfg, opts, 'petri_net')
    ctx.check(len(rec.nodes_) == len(places) + len(trs), 'number of places and transitions')
    for j, (i, nm) in enumerate(places):
        _, lab, at = find_node(ctx, rec, s(i))
        ini, fin = j in (marked[0] or []), j in (marked[1] or [])
        if ini or fin:
            ctx.check(text(lab) == '<&#9679;>', 'a marked place has no token')
            if not ini:
                ctx.check(at.get('shape') == 'doublecircle', 'shape of a final place')
            elif not fin:
                ctx.check(at.get('shape') == 'circle', 'shape of an initial place')
        else:
            ctx.check(at.get('shape') == 'circle', 'shape of a place')
            ctx.check(text(lab) == (nm if names else ''), 'label of a place')
    for tid, nm, _ in trs:
        _, lab, at = find_node(ctx, rec, s(tid))
        ctx.check(at.get('shape') == 'box', 'shape of a transition')
        ctx.check(text(lab) == nm, 'label of a transition')
    want = []
    for j, (a, p, t, side) in enumerate(arcs):
        x, y = s(places[p][0]), s(trs[t][0])
        want.append(((x, y) if side == 'in' else (y, x)) + (label.get(j, ''),))
    match_edges(ctx, rec, want)


# ---------------------------------------------------------------- trees
def build(ctx, cfg):
    """nodes with any parents: index of the first parent (or -1) per node, further links, names"""
    n = cfg['n']
    par = cfg.get('shape') or [ctx.index('par%d' % i, i + 1) - 1 for i in range(n)]
    links = [(i, p) for i, p in enumerate(par) if p >= 0] + [(c, p) for p, c in cfg.get('extra', ())]
    if n == 3 and not cfg.get('shape') and par[2] == 0 and par[1] == -1 and ctx.bool('both'):
        links.append((2, 1))
    names = []
    for i in range(n):
        if i < cfg.get('concrete', 0):
            names.append(ctx.const('abcdefghijklmno'[i]))
        else:
            names.append(ctx.name('n%d' % i, cfg['len'], NAME) + cfg.get('tail', ''))
    depth = []
    for i in range(n):
        depth.append(0 if par[i] < 0 else depth[par[i]] + 1)
    return par, links, names, depth


def k_tree(ctx, cfg):
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, EventClassNode
    from ficus.legacy.analysis.patterns import patterns_graphs as pg
    from ficus.legacy.pipelines.analysis.patterns import patterns_graph_parts as gp, patterns_parts as pp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    what = cfg['what']
    par, links, names, depth = build(ctx, cfg)
    cl = ctx.classes(names)
    level = [0] * len(names)
    if what == 'levels':
        level = [i % 2 for i in range(len(names))]

    def mk(i):
        if what == 'classes':
            return EventClassNode(names[i])
        return ActivityNode(names[i], None, {i}, None, level[i])
    nodes = [mk(i) for i in range(len(names))]
    for c, p in links:
        nodes[p].child_nodes.append(nodes[c])
    roots = [i for i, p in enumerate(par) if p < 0]
    before = [(x.name, list(x.child_nodes)) for x in nodes]
    add_root = cfg['o'] != 1
    path = [None, './dir.d/out' if what == 'levels' else 'dir/out', None, 'out'][cfg['o']]
    setters = []
    given = [nodes[i] for i in roots]
    hashed = {}
    with Scratch() as d:
        if what == 'hashes':
            # a node of its own tells how a name is written
            for k, i in {k: i for i, k in enumerate(cl)}.items():
                graphsym.begin(graphsym.STATE['dir'])
                pg.draw_activity_graph([ActivityNode(names[i], None, {0}, None, 0)], None, True, False)
                r = graphsym.STATE['made'][0]
                ctx.check(len(r.nodes_) == 1 and not r.edges_, 'a single activity')
                hashed[k] = r.nodes_[0][0]
            for k in hashed:
                for q in hashed:
                    if k < q:
                        ctx.check(ctx.not_(hashed[k] == hashed[q]), 'different activities have the same text')
            graphsym.begin(graphsym.STATE['dir'])
        res = PipelinePartResult()
        runs = [(roots, path)]
        kw = dict(add_root_node=add_root, graph_attributes_setter=setters.append)
        if what == 'classes' and cfg['o'] == 3:
            pg.draw_event_class_tree(given, path, add_root, setters.append)
        elif what == 'classes':
            res = gp.DrawEventClassTree(save_path=path, **kw).execute(res.with_event_class_tree(given))
        elif what in ('acts', 'hashes'):
            res = pp.DrawActivitiesGraph(save_path=path, use_hashes_as_name=what == 'hashes', **kw).execute(res.with_activities(given))
        elif what == 'part':
            res = gp.BuildActivityGraph(0, 'G', **kw).execute(res.with_activities(given)) if given else gp.BuildEventClassGraph('G', **kw).execute(res.with_event_class_tree([]))
            res = gp.DrawGraph(path).execute(res)
            ctx.check(res.get_value_or_throw('graph') is graphsym.STATE['made'][0], 'the built graph is not kept')
        else:
            res = gp.DrawActivitiesGraphByEventClassLevels(save_path=None if path is None else path + '.x', **kw).execute(res.with_activities(given))
            lv = sorted(set(level[i] for i in roots))
            runs = [([i for i in roots if level[i] == l], None if path is None else '%s_%d.x' % (path, l)) for l in lv]
        made, shown = list(graphsym.STATE['made']), list(graphsym.STATE['shown'])
        ctx.check(len(made) == len(runs), 'number of drawings')
        if path is None:
            ctx.check(len(shown) == len(runs), 'number of displayed images')
        else:
            ctx.check(not shown, 'displayed although a path is given')
        ctx.check(len(setters) == len(runs) and all(a is b for a, b in zip(setters, made)), 'the attributes of the graph are not set by the given function')
        for j, ((tops, where), rec) in enumerate(zip(runs, made)):
            tree(ctx, rec, tops, links, cl, names, add_root, hashed)
            img = graphsym.content(rec, 'png', rec.engine)
            if where is None:
                ctx.check(shown[j].data == img, 'another image displayed')
            else:
                f = os.path.join(d, where + '.png')
                ctx.check(os.path.isfile(f), 'no image at the path')
                with open(f, 'rb') as fh:
                    ctx.check(fh.read() == img, 'another image saved')
    for x, (nm, ch) in zip(nodes, before):
        ctx.check(x.name is nm and len(ch) == len(x.child_nodes) and all(a is b for a, b in zip(ch, x.child_nodes)), 'drawing changed the activities')


def tree(ctx, rec, tops, links, cl, names, add_root, hashed):
    reach, todo = set(), list(tops)
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += [c for c, p in links if p == i]
    nm = {}
    for i in reach:
        nm.setdefault(cl[i], names[i])
    ids, used = {}, []
    for k, n in nm.items():
        hit = [r for r in rec.nodes_ if written(r, n, hashed.get(k))]
        ctx.check(len(hit) == 1, 'a name drawn %d times' % len(hit))
        ids[k] = hit[0][0]
        used.append(hit[0])
    rest = [r for r in rec.nodes_ if not any(r is u for u in used)]
    ctx.check(all(add_root and bool(text(r[1]) in ('', 'root')) and bool(r[0] == 'root') for r in rest), 'superfluous nodes')
    # edges lead from every child to its parent, from the top to the root
    want = {(cl[c], cl[p]) for c, p in links if p in reach} | ({(cl[i], 'root') for i in tops} if add_root else set())
    ids['root'] = 'root'
    got = set()
    for t, h, lab, _ in rec.edges_:
        ctx.check(lab is None or bool(lab == ''), 'label of an edge')
        e = [(a, b) for a, b in want if bool(t == ids[a]) and bool(h == ids[b])]
        ctx.check(len(e) == 1, 'an edge that connects other nodes')
        got.add(e[0])
    ctx.check(got == want, 'an edge is missing')
    ctx.check(len(rec.edges_) <= len([1 for c, p in links if p in reach]) + len(tops), 'edges drawn repeatedly')


def written(r, name, hashed):
    if hashed is not None:
        return bool(r[0] == hashed) if r[1] is None else bool(r[1] == hashed)
    t = graphsym.shown(r[0] if r[1] is None else r[1])
    # the separator of activity names may be shown as a line break
    return bool(t == name) or bool(t == name.replace('::', '\n'))


def k_serialize(ctx, cfg):
    """the text of a graph depends on its nodes and edges, not on the order in which they are found"""
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode
    from ficus.legacy.pipelines.analysis.patterns import patterns_graph_parts as gp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    n = cfg['n']
    names = [ctx.name('n%d' % i, 1, NAME) for i in range(n)]
    par = [ctx.index('par%d' % i, i + 1) - 1 for i in range(n)]
    texts = []
    with Scratch():
        for rnd in range(3):
            nodes = [ActivityNode(x, None, {0}, None, 0) for x in names]
            order = list(range(n))
            if rnd == 1:
                order.reverse()
            for i in order:
                if par[i] >= 0:
                    nodes[par[i]].child_nodes.append(nodes[i])
            if rnd == 2:
                nodes[n - 1].name = nodes[n - 1].name + '!'
            tops = [nodes[i] for i in order if par[i] < 0]
            res = gp.BuildActivityGraph(0, 'G').execute(PipelinePartResult().with_activities(tops))
            res = gp.SerializeGraph().execute(res)
            texts.append(res.get_value_or_throw('serialized_graph'))
    ctx.check(texts[0] == texts[1], 'the same graph is written differently')
    ctx.check(ctx.not_(texts[0] == texts[2]), 'different graphs are written equally')
