"""Scatter plots of data sets."""
from .common import *
from . import drawsym, pbsym

ASSUMPTIONS = ['the embeddings of scikit-learn (PCA, Isomap, MDS, t-SNE) are stand-ins: they record what they are asked for and give one point per row; matplotlib is a recorder',
               'the protobuf runtime is trusted (stand-ins with the same descriptors carry symbolic values; every path is replayed through the real messages and their real encoding)',
               'a delivered data set has one label and one colour per row, the same colour for the same label']
BOUNDS_TEXT = ('data sets of up to 4 rows and 3 columns with symbolic values; symbolic labels over the whole int32 range in every equality pattern and order, with and without a colour of their own; all four '
               'embeddings, 1 to 3 components, shown or saved, labelled or not, through the functions and through every part that draws data sets'
               '; 14 rows and 12 columns of which two rows and labels are arbitrary')
CALLS = []
LABEL = 'the label'


class Embedding:
    def __init__(self, method, n_components=None):
        self.method, self.n = method, n_components

    def fit_transform(self, values, *a):
        import numpy as np
        rows = [list(r) for r in values]
        CALLS.append((self.method, self.n, rows))
        return np.array([[float(100 * i + c) for c in range(self.n)] for i in range(len(rows))]).reshape(len(rows), self.n)


def _stand_in(name):
    return type(name, (Embedding,), {'__init__': lambda self, n_components=None, **kw: Embedding.__init__(self, name, n_components)})


def setup(symbolic):
    drawsym.install()
    pbsym.install(symbolic)
    import sklearn.decomposition
    import sklearn.manifold
    sklearn.decomposition.PCA = _stand_in('PCA')
    for n in ('Isomap', 'MDS', 'TSNE'):
        setattr(sklearn.manifold, n, _stand_in(n))
    import ficus.grpc_pipelines.activities_parts
    import ficus.legacy.analysis.event_log_analysis
    if symbolic:
        import numpy as np
        import pandas as pd
        from symex import instrument

        class Frame(pd.DataFrame):
            """keeps symbolic numbers as objects"""
            @property
            def _constructor(self):
                return pd.DataFrame

            def __setitem__(self, k, v):
                if type(v) is list:
                    v = pd.Series(objects(v), index=self.index, dtype=object)
                    super().insert(len(self.columns), k, v.values)
                else:
                    super().__setitem__(k, v)

        def objects(v):
            a = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                a[i] = x
            return a

        def frame(data=None, columns=None, index=None):
            m = np.empty((len(data), len(columns)), dtype=object)
            for i, r in enumerate(data):
                for j, x in enumerate(r):
                    m[i, j] = x
            return Frame(m, columns=list(columns), index=list(index))
        instrument.HANDLERS[pd.DataFrame] = frame
        globals()['make_frame'] = frame


def make_frame(data=None, columns=None, index=None):
    import pandas as pd
    return pd.DataFrame(data, columns=columns, index=index)


METHODS = ('Pca', 'Isomap', 'MDS', 'TSNE')
PARTS = ('ClusterizeActivitiesFromTracesKMeans', 'ClusterizeActivitiesFromTracesKMeansGridSearch', 'ClusterizeActivitiesFromTracesDbscan', 'ClusterizeLogTracesDbscan')


def configs(tier):
    t = tier == 'thorough'
    out = []
    for m in METHODS:
        for n in (1, 2, 3):
            for r in ((1, 2, 3, 4) if t else (1, 3) if m != 'Pca' else (1, 2, 3)):
                for lab in (0, 1):
                    out.append({'name': 'fn-%s-%d-%d-%d' % (m, n, r, lab), 'k': 'fn', 'm': m, 'n': n, 'r': r, 'c': 2 if n != 3 else 3, 'lab': lab})
    for p in PARTS + ('VisualizeTracesActivities2',):
        for m in METHODS:
            for n in (1, 2, 3):
                out.append({'name': 'part-%s-%s-%d' % (p, m, n), 'k': 'part', 'p': p, 'm': m, 'n': n, 'r': 3 if t else 2, 'c': 2, 'lab': int(p in PARTS)})
        out.append({'name': 'part-%s-4' % p, 'k': 'part', 'p': p, 'm': 'Pca', 'n': 2, 'r': 4, 'c': 1, 'lab': int(p in PARTS)})
        out.append({'name': 'part-%s-defaults' % p, 'k': 'part', 'p': p, 'm': 'Pca', 'n': 3, 'r': 2, 'c': 2, 'lab': int(p in PARTS), 'defaults': 1})
        if p in PARTS:
            out.append({'name': 'part-%s-hidden' % p, 'k': 'hidden', 'p': p, 'm': 'Pca', 'n': 2, 'r': 2, 'c': 2, 'lab': 1})
    for m in METHODS:
        for n in (2, 3):
            out.append({'name': 'fn-%s-%d-long' % (m, n), 'k': 'fn', 'm': m, 'n': n, 'r': 14, 'c': 12, 'lab': 1, 'free': 2})
            out.append({'name': 'fn-%s-%d-long-0' % (m, n), 'k': 'fn', 'm': m, 'n': n, 'r': 14, 'c': 12, 'lab': 0, 'free': 2})
    for p in PARTS + ('VisualizeTracesActivities2',):
        out.append({'name': 'part-%s-long' % p, 'k': 'part', 'p': p, 'm': 'Pca', 'n': 3, 'r': 14, 'c': 12, 'lab': int(p in PARTS), 'free': 2})
    return out


COLOURS = ((0, 10, 255), (16, 0, 1), (200, 100, 50), (1, 2, 3)) + tuple((20 + 7 * i, 255 - 11 * i, 3 * i) for i in range(12))
SKL = {'Pca': 'PCA', 'Isomap': 'Isomap', 'MDS': 'MDS', 'TSNE': 'TSNE'}


def harness(ctx, cfg):
    from ficus.legacy.analysis import event_log_analysis as ela
    Color = ela.Color
    import itertools
    del CALLS[:]
    drawsym.begin()
    r, c = cfg['r'], cfg['c']
    free = cfg.get('free', r)
    vals = [[ctx.int('v%d_%d' % (i, j), -1000, 1000) if i < free else 10 * i + j for j in range(c)] for i in range(r)]
    rows = ['row%d' % i for i in range(r)]
    cols = ['col%d' % j for j in range(c)]
    labels = [ctx.int('l%d' % i, -2 ** 31, 2 ** 31 - 1) if i < free else i * 5 % 9 - 2 for i in range(r)] if cfg['lab'] else None
    cl = None
    if labels is not None:
        cl = []
        for i, l in enumerate(labels):
            for j in range(i):
                if bool(labels[j] == l):
                    cl.append(cl[j])
                    break
            else:
                cl.append(len(set(cl)))
    path = ctx.choose('path', (None, 'x/y.png'))
    view, size, font, ncol = ((-140, 60), (7, 9), 14, 2) if cfg.get('defaults') else ((ctx.int('azim', -360, 360), ctx.int('elev', -360, 360)), (3, 4), 11, 5)
    method = getattr(ela.DatasetVisualizationMethod, cfg['m'])
    comp = {1: ela.NComponents.One, 2: ela.NComponents.Two, 3: ela.NComponents.Three}[cfg['n']]
    colours = {}
    if cfg['k'] == 'fn':
        df = make_frame(vals, columns=cols, index=rows)
        if labels is not None:
            if ctx.symbolic:
                df[LABEL] = list(labels)
            else:
                df[LABEL] = labels
        cd = ColourMap(ctx)
        for i in (sorted(set(cl)) if cl else ()):
            if ctx.index('has%d' % i, 2) if i < 3 else i % 2:
                cd.add(labels[cl.index(i)], Color(*COLOURS[i]))
                colours[i] = COLOURS[i]
        f = {'Pca': ela.visualize_dataset_pca, 'Isomap': ela.visualize_dataset_isomap, 'MDS': ela.visualize_dataset_mds, 'TSNE': ela.visualize_dataset_tsne}[cfg['m']]
        f(df, comp, cd, size, view, font, ncol, path, LABEL if labels is not None else None)
    else:
        from ficus.grpc_pipelines import activities_parts as ap
        from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
        from ficus.grpc_pipelines.models import pipelines_and_context_pb2 as P, pm_models_pb2 as M, util_pb2 as U
        data = M.GrpcDataset(matrix=M.GrpcMatrix(rows=[M.GrpcMatixRow(values=v) for v in vals]), columnsNames=cols, rowNames=rows)
        kw = {} if cfg.get('defaults') else dict(fig_size=size, view_params=view, font_size=font, n_components=comp, visualization_method=method, legend_cols=ncol)
        kw['save_path'] = path
        args = (Pipeline2(),) if cfg['p'] == 'ClusterizeLogTracesDbscan' else ()
        if labels is None:
            msg = {'traces_activities_dataset': pbsym.wire(P.GrpcContextValue(dataset=data))}
        else:
            col = []
            for i in cl:
                colours[i] = COLOURS[i]
                a, b, g = COLOURS[i]
                col.append(U.GrpcColor(red=a, green=b, blue=g))
            msg = pbsym.wire(P.GrpcContextValue(labeled_dataset=M.GrpcLabeledDataset(dataset=data, labels=labels, labelsColors=col)))
            key = 'labeled_log_traces_dataset' if cfg['p'] == 'ClusterizeLogTracesDbscan' else 'labeled_traces_activities_dataset'
            msg = {key: msg}
        if cfg['k'] == 'hidden':
            kw['show_visualization'] = False
        part = getattr(ap, cfg['p'])(*args, **kw)
        part.execute_callback(msg)
        if cfg['k'] == 'hidden':
            ctx.check(not drawsym.STATE['figs'] and not CALLS, 'drawn although no visualization was asked for')
            return
    # what was embedded: all rows in order, without the labels
    ctx.check(len(CALLS) == 1, 'one embedding')
    m, n, got = CALLS[0]
    ctx.check(m == SKL[cfg['m']] and n == cfg['n'], 'embedding %s with %r components' % (m, n))
    ctx.check(len(got) == r and all(len(x) == c for x in got), 'shape of the embedded data')
    for x, v in zip(got, vals):
        for a, b in zip(x, v):
            ctx.check(a == b, 'an embedded value')
    figs = drawsym.STATE['figs']
    ctx.check(len(figs) == 1 and len(figs[0].axes) == 1, 'one diagram')
    fig = figs[0]
    ax = fig.axes[0]
    if path is None:
        ctx.check(fig.shown == 1 and not fig.saved and not fig.closed, 'not shown')
    else:
        ctx.check([str(s) for s in fig.saved] == [path] and fig.closed == 1 and not fig.shown, 'not saved and closed')
    ctx.check((ax.projection == '3d') == (cfg['n'] == 3), 'projection')
    # points
    ncomp = max(2, cfg['n'])
    want = [[float(100 * i + k) for k in range(cfg['n'])] + [0.0] * (ncomp - cfg['n']) for i in range(r)]
    groups = {}
    for a, kw in ax.scatters:
        ctx.check(len(a) == ncomp and len({len(x) for x in a}) == 1, 'components of the points')
        pts = [[float(x[i]) for x in a] for i in range(len(a[0]))]
        idx = []
        for p in pts:
            ctx.check(p in want, 'a point of no row')
            idx.append(want.index(p))
        ctx.check(len(set(idx)) == len(idx) and idx, 'a row is drawn twice')
        if labels is None:
            ctx.check(idx == list(range(r)) and 'label' not in kw and not groups, 'points without labels')
            groups[0] = 1
            continue
        k = cl[idx[0]]
        ctx.check(k not in groups and sorted(idx) == [i for i in range(r) if cl[i] == k], 'points of a label')
        groups[k] = 1
        exp = '#%02x%02x%02x' % colours[k] if k in colours else '#ffffff'
        colour = kw.get('c', kw.get('color'))
        ctx.check(str(colour).lower() == exp, 'colour of a label: %r, expected %s' % (colour, exp))
        ctx.check(kw.get('label') == ctx.const('CLUSTER_') + text(ctx, labels[cl.index(k)]), 'name of a label')
    ctx.check(len(groups) == (1 if labels is None else len(set(cl))), 'labels drawn')
    ctx.check(len(ax.legends) == (labels is not None), 'legend')
    # axes
    for k, (f, t_) in enumerate((('set_xlabel', 'Component 1'), ('set_ylabel', 'Component 2'), ('set_zlabel', 'Component 3'))):
        g = ax.got(f)
        if k < ncomp:
            ctx.check(len(g) == 1 and g[0][0] == (t_,) and g[0][1].get('fontsize') == font, 'label of an axis')
        else:
            ctx.check(not g, 'label of an axis that does not exist')
    g = ax.got('view_init')
    if cfg['n'] == 3:
        ctx.check(len(g) == 1, 'view')
        a, kw = g[0]
        a = list(a) + [kw[x] for x in ('elev', 'azim') if x in kw]
        ctx.check(ctx.all([a[0] == view[0], a[1] == view[1]]), 'view')
    else:
        ctx.check(not g, 'view of a flat diagram')


def text(ctx, v):
    if not ctx.symbolic:
        return str(v)
    from symex.instrument import sstr
    return sstr(v)


class ColourMap:
    """label -> colour with decided equality of labels"""

    def __init__(self, ctx):
        self.l = []

    def add(self, k, v):
        self.l.append((k, v))

    def __contains__(self, k):
        return any(bool(x == k) for x, _ in self.l)

    def __getitem__(self, k):
        for x, v in self.l:
            if bool(x == k):
                return v
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d
