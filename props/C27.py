"""Diagrams of logs: rectangles, colours, legends, histograms."""
from .common import *
from . import drawsym
import itertools
import os

ASSUMPTIONS = ['the drawing libraries are replaced by recorders of the rectangles, colours, legends and files; what they paint is trusted',
               'instances are ordered, disjoint, non-empty and inside their traces (decided by C14); instances with equal names are the same activity; event names do not contain "::"',
               'random colours do not repeat here (repetitions are decided by C28); a colours log gives one colour per name', 'scales are positive (whole numbers for the plotted diagrams)']
BOUNDS_TEXT = ('diagrams of events and placements: all logs of up to 4 events in up to 3 traces with any names; activity diagrams: traces of 12 events with up to 3 instances of any start, '
               'length and name in up to 2 traces; pattern diagrams: up to 2 patterns in traces of up to 4 symbolic events; colours logs: up to 5 rectangles in 3 traces, symbolic names '
               'of up to 51 characters and lengths up to 1000 (canvas) or 3 (plot), a symbolic colour channel and symbolic scales of the canvas; width scales 1-3, height scales 1-2; every legend, title and path option'
               '; wide and long diagrams (traces of up to 20 events with 7 instances, 6 rows) with two arbitrary names, positions and lengths')
UND, BLACK = 'UndefinedActivity', '#000000'


def setup(symbolic):
    drawsym.install()
    import ficus.legacy.pipelines.analysis.analysis_parts
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts
    import ficus.legacy.analysis.event_log_analysis_canvas


def configs(tier):
    t = tier == 'thorough'
    out = []
    n = 5 if t else 4
    for c in sym_cfgs(shapes(n, 3 if t else 2, empties=True)) + sym_cfgs([(1, 1, 1), (2, 0, 1), (1, 1, 2)]):
        out.append(dict(c, name='events-' + c['name'], kind='events'))
    for s in [(3,), (2, 1), (1, 0, 2)] + ([(4,), (2, 2)] if t else []):
        for k in (0, 1, 2):
            out.append(dict(sym_cfgs([s])[0], name='placement-%s-%d' % ('x'.join(map(str, s)), k), kind='placement', nsel=k))
        out.append(dict(sym_cfgs([s])[0], name='predicate-%s' % 'x'.join(map(str, s)), kind='predicate'))
    for short in (0, 1):
        for ks in ((0,), (1,), (2,), (3,), (0, 1), (1, 1), (1, 0), (2, 1)) + (((2, 2), (4,)) if t else ()):
            out.append({'name': 'act-%s-%s' % ('short' if short else 'full', 'x'.join(map(str, ks))), 'kind': 'activities', 'short': short, 'ks': list(ks), 'len': 12})
        out.append({'name': 'act-%s-tiny' % ('short' if short else 'full'), 'kind': 'activities', 'short': short, 'ks': [1, 0, 0], 'lens': [1, 0, 2]})
        for s in ((2,), (3,), (4,), (2, 2)):
            out.append(dict(sym_cfgs([s])[0], name='patterns-%d-%s' % (short, 'x'.join(map(str, s))), kind='patterns', short=short))
    for diff in (0, 1):
        for ks in ((0,), (1,), (2,), (3,), (1, 1), (2, 1)):
            out.append({'name': 'single-%d-%s' % (diff, 'x'.join(map(str, ks))), 'kind': 'single', 'diff': diff, 'ks': list(ks), 'len': 12})
    for s in ((), (0,), (1,), (2,), (3,), (1, 1), (2, 0, 1), (2, 2)) + (((1, 2, 2),) if t else ((1, 1, 1),)):
        out.append({'name': 'plot-' + 'x'.join(map(str, s)), 'kind': 'plot', 's': list(s)})
        out.append({'name': 'canvas-' + 'x'.join(map(str, s)), 'kind': 'canvas', 's': list(s)})
        out.append({'name': 'canvas-scales-' + 'x'.join(map(str, s)), 'kind': 'canvas', 's': list(s), 'scales': 1})
    # long and wide ones: a few names, positions and lengths are arbitrary, the others given
    W = ['Sabcdabcdefgh', '', 'a', 'Saab', 'cc', 'd']
    out.append(tcfg('events-long', W, kind='events'))
    out.append(tcfg('placement-long', W, kind='placement', nsel=2))
    out.append(tcfg('predicate-long', W[:5], kind='predicate'))
    for short in (0, 1):
        out.append({'name': 'act-%s-long' % ('short' if short else 'full'), 'kind': 'activities', 'short': short, 'ks': [7, 0, 5, 1, 2], 'lens': [20, 0, 13, 3, 9], 'free': 2})
    for diff in (0, 1):
        out.append({'name': 'single-%d-long' % diff, 'kind': 'single', 'diff': diff, 'ks': [7, 0, 5, 1, 2], 'lens': [20, 0, 13, 3, 9], 'free': 2})
    out += [{'name': k + '-long', 'kind': k, 's': [7, 0, 6, 1, 2], 'free': 2} for k in ('plot', 'canvas')]
    out.append(tcfg('hist-long', ['ab', 'Sb', 'ab', 'c', '', 'c', 'ab', 'a', 'b', 'Sbc', 'abc', 'c', 'd'], kind='hist'))
    out.append({'name': 'plot-prefix', 'kind': 'plot', 's': [2], 'nlen': 51})
    out.append({'name': 'plot-colour', 'kind': 'plot', 's': [1], 'channel': 1})
    out.append({'name': 'canvas-colour', 'kind': 'canvas', 's': [1], 'channel': 1})
    for c in sym_cfgs(shapes(4, 2, empties=True)):
        out.append(dict(c, name='hist-' + c['name'], kind='hist'))
        if len(c['traces']) != 1 and sum(map(bool, c['traces'])) > 1:
            out.append(dict(c, name='entropy-' + c['name'], kind='entropy'))
    out.append({'name': 'hists', 'kind': 'hists'})
    out.append({'name': 'hists-files', 'kind': 'hists_files'})
    # small configurations explore every combination of options, of the others each explores one
    k = 0
    for c in out:
        size = sum(len(x) for x in c.get('traces', [])) + 2 * sum(c.get('ks', [])) + sum(c.get('s', []))
        if c['kind'] not in ('canvas', 'hist', 'hists', 'hists_files', 'entropy') and size > 2:
            c['opt'] = (0, 1, 2, 3, 4, 5)[k % 6]
            c['name'] += '-o%d' % c['opt']
            k += 1
    return out


# ------------------------------------------------------------------ oracle
def rows(ctx, fig_axes, n, h, what):
    """the rectangles by row, in order"""
    out = [[] for _ in range(n)]
    for r in fig_axes.drawn:
        x, y, w, hh, fc = r
        ctx.check(hh == h, what + ': height of a rectangle')
        k = [i for i in range(n) if bool(y == i * h)]
        ctx.check(len(k) == 1, what + ': a rectangle outside of the rows')
        out[k[0]].append(r)
    return out


class Colours:
    """class -> colour, different for different classes"""

    def __init__(self, ctx, what):
        self.ctx, self.what, self.m = ctx, what, {}

    def see(self, cls, c):
        ctx = self.ctx
        if cls in self.m:
            ctx.check(self.m[cls] == c, self.what + ': one class has two colours')
            return
        for k, d in self.m.items():
            ctx.check(ctx.not_(d == c), self.what + ': two classes share a colour')
        self.m[cls] = c


def tile(ctx, row, want, see, what):
    """the rectangles of a row tile exactly the wanted (width, class) sequence; see(class, colour)"""
    pos, i, left = 0, 0, 0
    for w, cls in want:
        need = w
        while bool(need > 0):
            if not bool(left > 0):
                while i < len(row) and bool(row[i][2] == 0):
                    i += 1
                ctx.check(i < len(row), what + ': a part of the trace is not covered')
                ctx.check(row[i][0] == pos, what + ': gap or overlap')
                left = row[i][2]
                pos = pos + left
                i += 1
            see(cls, row[i - 1][4])
            step = need if bool(need <= left) else left
            need, left = need - step, left - step
    ctx.check(left == 0, what + ': a rectangle reaches beyond its part of the trace')
    while i < len(row) and bool(row[i][2] == 0):
        i += 1
    ctx.check(i == len(row), what + ': more is drawn than the trace')


def legend(ctx, ax, plotted, classes, labels, colours, what):
    """classes: drawn classes; labels: class -> text; colours: class -> list of allowed colours"""
    if not plotted:
        ctx.check(not ax.legends, what + ': a legend was not asked for')
        return
    ctx.check(len(ax.legends) == 1 and ax.legends[0][0] is not None and ax.legends[0][1] is not None, what + ': no legend')
    h, l = ax.legends[0]
    ctx.check(len(h) == len(l) == len(classes), '%s: %d legend entries for %d classes' % (what, len(l), len(classes)))
    left = list(zip(h, l))
    for c in classes:
        m = [j for j, (r, t) in enumerate(left) if bool(t == labels[c]) and any(bool(r.fc == k) for k in colours[c])]
        ctx.check(len(m) >= 1, what + ': a class is not in the legend with its colour')
        del left[m[0]]


def figure(ctx, what, path):
    figs = drawsym.STATE['figs']
    ctx.check(len(figs) == 1 and len(figs[0].axes) == 1, what + ': one diagram')
    f = figs[0]
    ctx.check(len(f.saved) == (path is not None) and f.shown == (path is None), what + ': saved %s, shown %d times' % (f.saved, f.shown))
    ctx.check(path is None or f.saved[0] == path, what + ': saved to another path')
    return f.axes[0]


class Options:
    def __init__(self, ctx, cfg):
        k = cfg['opt'] if 'opt' in cfg else ctx.index('opt', 6)
        self.ws, self.hs = [(1, 1), (2, 1), (3, 2), (1, 2), (1, 1), (2, 2)][k]
        self.legend = k % 2 == 0
        self.title = ['t', None][k // 3]
        self.path = [None, None, 'fig.png', os.path.join('a', 'b', 'fig.png'), None, 'fig'][k]
        self.kw = dict(title=self.title, plot_legend=self.legend, height_scale=self.hs, width_scale=self.ws, save_path=self.path)
        if k == 4:
            # what is not given: no title, no scaling, shown
            self.kw = dict(plot_legend=self.legend)

    def without(self, *names):
        if 'width_scale' in names:
            self.ws = 1
        return {k: v for k, v in self.kw.items() if k not in names}


def harness(ctx, cfg, kinds=None):
    import tempfile
    import warnings
    from ficus.legacy.util import random_unique_color_provider_instance
    warnings.simplefilter('ignore')
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            drawsym.begin()
            random_unique_color_provider_instance.reset()
            with drawsym.Random(drawsym.counting()):
                (kinds or KINDS)[cfg['kind']](ctx, cfg)
        finally:
            os.chdir(old)


def part_result(log):
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    return PipelinePartResult().with_log(log)


def names_of(b, cl):
    out = {}
    for t, ct in zip(b.names, cl):
        for n, k in zip(t, ct):
            out.setdefault(k, n)
    return out


def check_rows(ctx, o, ax, wants, what, see):
    rs = rows(ctx, ax, len(wants), o.hs, what)
    for r, w in zip(rs, wants):
        tile(ctx, r, [(x * o.ws, c) for x, c in w], see, what)


def k_events(ctx, cfg):
    from ficus.legacy.pipelines.analysis.analysis_parts import TracesDiversityDiagram
    b = LogBuilder(ctx, cfg)
    cl, _ = b.classes()
    o = Options(ctx, cfg)
    snap = b.snapshot()
    inp = part_result(b.log)
    res = TracesDiversityDiagram(**o.kw).execute(inp)
    ctx.check(res.__log__() is b.log, 'the log is passed on')
    b.check_untouched(snap)
    ax = figure(ctx, 'events', o.path)
    col = Colours(ctx, 'events')
    check_rows(ctx, o, ax, [[(1, c) for c in t] for t in cl], 'events', col.see)
    nm = names_of(b, cl)
    legend(ctx, ax, o.legend, sorted(nm), nm, {k: [v] for k, v in col.m.items()}, 'events')
    # a second diagram of the same context shows the same colours
    drawsym.begin()
    TracesDiversityDiagram(**o.kw).execute(res)
    check_rows(ctx, o, figure(ctx, 'again', o.path), [[(1, c) for c in t] for t in cl], 'again', col.see)


def k_placement(ctx, cfg):
    from ficus.legacy.pipelines.analysis.analysis_parts import EventsPlacement, DrawPlacementOfEvents
    b = LogBuilder(ctx, cfg)
    if cfg['kind'] == 'placement':
        sel = [ctx.name('sel%d' % i, 1) for i in range(cfg['nsel'])]
        cl, sc = b.classes(sel)
        o = Options(ctx, cfg)
        part = EventsPlacement(set(sel), **o.without('width_scale'))
        chosen = set(sc)
    else:
        cl, _ = b.classes()
        o = Options(ctx, cfg)
        nm0 = names_of(b, cl)
        chosen = {k for k in nm0 if ctx.bool('pick%d' % k)}

        def pred(name):
            return any(bool(name == nm0[k]) for k in chosen)
        part = DrawPlacementOfEvents(pred, **o.kw)
    part.execute(part_result(b.log))
    ax = figure(ctx, 'placement', o.path)
    col = Colours(ctx, 'placement')
    col.see('other', BLACK)
    check_rows(ctx, o, ax, [[(1, c if c in chosen else 'other') for c in t] for t in cl], 'placement', col.see)
    nm = names_of(b, cl)
    legend(ctx, ax, o.legend, sorted(nm), nm, {k: [col.m[k if k in chosen else 'other']] for k in nm}, 'placement')


def instances(ctx, cfg):
    """a log, its symbolic instances and the classes of their names"""
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo
    lens = cfg.get('lens') or [cfg['len']] * len(cfg['ks'])
    log = MyEventLog([MyTrace([MyEvent({CN: 'abc'[i % 3]}) for i in range(n)]) for n in lens])
    total = sum(cfg['ks'])
    free = cfg.get('free', total)
    names = [ctx.name('act%d' % i, 1) if i < free else ctx.const('abcde'[i * 2 % 5]) for i in range(total)]
    cl = ctx.classes(names)
    nodes = {}
    for i, k in enumerate(cl):
        # the same activity may be found in several traces; the sets of events of two activities may be ordered either way
        nodes.setdefault(k, ActivityNode(names[i], None, {k, 7 + k}, lambda e: e[CN], 0))
    out, spec, i = [], [], 0
    for n, k in zip(lens, cfg['ks']):
        tr, sp, last = [], [], 0
        for j in range(k):
            if i < free:
                # what follows is given: it starts behind
                top = n if free == total else n - 2 * (k - min(k, free))
                s, l = ctx.int('s%d' % i, 0, n), ctx.int('l%d' % i, 1, n, default=1)
                ctx.assume(s >= last)
                ctx.assume(s + l <= top)
            else:
                s, l = max(n - 2 * (k - j), 0), 1 + j % 2
            tr.append(ActivityInTraceInfo(nodes[cl[i]], s, l))
            sp.append((s, l, cl[i]))
            last = s + l
            i += 1
        out.append(tr)
        spec.append((n, sp))
    return log, out, spec, nodes, names, cl


def segments(ctx, n, sp, short, keep=None):
    """(width, class) of a trace: instances and what is between them"""
    out, last = [], 0
    for s, l, c in sp:
        if keep is not None and c not in keep:
            continue
        if bool(s > last):
            out.append((1 if short else s - last, UND))
        out.append((1 if short else l, c))
        last = s + l
    if bool(last < n) or (short and not sp):
        out.append((1 if short else n - last, UND))
    return out


def k_activities(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawFullActivitiesDiagram, DrawShortActivitiesDiagram, DrawActivitiesDiagram
    log, infos, spec, nodes, names, cl = instances(ctx, cfg)
    o = Options(ctx, cfg)
    C = DrawShortActivitiesDiagram if cfg['short'] else DrawFullActivitiesDiagram
    part = C(**o.kw) if o.legend else DrawActivitiesDiagram(bool(cfg['short']), **o.kw)
    part.execute(part_result(log).with_trace_activities(infos))
    ax = figure(ctx, 'activities', o.path)
    col = Colours(ctx, 'activities')
    col.see(UND, BLACK)
    wants = [segments(ctx, n, sp, cfg['short']) for n, sp in spec]
    check_rows(ctx, o, ax, wants, 'activities', col.see)
    drawn = {c for w in wants for _, c in w}
    labels = {k: nodes[k].name if k != UND else UND for k in drawn}
    if any(n == 0 for n, _ in spec):
        # an empty trace may or may not be accounted for in the legend
        drawn |= {UND} if o.legend and any(bool(t == UND) for t in ax.legends[0][1]) else set()
        labels[UND] = UND
    legend(ctx, ax, o.legend, sorted(drawn, key=str), labels, {k: [v] for k, v in col.m.items()}, 'activities')


def k_patterns(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawPatterns
    from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
    b = LogBuilder(ctx, dict(cfg, alpha=3))
    cl, _ = b.classes()
    o = Options(ctx, cfg)
    pats, spec = [], []
    for ti, t in enumerate(cl):
        n, tr, sp, last = len(t), [], [], 0
        for j in range(2):
            # position after the last pattern, length 0: no further pattern
            ch = [None] + [(s, l) for s in range(last, n) for l in range(1, n - s + 1)]
            p = ctx.choose('p%d.%d' % (ti, j), ch)
            if p is None:
                break
            tr.append(SubArrayInEventLog(*p))
            sp.append((p[0], p[1], tuple(t[p[0]:p[0] + p[1]])))
            last = sum(p)
        pats.append(tr)
        spec.append((n, sp))
    DrawPatterns(bool(cfg['short']), **o.kw).execute(part_result(b.log).with_patterns(pats))
    ax = figure(ctx, 'patterns', o.path)
    col = Colours(ctx, 'patterns')
    col.see(UND, BLACK)
    wants = [segments(ctx, n, sp, cfg['short']) for n, sp in spec]
    check_rows(ctx, o, ax, wants, 'patterns', col.see)
    if o.legend:
        # how a pattern is called is free, but every pattern is listed once with its colour
        h, l = ax.legends[0] if ax.legends else ([], [])
        ctx.check(len(ax.legends) == 1, 'patterns: no legend')
        drawn = {c for w in wants for _, c in w}
        ctx.check(len(h) == len(l) == len(drawn), 'patterns: %d legend entries for %d patterns' % (len(l), len(drawn)))
        for c in drawn:
            ctx.check(len([1 for r in h if bool(r.fc == col.m[c])]) == 1, 'patterns: a pattern is not in the legend with its colour')
        for x, y in itertools.combinations(l, 2):
            ctx.check(ctx.not_(x == y), 'patterns: two patterns have the same legend entry')
    else:
        ctx.check(not ax.legends, 'patterns: a legend was not asked for')


def k_single(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawSingleActivityPlacement
    log, infos, spec, nodes, names, cl = instances(ctx, cfg)
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode
    o = Options(ctx, cfg)
    if not nodes:
        nodes[0] = ActivityNode('x', None, {1}, lambda e: e[CN], 0)
    keep = ctx.choose('which', sorted(nodes))
    roots = [nodes[k] for k in sorted(nodes)]
    DrawSingleActivityPlacement(lambda acts: [x for x in acts if x is nodes[keep]][0], use_different_colors=bool(cfg['diff']),
                                **o.kw).execute(part_result(log).with_trace_activities(infos).with_activities(roots))
    ax = figure(ctx, 'single', o.path)
    used = []
    rs = rows(ctx, ax, len(spec), o.hs, 'single')
    drawn = set()
    for r, (n, sp) in zip(rs, spec):
        want = []
        for j, (w, c) in enumerate(segments(ctx, n, sp, 0, {keep})):
            want.append((w * o.ws, UND if c == UND else (j if cfg['diff'] else 0)))
            drawn.add(UND if c == UND else keep)
        col = Colours(ctx, 'single')
        col.see(UND, BLACK)
        tile(ctx, r, want, col.see, 'single')
        used += [v for k, v in col.m.items() if k != UND]
    legend(ctx, ax, o.legend, sorted(drawn, key=str), {UND: UND, keep: nodes[keep].name}, {UND: [BLACK], keep: used}, 'single')


def rgb(ctx, text):
    """the three channels of a '#RRGGBB' text"""
    ctx.check(len(text) == 7 and text[0] == '#', 'not a colour')

    def digit(c):
        o = ctx.code(c)
        if bool(o <= 57):
            return o - 48
        return o - 55 if bool(o <= 70) else o - 87
    return [digit(text[i]) * 16 + digit(text[i + 1]) for i in (1, 3, 5)]


def colours_log(ctx, cfg, top):
    from ficus.legacy.analysis.event_log_analysis import ColoredRectangle, Color
    n = sum(cfg['s'])
    L = cfg.get('nlen')
    free = cfg.get('free', n)
    names = [ctx.const('n' * (L - 1)) + ctx.name('n%d' % i, 1) for i in range(n)] if L else [ctx.name('n%d' % i, 1) if i < free else ctx.const('abcdefghi'[i * 2 % 9]) for i in range(n)]
    cl = ctx.classes(names)
    channels = {}
    for k in sorted(set(cl)):
        channels[k] = [10 + 16 * k, 255 - k, 0]
        if cfg.get('channel'):
            channels[k][ctx.index('which', 3)] = ctx.int('channel%d' % k, 0, 255)
    out, spec, i = [], [], 0
    for m in cfg['s']:
        tr, sp = [], []
        for _ in range(m):
            l = ctx.int('len%d' % i, 1, top, default=1) if i < free else 1 + i % 2
            tr.append(ColoredRectangle(Color(*channels[cl[i]]), ctx.int('start%d' % i, 0, 1000) if i < free else i, l, names[i]))
            sp.append((l, cl[i]))
            i += 1
        out.append(tr)
        spec.append(sp)
    return out, spec, names, cl, channels


def check_channels(ctx, col, channels, what):
    for k, c in col.m.items():
        ctx.check(ctx.all([a == b for a, b in zip(rgb(ctx, c), channels[k])]), what + ': another colour than the one of the log')


def k_plot(ctx, cfg, draw=None):
    from ficus.legacy.analysis.event_log_analysis import draw_colors_event_log
    log, spec, names, cl, channels = colours_log(ctx, cfg, 2 if len(cfg['s']) > 1 else 3)
    o = Options(ctx, cfg)
    (draw or draw_colors_event_log)(log, **o.kw)
    ax = figure(ctx, 'colours', o.path)
    col = Colours(ctx, 'colours')
    check_rows(ctx, o, ax, spec, 'colours', col.see)
    check_channels(ctx, col, channels, 'colours')
    labels = {}
    for n, k in zip(names, cl):
        labels.setdefault(k, n[:50])
    legend(ctx, ax, o.legend, sorted(labels), labels, {k: [v] for k, v in col.m.items()}, 'colours')


def k_canvas(ctx, cfg, draw=None):
    from ficus.legacy.analysis.event_log_analysis_canvas import draw_colors_event_log_canvas
    log, spec, names, cl, channels = colours_log(ctx, cfg, 1000 if not cfg.get('scales') else 2)
    if cfg.get('scales'):
        for sp in spec:
            for l, _ in sp:
                ctx.assume(l == 1)
        ws, hs = ctx.int('ws', 1, 100, default=1), ctx.int('hs', 1, 100, default=1)
        k = ctx.index('opt', 2) * 3
    else:
        k = ctx.index('opt', 4)
        ws, hs = [(1, 1), (2, 3), (0.5, 0.25), (7, 1)][k]
    leg, title, path = k % 2 == 1, [None, 'title'][k // 2], [None, 'x.png'][k % 2]
    (draw or draw_colors_event_log_canvas)(log, title=title, plot_legend=leg, width_scale=ws, height_scale=hs, save_path=path)
    cs = drawsym.STATE['canvases']
    ctx.check(len(cs) == 1, 'canvas: one drawing')
    c = cs[0]
    if path is None:
        ctx.check(drawsym.STATE['displayed'] == [c] and not c.observers, 'canvas: not displayed')
    else:
        for f, names_ in c.observers:
            f({'new': b''})
        ctx.check(c.files == [path], 'canvas: not saved')
    rects = list(c.rects)
    if rects and rects[0][4] == 'white':
        bg = rects.pop(0)
        ctx.check(ctx.all([bg[0] <= 0, bg[1] <= 0, bg[0] + bg[2] >= c.width, bg[1] + bg[3] >= c.height]), 'canvas: background')
    n = len(names)
    classes = sorted(set(cl))
    nl = len(classes) if leg else 0
    ctx.check(len(rects) >= nl, 'canvas: rectangles missing')
    cut = len(rects) - nl
    if nl and bool(rects[0][1] > rects[-1][1]):
        lrects, drawn = rects[:nl], rects[nl:]
    else:
        drawn, lrects = rects[:cut], rects[cut:]
    col = Colours(ctx, 'canvas')
    if n == 0:
        ctx.check(not drawn, 'canvas: rectangles of an empty log')
    else:
        first = [i for i, m in enumerate(cfg['s']) if m][0]
        ctx.check(len(drawn) > 0, 'canvas: nothing drawn')
        x0, y0 = drawn[0][0], drawn[0][1] - first * hs
        by = [[] for _ in spec]
        for r in drawn:
            ctx.check(r[3] == hs, 'canvas: height of a rectangle')
            k = [i for i in range(len(spec)) if bool(r[1] - y0 == i * hs)]
            ctx.check(len(k) == 1, 'canvas: a rectangle outside of the rows')
            by[k[0]].append((r[0] - x0, r[1], r[2], r[3], r[4]))
            ctx.check(ctx.all([r[0] >= 0, r[1] >= 0, r[0] + r[2] <= c.width, r[1] + r[3] <= c.height]), 'canvas: drawn outside of the canvas')
        for r, sp in zip(by, spec):
            tile(ctx, r, [(l * ws, k) for l, k in sp], col.see, 'canvas')
        check_channels(ctx, col, channels, 'canvas')
    # the legend: every class once, its text beside its colour, below the traces, inside the canvas
    texts = list(c.texts)
    for j, k in enumerate(classes if leg else []):
        name = names[cl.index(k)]
        m = [r for r in lrects if bool(r[4] == col.m[k])]
        ctx.check(len(m) == 1, 'canvas: legend colour of a class')
        r = m[0]
        ctx.check(ctx.all([r[0] >= 0, r[1] + r[3] <= c.height, r[0] + r[2] > 0]), 'canvas: legend outside of the canvas')
        if n:
            ctx.check(r[1] >= y0 + len(spec) * hs, 'canvas: the legend covers the traces')
        t = [x for x in texts if bool(x[2] >= r[1]) and bool(x[2] <= r[1] + r[3]) and bool(x[1] >= r[0] + r[2]) and bool(x[0] == name)]
        ctx.check(len(t) >= 1, 'canvas: name of a class in the legend')


def k_hist(ctx, cfg):
    from ficus.legacy.pipelines.analysis.analysis_parts import TracesHistogram
    b = LogBuilder(ctx, cfg)
    cl, _ = b.classes()
    path = ctx.choose('path', [None, 'h.png'])
    TracesHistogram(save_path=path, title='t').execute(part_result(b.log))
    figs = drawsym.STATE['figs']
    ctx.check(len(figs) == 1 and len(figs[0].axes) == 1, 'histogram: one diagram')
    ctx.check(figs[0].saved == ([path] if path else []) and figs[0].shown == (path is None), 'histogram: saved or shown')
    check_hist(ctx, figs[0].axes[0], cl)


def check_hist(ctx, ax, cl):
    """the bins of the histogram count the traces of the variants"""
    ctx.check(len(ax.hists) == 1, 'histogram: drawn once')
    x, bins, kw = ax.hists[0]
    counts = {}
    for t in cl:
        counts[tuple(t)] = counts.get(tuple(t), 0) + 1
    if not counts:
        ctx.check(len(x) == 0, 'histogram: empty log')
        return
    got = []
    for lo, hi in zip(bins, bins[1:]):
        last = hi == bins[-1]
        got.append(len([v for v in x if v >= lo and (v < hi or (last and v == hi))]))
    ctx.check(sorted(g for g in got if g) == sorted(counts.values()) and sum(got) == len(x) == len(cl), 'histogram: %s for variants of %s traces' % (got, sorted(counts.values())))


def k_hists(ctx, cfg):
    from ficus.legacy.analysis.event_log_analysis import plot_logs_traces_histograms
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    n = 1 + ctx.index('logs', 5)
    logs, cls = [], []
    for i in range(n):
        names = [ctx.name('n%d.%d' % (i, j), 1) if i < 2 else ctx.const('a') for j in range(1 + (i + n) % 2)]
        c = ctx.classes(names)
        logs.append(MyEventLog([MyTrace([MyEvent({CN: x})]) for x in names]))
        cls.append([[k] for k in c])
    path = ctx.choose('path', [None, 'h.png'])
    check_hists(ctx, path, cls, lambda: plot_logs_traces_histograms(logs, ['/tmp/dir/log%d.xes' % i for i in range(n)], save_path=path, title='t'))


def k_hists_files(ctx, cfg):
    from ficus.legacy.analysis.event_log_analysis import plot_logs_traces_histograms_for_paths
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    from ficus.legacy.log.functions import save_event_log_to_xes
    cls, paths = [], []
    for i in range(1 + ctx.index('logs', 3)):
        c = [[ctx.index('c%d.%d' % (i, j), 2)] for j in range(2)]
        paths.append(os.path.join('d', 'log%d.xes' % i))
        save_event_log_to_xes(MyEventLog([MyTrace([MyEvent({CN: 'ab'[x]}) for x in t]) for t in c]), paths[-1])
        cls.append(c)
    path = ctx.choose('path', [None, 'h.png'])
    check_hists(ctx, path, cls, lambda: plot_logs_traces_histograms_for_paths(paths, save_path=path, title='t'))


def check_hists(ctx, path, cls, draw):
    draw()
    n = len(cls)
    figs = drawsym.STATE['figs']
    ctx.check(len(figs) == 1, 'histograms: one figure')
    ctx.check(figs[0].saved == ([path] if path else []) and figs[0].shown == (path is None), 'histograms: saved or shown')
    used = [a for a in figs[0].axes if a.hists]
    ctx.check(len(used) == n, 'histograms: one per log')
    for i, (a, c) in enumerate(zip(used, cls)):
        check_hist(ctx, a, c)
        ctx.check([x[0] for x, _ in a.got('set_title')] == ['log%d' % i], 'histograms: title')


def k_entropy(ctx, cfg):
    from ficus.legacy.pipelines.analysis.analysis_parts import DrawDefaultEntropyHistogram
    from ficus.legacy.analysis.event_log_analysis_entropy import calculate_default_entropies
    b = LogBuilder(ctx, cfg)
    cl, _ = b.classes()
    ent = {}
    nm = names_of(b, cl)
    for k, v in calculate_default_entropies(b.log).items():
        ent[[j for j, n in nm.items() if bool(n == k)][0]] = float(v)
    path = ctx.choose('path', [None, 'h.png'])
    DrawDefaultEntropyHistogram(save_path=path).execute(part_result(b.log))
    ax = figure(ctx, 'entropies', path)
    ctx.check(len(ax.drawn) == len(nm), 'entropies: one bar per class')
    col = Colours(ctx, 'entropies')
    bars = []
    for j, (x, y, w, h, fc) in enumerate(ax.drawn):
        ctx.check(y == 0, 'entropies: bars start at 0')
        bars.append((x, w, h, fc))
        col.see(j, fc)
    bars.sort(key=lambda t: t[0])
    for (x, w, _, _), (x2, _, _, _) in zip(bars, bars[1:]):
        ctx.check(x + w == x2, 'entropies: bars side by side')
    h, l = ax.legends[0] if len(ax.legends) == 1 else ([], [])
    ctx.check(len(h) == len(l) == len(nm), 'entropies: legend')
    for k, n in nm.items():
        m = [r for r, t in zip(h, l) if bool(t == n + ' ' + str(ent[k]))]
        ctx.check(len(m) == 1 and abs(m[0].h - ent[k]) < 1e-12, 'entropies: bar of a class')
    hs = [r.h for r in h]
    ctx.check(all(x >= y for x, y in zip(hs, hs[1:])), 'entropies: legend sorted by entropy')


KINDS = {'events': k_events, 'placement': k_placement, 'predicate': k_placement, 'activities': k_activities, 'patterns': k_patterns, 'single': k_single,
         'plot': k_plot, 'canvas': k_canvas, 'hist': k_hist, 'hists': k_hists, 'hists_files': k_hists_files, 'entropy': k_entropy}
