"""Colours handed out: unique, not reserved, stable per name."""
from .common import *
from . import drawsym

ASSUMPTIONS = ['the random source is replaced: every number it returns is any number of the asked range', 'repeated draws are followed up to the stated number of retries',
               'the drawing library is replaced by a recorder']
BOUNDS_TEXT = ('every sequence of up to 4 (thorough: 5) requests and resets to both providers with every outcome of the random source, up to 1-2 retries; two or three diagrams '
               '(all events, selected events, activities) sharing cached colours, with 1-2 symbolic names each, the provider reset in between or not, colours cached beforehand'
               '; up to 24 colours in a row and diagrams of 14 names of which the last colours and two names are arbitrary')
BLACK = '#000000'


def setup(symbolic):
    drawsym.install()
    import ficus.legacy.pipelines.analysis.analysis_parts
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for n in range(1, 6 if t else 5):
        out.append({'name': 'provider-%d' % n, 'kind': 'provider', 'n': n, 'retries': 2 if n < 3 or t else 1})
    for n in range(1, 5 if t else 4):
        out.append({'name': 'single-%d' % n, 'kind': 'single', 'n': n, 'retries': 1 if n < 3 else 0})
    out.append({'name': 'provider-long', 'kind': 'provider', 'n': 24, 'retries': 1, 'given': 23, 'resets': [12]})
    out.append({'name': 'one-events-long', 'kind': 'diagrams', 'seq': [('events', 14)], 'retries': 1, 'given': 13})
    out.append({'name': 'one-acts-long', 'kind': 'diagrams', 'seq': [('acts', 14)], 'retries': 1, 'given': 13})
    out.append({'name': 'two-long', 'kind': 'diagrams', 'seq': [('events', 11), ('acts', 11)], 'reset': 1, 'retries': 1, 'given': 21})
    out.append({'name': 'four-long', 'kind': 'diagrams', 'seq': [('events', 4), ('acts', 2), ('select', 2), ('events', 3)], 'reset': 0, 'retries': 1, 'given': 11, 'cached': 2})
    out.append({'name': 'two-providers', 'kind': 'two', 'retries': 1})
    D = ('events', 'select', 'acts')
    for a in D:
        for m in (1, 2):
            out.append({'name': 'one-%s-%d' % (a, m), 'kind': 'diagrams', 'seq': [(a, m)], 'retries': 2 if m == 1 else 1})
            out.append({'name': 'cached-%s-%d' % (a, m), 'kind': 'diagrams', 'seq': [(a, m)], 'retries': 1, 'cached': 1})
        out.append({'name': 'cached2-' + a, 'kind': 'diagrams', 'seq': [(a, 1)], 'retries': 2, 'cached': 2})
        for b in D:
            for r in (0, 1):
                out.append({'name': 'two-%s-%s-%d' % (a, b, r), 'kind': 'diagrams', 'seq': [(a, 1), (b, 1)], 'reset': r, 'retries': 1})
                if t:
                    out.append({'name': 'two2-%s-%s-%d' % (a, b, r), 'kind': 'diagrams', 'seq': [(a, 2), (b, 1)], 'reset': r, 'retries': 1})
            if t:
                for c in D:
                    out.append({'name': 'three-%s-%s-%s' % (a, b, c), 'kind': 'diagrams', 'seq': [(a, 1), (b, 1), (c, 1)], 'reset': 1, 'retries': 1})
    return out


class Draws:
    """the first `given` colours are fixed and differ"""

    def __init__(self, ctx, budget, given=0):
        self.ctx, self.budget, self.n = ctx, budget, 0
        self.given, self.fixed = 3 * given, drawsym.counting()

    def __call__(self, lo, hi):
        self.n += 1
        if self.n <= self.given:
            return self.fixed(lo, hi)
        self.ctx.assume(self.n <= self.budget)
        return self.ctx.int('rnd%d' % self.n, lo, hi, default=lo + (self.n * 37) % (hi - lo + 1))


def harness(ctx, cfg):
    import warnings
    warnings.simplefilter('ignore')
    from ficus.legacy.util import random_unique_color_provider_instance as shared
    shared.reset()
    drawsym.begin()
    try:
        KINDS[cfg['kind']](ctx, cfg, shared)
    finally:
        shared.reset()


def fresh(ctx, c, used, what):
    ctx.check(isinstance(c, str) and len(c) == 7 and c[0] == '#', what + ': not a colour')
    ctx.check(ctx.not_(c == BLACK), what + ': the colour of unrecognized events is handed out')
    for u in used:
        ctx.check(ctx.not_(c == u), what + ': a colour is handed out twice')


def k_provider(ctx, cfg, shared):
    from ficus.legacy.util import RandomUniqueColorsProvider
    with drawsym.Random(Draws(ctx, 3 * (cfg['n'] + cfg['retries']), cfg.get('given', 0))):
        p = RandomUniqueColorsProvider()
        used = []
        for i in range(cfg['n']):
            if i and i in cfg.get('resets', range(cfg['n'])) and ctx.bool('reset%d' % i):
                p.reset()
                used = []
            c = p.next()
            fresh(ctx, c, used, 'provider')
            used.append(c)


def k_two(ctx, cfg, shared):
    """a provider of its own and the shared one do not influence each other"""
    from ficus.legacy.util import RandomUniqueColorsProvider
    with drawsym.Random(Draws(ctx, 3 * (4 + cfg['retries']))):
        p, q = RandomUniqueColorsProvider(), RandomUniqueColorsProvider()
        a, b = p.next(), q.next()
        p.reset()
        c, d = p.next(), q.next()
        fresh(ctx, c, [], 'provider')
        fresh(ctx, d, [b], 'provider')


def k_single(ctx, cfg, shared):
    from ficus.legacy.util import SingleColorProvider
    draws = Draws(ctx, 3 * cfg['retries'])
    with drawsym.Random(draws):
        used = []
        if ctx.bool('before'):
            draws.budget += 3
            used.append(shared.next())
        draws.budget += 3
        p = SingleColorProvider()
        cur = p.next()
        fresh(ctx, cur, used, 'single colour')
        used.append(cur)
        for i in range(cfg['n']):
            op = ctx.index('op%d' % i, 3)
            if op == 0:
                ctx.check(p.next() == cur, 'single colour: changed without a reset')
            elif op == 1:
                draws.budget += 3
                p.reset()
                cur = p.next()
                fresh(ctx, cur, used, 'single colour')
                used.append(cur)
            else:
                draws.budget += 3
                c = shared.next()
                fresh(ctx, c, used, 'shared provider')
                used.append(c)


def k_diagrams(ctx, cfg, shared):
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    from ficus.legacy.pipelines.analysis.analysis_parts import TracesDiversityDiagram, EventsPlacement
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawFullActivitiesDiagram
    from ficus.legacy.analysis.patterns.patterns_models import ActivityNode, ActivityInTraceInfo
    from ficus.legacy.pipelines.pipelines import Pipeline
    total = sum(m for _, m in cfg['seq'])
    names = [ctx.name('n%d' % i, 1) if i < 2 or i == total or not cfg.get('given') else ctx.const('abcdefghijklmnop'[i * 3 % 13]) for i in range(total + 1)]
    cl = ctx.classes(names)
    nm = {}
    for n, k in zip(names, cl):
        nm.setdefault(k, n)
    col = {}                                # class -> colour of its name
    inp = PipelinePartResult()
    with drawsym.Random(Draws(ctx, 3 * (total + cfg['retries']), cfg.get('given', 0))):
        if cfg.get('cached'):
            col[cl[total]] = '#0A0B0C'
            known = {names[total]: '#0A0B0C'}
            if cfg['cached'] == 2:
                # a name that is not drawn
                n = ctx.const('not drawn')
                cl.append(ctx.classes(names + [n])[-1])
                nm[cl[-1]] = n
                col[cl[-1]] = '#0C0B0A'
                known[n] = '#0C0B0A'
            inp = inp.with_cached_colors(known)
        i = 0
        for j, (kind, m) in enumerate(cfg['seq']):
            part_names, part_cl = names[i:i + m], cl[i:i + m]
            i += m
            events = [ctx.const('e%d' % k) for k in range(m)] if kind == 'acts' else part_names
            log = MyEventLog([MyTrace([MyEvent({CN: e}) for e in events])])
            inp.with_log(log)
            if kind == 'events':
                part = TracesDiversityDiagram(True)
                want = [('name', k) for k in part_cl]
            elif kind == 'select':
                part = EventsPlacement({part_names[0]}, True)
                want = [('name', k) if k == part_cl[0] else ('other', None) for k in part_cl]
            else:
                part = DrawFullActivitiesDiagram(plot_legend=True)
                nodes = {k: ActivityNode(nm[k], None, {k}, lambda e: e[CN], 0) for k in part_cl}
                inp.with_trace_activities([[ActivityInTraceInfo(nodes[k], q, 1) for q, k in enumerate(part_cl)]])
                want = [('name', k) for k in part_cl]
            drawsym.begin()
            if j and cfg.get('reset'):
                inp = Pipeline(part).execute(inp)      # executing a pipeline resets the shared provider
            else:
                inp = part.execute(inp)
            drawn = sorted(drawsym.STATE['figs'][0].axes[0].drawn, key=lambda r: r[0])
            ctx.check(len(drawn) == len(want), 'diagram: %d rectangles' % len(drawn))
            for r, (what, k) in zip(drawn, want):
                c = r[4]
                if what == 'other':
                    ctx.check(c == BLACK, 'diagram: events that were not chosen have another colour')
                elif k in col:
                    ctx.check(c == col[k], 'diagram: a name changed its colour')
                else:
                    fresh(ctx, c, list(col.values()), 'diagram')
                    col[k] = c
        # the cache knows exactly the colours of the names drawn so far
        cache = inp.__cached_colors__()
        ctx.check(len(cache) == len(col), 'cache: %d names for %d colours' % (len(cache), len(col)))
        for n, c in cache.items():
            k = [q for q in col if bool(nm[q] == n)]
            ctx.check(len(k) == 1 and bool(col[k[0]] == c), 'cache: another colour than drawn')


KINDS = {'provider': k_provider, 'single': k_single, 'two': k_two, 'diagrams': k_diagrams}
