"""Pipeline composition: order, inputs, conditions, copies, temporary inputs."""
from .common import *
import itertools

ASSUMPTIONS = ['parts are recording parts that either update the context they got or return a new one; conditions read a symbolic integer of the context']
BOUNDS_TEXT = ('pipelines of up to 3 top-level parts of 9 kinds (updating part, replacing part, missing part, conditional, parallel, copied input, '
               'temporary input, before/after printing, per-activity execution), inner pipelines of up to 2 parts, nested twice for single top-level parts; '
               'every condition outcome (thresholds symbolic); failing parts at every position; parts whose result nobody uses return anything; appends, inserts and removals at every index; every pipeline run twice')

KINDS = ('U', 'R', 'N', 'If', 'Par', 'Cpy', 'Tmp', 'Prt', 'Act')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.high_level
    import ficus.legacy.pipelines.analysis.analysis_parts


def configs(tier):
    t = tier == 'thorough'
    out = [{'name': 'empty', 'top': []}]
    for n in (1, 2):
        for c in itertools.product(KINDS, repeat=n):
            out.append({'name': '-'.join(c), 'top': list(c)})
    for c in itertools.product(('U', 'R', 'If', 'Par', 'Cpy', 'Tmp'), repeat=3):
        if t or sum(k not in 'UR' for k in c) == 2:
            out.append({'name': '-'.join(c), 'top': list(c), 'inner': 1})
    for a in KINDS[3:]:
        for b in KINDS[3:]:
            out.append({'name': 'nest-%s-%s' % (a, b), 'top': ['U', a, 'U'], 'nest': b})
    if t:
        for a, b, c in itertools.product(KINDS[3:], repeat=3):
            out.append({'name': 'nest3-%s-%s-%s' % (a, b, c), 'top': [a, 'U'], 'nest': b, 'nest2': c})
    for top in (['Cpy'], ['U', 'Cpy', 'U'], ['Act', 'U'], ['Par'], ['If']):
        out.append({'name': 'opaque-' + '-'.join(top), 'top': top, 'inner': 1, 'opaque': 1, 'nest': 'Cpy' if top == ['If'] else None})
    for n in range(0, 4):
        out.append({'name': 'edit%d' % n, 'edit': n})
    for n in range(1, 4):
        out.append({'name': 'fail%d' % n, 'fail': n})
    out.append({'name': 'types', 'types': 1})
    out.append({'name': 'values', 'values': 2})
    out.append({'name': 'truth', 'truth': 2})
    return out


class World:
    """creates parts and the program that describes them"""

    def __init__(self, ctx):
        from ficus.legacy.pipelines import pipelines as P
        from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
        self.ctx, self.P, self.R = ctx, P, PipelinePartResult
        self.calls = []
        self.n = 0
        self.alive = []

    def part(self, kind):
        w, P, R = self, self.P, self.R
        pid = self.n
        self.n += 1
        from ficus.legacy.log.event_log import MyEventLog

        class Rec(P.InternalPipelinePart):
            def execute(self, current_input):
                w.alive.append(current_input)
                w.calls.append((pid, id(current_input), tuple(current_input.values.get('v', ()))))
                if kind == 'O':
                    return (None, 5, [], current_input.values)[pid % 4]
                if kind == 'U':
                    return current_input.with_custom_data('v', current_input.values.get('v', ()) + (pid,))
                r = R().with_custom_data('v', current_input.values.get('v', ()) + (pid,)).with_log(MyEventLog())
                for k in ('x', 'activities_logs'):
                    if current_input.has_value(k):
                        r.with_custom_data(k, current_input.values[k])
                return r
        return Rec(), (kind, pid)

    def cond(self):
        k = self.n
        self.n += 1
        t = self.ctx.int('t%d' % k, -3, 3)

        def f(c):
            self.alive.append(c)
            self.calls.append(('cond', k, id(c)))
            return c.values['x'] < t
        return f, (k, t)

    def pipe(self, tag, depth, cfg, ignored=False):
        """an inner pipeline and its program"""
        mx = cfg.get('inner', 2)
        nest = [cfg.get('nest'), cfg.get('nest2')]
        progs, parts = [], []
        if depth < len(nest) and nest[depth]:
            a, pa = self.build(nest[depth], tag + 'n', depth + 1, cfg)
            u, pu = self.part('U')
            return self.P.Pipeline(a, u), [pa, pu]
        ln = self.ctx.index(tag + 'len', mx + 1)
        for i in range(ln):
            p, g = self.build(('U', 'R')[self.ctx.index('%sk%d' % (tag, i), 2)], tag + str(i), depth, cfg)
            parts.append(p)
            progs.append(g)
        if ignored and cfg.get('opaque'):
            # a last part whose result nobody uses may return anything
            for _ in range(self.ctx.index(tag + 'pad', 4)):
                self.n += 1
            p, g = self.part('O')
            parts.append(p)
            progs.append(g)
        return self.P.Pipeline(*parts), progs

    def build(self, kind, tag, depth, cfg):
        P = self.P
        if kind in ('U', 'R'):
            return self.part(kind)
        if kind == 'N':
            return None, ('N',)
        if kind == 'Par':
            k = self.ctx.index(tag + 'width', 2) + 1
            ps = [self.pipe('%s_%d_' % (tag, i), depth, cfg, i < k - 1) for i in range(k)]
            return P.ParallelPipeline(*[p for p, _ in ps]), ('Par', [g for _, g in ps])
        pipe, prog = self.pipe(tag, depth, cfg, kind in ('Cpy', 'Act'))
        if kind == 'If':
            f, t = self.cond()
            return P.IfPipeline(f, pipe), ('If', t, prog)
        if kind == 'Cpy':
            return P.WithInputCopy(pipe), ('Cpy', prog)
        if kind == 'Prt':
            from ficus.legacy.pipelines.analysis.analysis_parts import PrintEventLogInfoBeforeAndAfter
            return PrintEventLogInfoBeforeAndAfter('op', pipe), ('Prt', prog)
        if kind == 'Act':
            from ficus.legacy.pipelines.analysis.high_level import ExecuteWithEachActivityLog
            return ExecuteWithEachActivityLog(pipe), ('Act', prog)
        k = self.n
        self.n += 1

        def tr(c):
            self.alive.append(c)
            self.calls.append(('tr', k, id(c)))
            r = self.R().with_custom_data('v', c.values['v'] + (('tmp', k),)).with_custom_data('x', c.values['x'])
            return r.with_log(c.values['log']).with_custom_data('activities_logs', c.values['activities_logs'])

        def mg(a, b):
            self.calls.append(('mg', k, id(a), a.values['v'], b.values['v']))
            return a.with_custom_data('v', a.values['v'] + (('mg', k, b.values['v']),))
        return P.WithTempInput(tr, mg, pipe), ('Tmp', k, prog)


class Model:
    """reference interpreter on its own objects: {'v':..., 'x':...}"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []

    def run(self, prog, c):
        for p in prog:
            c = self.one(p, c)
        return c

    def one(self, p, c):
        k = p[0]
        if k == 'N':
            return c
        if k in ('U', 'R', 'O'):
            self.calls.append((p[1], id(c), c['v']))
            if k == 'O':
                return None
            if k == 'U':
                c['v'] = c['v'] + (p[1],)
                return c
            return self.keep(dict(c, v=c['v'] + (p[1],)))
        if k == 'If':
            n, t = p[1]
            self.calls.append(('cond', n, id(c)))
            if c['x'] is not None and bool(c['x'] < t):
                return self.run(p[2], c)
            return c
        if k == 'Par':
            last = None
            for q in p[1]:
                last = self.run(q, self.keep(dict(c)))
            return last
        if k == 'Cpy':
            self.run(p[1], self.keep(dict(c)))
            return c
        if k == 'Prt':
            return self.run(p[1], c)
        if k == 'Act':
            for a in c['acts']:
                self.run(p[1], self.keep({'v': (), 'x': None, 'acts': (), 'name': a}))
            return c
        if k == 'Tmp':
            n = p[1]
            self.calls.append(('tr', n, id(c)))
            t = self.run(p[2], self.keep(dict(c, v=c['v'] + (('tmp', n),))))
            self.calls.append(('mg', n, id(c), c['v'], t['v']))
            c['v'] = c['v'] + (('mg', n, t['v']),)
            return c
        raise AssertionError(k)

    def keep(self, c):
        self.__dict__.setdefault('alive', []).append(c)
        return c


def canon(calls):
    """object identities by order of first appearance"""
    ids, out = {}, []
    for c in calls:
        if c[0] in ('cond', 'tr'):
            out.append((c[0], c[1], ids.setdefault(c[2], len(ids))))
        elif c[0] == 'mg':
            out.append((c[0], c[1], ids.setdefault(c[2], len(ids)), c[3], c[4]))
        else:
            out.append((c[0], ids.setdefault(c[1], len(ids)), c[2]))
    return out, ids


def harness(ctx, cfg):
    from ficus.legacy.pipelines import pipelines as P
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    from ficus.legacy.log.event_log import MyEventLog
    if 'types' in cfg:
        return types(ctx, P, PipelinePartResult)
    if 'values' in cfg:
        return values(ctx, P)
    if 'truth' in cfg:
        return truth(ctx, P)
    w = World(ctx)
    if 'fail' in cfg:
        return fail(ctx, cfg, w, P, PipelinePartResult)
    if 'edit' in cfg:
        return edit(ctx, cfg, w, P, PipelinePartResult)
    parts, prog = [], []
    for i, k in enumerate(cfg['top']):
        p, g = w.build(k, 'p%d' % i, 0, cfg)
        parts.append(p)
        prog.append(g)
    pipe = P.Pipeline(*parts)
    x = ctx.int('x', -3, 3)
    for rnd in range(2):
        w.calls.clear()
        inp = PipelinePartResult().with_custom_data('v', ()).with_custom_data('x', x).with_log(MyEventLog())
        acts = ('A', 'B')
        inp.with_activities_logs({a: MyEventLog() for a in acts})
        m = Model(ctx)
        c0 = {'v': (), 'x': x, 'acts': acts}
        if uses_missing(prog, False):
            return
        want = m.run(prog, c0)
        got = pipe(inp) if rnd else pipe.execute(inp)
        cg, _ = canon(w.calls)
        cw, _ = canon(m.calls)
        ctx.check([c[0] for c in cg] == [c[0] for c in cw], 'parts were run other times or in another order: %s instead of %s' % ([c[:2] for c in cg], [c[:2] for c in cw]))
        ctx.check(cg == cw, 'a part was run on another input than the composition prescribes')
        ctx.check((want is None) == (got is None), 'wrong result')
        if want is not None:
            ctx.check(got.values['v'] == want['v'], 'the result of the pipeline is not the one of its last part')
            ctx.check((got is inp) == (want is c0), 'the pipeline returns another context object than its last part')
        ctx.check(inp.values['v'] == c0['v'], 'the input context was changed by parts that run on a copy, or not changed by parts that run on it')


def uses_missing(prog, inside):
    """conditions and temporary inputs below a per-activity execution need values its fresh context does not have"""
    for p in prog:
        k = p[0]
        if inside and k in ('If', 'Tmp', 'Act'):
            return True
        if k == 'Par':
            if any(uses_missing(q, inside) for q in p[1]):
                return True
        elif k in ('If', 'Tmp'):
            if uses_missing(p[2], inside):
                return True
        elif k in ('Cpy', 'Prt'):
            if uses_missing(p[1], inside):
                return True
        elif k == 'Act':
            if uses_missing(p[1], True):
                return True
    return False


def fail(ctx, cfg, w, P, R):
    """an error of a part ends the run and reaches the caller"""
    n = cfg['fail']
    k = ctx.index('at', n)

    class Boom(Exception):
        pass

    class Bad(P.InternalPipelinePart):
        def execute(self, current_input):
            raise Boom()
    parts = []
    for i in range(n):
        parts.append(Bad() if i == k else w.part('U')[0])
    wrap = ctx.index('wrap', 4)
    pipe = P.Pipeline(*parts)
    if wrap == 1:
        pipe = P.Pipeline(P.IfPipeline(lambda c: True, pipe))
    elif wrap == 2:
        pipe = P.Pipeline(P.WithInputCopy(pipe))
    elif wrap == 3:
        pipe = P.Pipeline(P.ParallelPipeline(pipe))
    try:
        pipe(R().with_custom_data('v', ()))
    except Boom:
        pass
    else:
        ctx.fail('the error of a part was swallowed')
    ctx.check(len(w.calls) == k, 'parts were run after a failing part')


def edit(ctx, cfg, w, P, R):
    n = cfg['edit']
    made = [w.part('U') for _ in range(n)]
    pipe = P.Pipeline(*[p for p, _ in made])
    order = [g[1] for _, g in made]
    for s in range(2):
        k = ctx.index('op%d' % s, 3)
        if k == 0:
            p, g = w.part('U')
            pipe.append(p)
            order.append(g[1])
        elif k == 1:
            p, g = w.part('U')
            i = ctx.index('i%d_%d' % (s, len(order)), len(order) + 1)
            pipe.insert(i, p)
            order.insert(i, g[1])
        elif order:
            i = ctx.index('d%d_%d' % (s, len(order)), len(order))
            pipe.remove(i)
            del order[i]
    r = pipe(R().with_custom_data('v', ()))
    ctx.check(r.values['v'] == tuple(order), 'after editing the pipeline its parts run in another order')


VALUES = (None, 0, [], '', False, 'x', [0], 7)


class Answer:
    def __init__(self, part, value, seen):
        class A(part):
            def execute(self, current_input):
                seen.append(current_input)
                return value
        self.part = A()


def values(ctx, P):
    """whatever a part returns is what the next one gets"""
    seen = []
    first, second = VALUES[ctx.index('first', len(VALUES))], VALUES[ctx.index('second', len(VALUES))]
    start = object()
    where = ctx.index('where', 4)
    a, b = Answer(P.InternalPipelinePart, first, seen).part, Answer(P.InternalPipelinePart, second, seen).part
    if where == 1:
        b = P.IfPipeline(lambda c: True, P.Pipeline(b))
    elif where == 2:
        b = P.WithTempInput(lambda c: c, lambda c, d: d, P.Pipeline(b))
    elif where == 3:
        b = P.ParallelPipeline(P.Pipeline(b))
        start, first = 'start', first
    r = P.Pipeline(a, b)(start)
    ctx.check(len(seen) == 2 and seen[0] is start, 'input of the first part')
    ctx.check(type(seen[1]) is type(first) and seen[1] == first, 'the second part does not get what the first one returned')
    ctx.check(type(r) is type(second) and r == second, 'the result is not what the last part returned')


def truth(ctx, P):
    """a condition may answer with any value"""
    v = (VALUES + (True, 0.0, 2.5, {}, {1: 1}))[ctx.index('answer', len(VALUES) + 5)]
    seen = []
    start = [1]
    r = P.Pipeline(P.IfPipeline(lambda c: v, P.Pipeline(Answer(P.InternalPipelinePart, 'done', seen).part)))(start)
    ctx.check(len(seen) == (1 if v else 0), 'the branch of a condition that answers %r' % (v,))
    ctx.check(r == 'done' if v else r is start, 'result of a condition that answers %r' % (v,))


def types(ctx, P, R):
    class Part(P.InternalPipelinePart):
        def execute(self, current_input):
            return current_input
    bads = [1, 'x', object(), [Part()], lambda c: c]
    bad = bads[ctx.index('bad', len(bads))]
    pos = ctx.index('pos', 3)
    args = [Part(), Part()]
    args.insert(pos, bad)
    try:
        P.Pipeline(*args)
    except TypeError:
        pass
    else:
        ctx.fail('something that is not a part was accepted')
    ctx.check(P.Pipeline()(None) is None and P.Pipeline()() is None, 'an empty pipeline must return its input')
    v = R()
    ctx.check(P.Pipeline().execute(v) is v and P.Pipeline(None, None)(v) is v, 'an empty pipeline must return its input')
    ctx.check(Part()(v) is v, 'calling a part must execute it')
    from ficus.legacy.pipelines.start.start_parts import UseExistingLog, EmptyStartPart
    from ficus.legacy.log.event_log import MyEventLog
    log = MyEventLog()
    r = P.Pipeline(UseExistingLog())(log)
    ctx.check(r.values == {'log': log} and r.values['log'] is log, 'the start part must put the given log into the context')
    for wrong in (None, 'log', [log], R()):
        try:
            UseExistingLog().execute(wrong)
        except (ValueError, TypeError):
            pass
        else:
            ctx.fail('the start part accepted something that is not a log')
    ctx.check(P.ParallelPipeline().execute(v) is None, 'no parallel pipeline, no output')
    ctx.check(P.Pipeline(EmptyStartPart())(log).values == {}, 'the empty start part must start with an empty context')
