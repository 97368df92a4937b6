"""Rust backend: abstraction of a log by activity instances and flattening."""
from .rustlog import *
from .trees import symbolic_instances

ASSUMPTIONS = COMMON + ['instances handed in are ordered, disjoint and inside their traces (decided by C40)']
BOUNDS_TEXT = ('Rust code: every set of up to 3 ordered disjoint instances of 2 activities in traces of up to 4 events (thorough 5), up to 2 instances in 2-3 trace logs, any names of events and activities (also equal ones), '
               'levels 1 and 2, all handling strategies, and a second abstraction of the abstracted log by up to 2 instances')
RUST = driver('features::analysis::patterns::activity_instances', 'utils::user_data')


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(shape, maxn, second=0, ab=None, strategies=(0, 1, 2)):
        for s in strategies:
            out.append({'name': '%s-%d-%d-%d' % ('x'.join(map(str, shape)), maxn, second, s), 'shape': list(shape), 'maxn': maxn, 'second': second, 'strategy': s, 'ab': ab, 'seed': len(out) % 2})
    for n in range(0, 4):
        add((n,), 3, ab='act' if n > 1 else None)
    add((2,), 1)
    add((4,), 3, ab='free')
    for s in ((1, 1), (2, 1), (0, 2), (2, 2), (1, 1, 1)):
        add(s, 2 if sum(s) < 4 or t else 1, ab='free')
    add((2,), 2, 1, ab='act')
    add((3,), 2, 1 if not t else 2, ab='free', strategies=(0, 1, 2) if t else (0, 2))
    add((2,), 1, 2, ab='free', strategies=(1, 2))
    add((2, 1), 1, 1, ab='free', strategies=(0, 1, 2) if t else (0, 2))
    if t:
        add((5,), 3, ab='free')
        add((3, 3), 2, ab='free')
        add((3,), 3)
        add((2, 2), 2, 1, ab='free')
        add((4,), 2, 1, ab='free')
    return out


def harness(ctx, cfg):
    # act: events have fixed names, activities any; free: the same with the choice of one name only
    free = cfg['ab'] is None
    total = sum(cfg['shape'])
    ws, k = [], 0
    for i, n in enumerate(cfg['shape']):
        ws.append([ctx.int('x%d_%d' % (i, j), 0, HI) if free else 1000 + k + j for j in range(n)])
        k += n
    if cfg['ab'] == 'free':
        # one more name than there are: equal to one of the others or not
        a = ctx.int('a0', 998, 1002)
        acts, undef = [a, 999], 998
    else:
        acts, undef = [ctx.int('a%d' % i, 0, HI) for i in range(2)], ctx.int('u', 0, HI)
    g = Log(ctx, dict(cfg, shape=[], ab=None), 0, RUST)
    g.ws, g.more = ws, acts + [undef]
    g.vals = [x for w in ws for x in w] + g.more
    level = 1 + ctx.index('level', 2)
    inst = symbolic_instances(ctx, cfg['shape'], acts, cfg['maxn'])
    s = cfg['strategy']
    args = [s, level, El(undef)] + words(ws) + node_args(acts) + inst_args(inst)
    if not cfg['second']:
        res = g.call('abstract', args + [0])
    else:
        # the shape of the abstracted log follows from the instances
        lens = [sum(1 if s == 1 else (n if s == 2 else 0) for n in gaps(k, t)) + len(t) for k, t in zip(cfg['shape'], inst)]
        second = symbolic_instances(ctx, lens, acts, cfg['second'], tag='j')
        res = g.call('abstract', args + [1] + node_args(acts) + inst_args(second))
    g.classify()
    names, un = g.mc[:2], g.mc[2]
    log = [[(c, i, None) for c, i in t] for t in g.numbered()]
    a = abstract(log, inst, names, un, s)
    same(ctx, g, res[0], a, 'abstracted log')
    flats(ctx, g, res[1], a)
    ctx.check(res[2] == sum(len(leaves(e)) for t in a for e in t), 'number of underlying events: %r' % (res[2],))
    logs(ctx, g, res[3], of_log(a), 'logs of the activities of the abstracted log')
    exp = {}
    for t, ins in zip(log, inst):
        for n, st, ln in ins:
            if 1 + n == level:
                exp.setdefault(names[n], []).append(t[st:st + ln])
    logs(ctx, g, res[4], exp, 'logs of the activities of level %d' % level)
    same(ctx, g, res[5], [[e for i, e in enumerate(t) if not any(st <= i < st + ln for _, st, ln in ins)] for t, ins in zip(log, inst)], 'log of the unattached events')
    if cfg['second']:
        b = abstract(a, second, names, un, s)
        same(ctx, g, res[6], b, 'log abstracted twice')
        flats(ctx, g, res[7], b)
        ctx.check(res[8] == sum(len(leaves(e)) for t in b for e in t), 'number of underlying events of the log abstracted twice: %r' % (res[8],))
        logs(ctx, g, res[9], of_log(b), 'logs of the activities of the log abstracted twice')
        flats(ctx, g, res[10], b)
    same(ctx, g, res[-1], log, 'the given log')


def node_args(acts):
    return [len(acts)] + [y for i, x in enumerate(acts) for y in (El(x), 1 + i)]


def inst_args(inst):
    return [len(inst)] + [y for t in inst for y in [len(t)] + [z for i in t for z in i]]


def gaps(n, ins):
    out, pos = [], 0
    for _, s, l in ins:
        if s > pos:
            out.append(s - pos)
        pos = s + l
    return out + ([n - pos] if pos < n else [])


def abstract(log, inst, names, undef, strategy):
    out = []
    for t, ins in zip(log, inst):
        new, pos = [], 0
        for n, s, l in list(ins) + [(None, len(t), 0)]:
            if s > pos and strategy == 1:
                new.append((undef, 0, None))
            elif s > pos and strategy == 2:
                new += t[pos:s]
            if n is not None:
                new.append((names[n], 0, t[s:s + l]))
            pos = s + l
        out.append(new)
    return out


def leaves(e):
    return [e] if e[2] is None else [y for x in e[2] for y in leaves(x)]


def of_log(a):
    out = {}
    for t in a:
        for e in t:
            if e[2] is not None:
                out.setdefault(e[0], []).append(leaves(e))
    return out


def shown(xs):
    return [(e[0], e[1]) for e in xs]


def real(g, xs):
    return [(g.id(a), b if b < 100 else 0) for a, b in xs]


def same(ctx, g, got, exp, what):
    got, exp = [real(g, t) for t in got], [shown(t) for t in exp]
    ctx.check(got == exp, '%s: %r, expected %r' % (what, got, exp))


def flats(ctx, g, got, exp):
    ctx.check([len(t) for t in got] == [len(t) for t in exp], 'number of events')
    for t, e in zip(got, exp):
        for (flat, vec, imm), x in zip(t, e):
            l = shown(leaves(x))
            ctx.check(real(g, flat) == l and real(g, vec) == l, 'events below %r: %r and %r' % (x, flat, vec))
            ctx.check(real(g, imm) == shown([x] if x[2] is None else x[2]), 'events right below %r: %r' % (x, imm))


def logs(ctx, g, got, exp, what):
    ids = [g.id(k) for k, _ in got]
    ctx.check(len(ids) == len(set(ids)) and set(ids) == set(exp), '%s: %r, expected %r' % (what, ids, sorted(exp)))
    for k, (_, l) in zip(ids, got):
        same(ctx, g, l, exp[k], what)
