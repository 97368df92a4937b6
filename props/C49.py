"""Rust backend: replaying logs on Petri nets and annotating them."""
from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = COMMON + ['silent transitions take at least one token and only give tokens to later places, so that they cannot fire for ever']
BOUNDS_TEXT = ('Rust code: nets of up to 3 places and 3 transitions (arcs, also double ones, any names, also equal ones, up to one silent), up to 2 tokens at the start, all logs of up to 3 events in up to 2 traces with any names; '
               'thorough: 4 events and more arcs')
RUST = Driver('nets', fresh=True, prefixes=['features::discovery::petri_net'])


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(name, places, silent, shape, fixed=(), ab=3, most=1, tokens=2, kind='replay'):
        # fixed: arcs (place, transition, in/out) that are given; the others may or may not be there
        out.append({'name': '%s-%s' % (name, 'x'.join(map(str, shape))), 'places': places, 'silent': silent, 'shape': list(shape), 'fixed': [tuple(f) for f in fixed], 'ab': ab, 'most': most,
                    'tokens': tokens, 'kind': kind, 'seed': len(out) % 2})
    for s in ((), (0,), (1,), (2,), (1, 1), (0, 1)) + (((3,), (2, 1)) if t else ()):
        add('one', 1, [0], s, ab=None if sum(s) < 3 else 3, most=2)
    for s in ((1,), (2,), (1, 1)) + (((3,),) if t else ()):
        add('pair', 1, [0, 0], s, most=1 if not t else 2)
        add('two', 2, [0], s, most=2 if t else 1, tokens=2 if t else 1)
        add('double', 2, [0], s, ab=2, most=2, tokens=2, fixed=[(0, 0, 0, 2), (1, 0, 1, 2), (0, 0, 1, 0)])
    for s in ((1,), (2,)) + (((3,), (2, 1)) if t else ()):
        # a silent step from the first place on
        add('silent', 2, [0, 1], s, fixed=[(0, 1, 0, 1), (1, 1, 0, 0), (0, 1, 1, 0)], tokens=1)
        add('free', 2, [0, 0], s, ab=2, tokens=1, fixed=[(0, 0, 0, 1)] if t else [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 1, 0)])
    for s in ((2,), (3,), (2, 2)):
        # a choice between two ways of which only one goes on
        add('choice', 3, [0, 0, 0], s, ab=2, tokens=1, fixed=([] if t else [(0, 2, 1, 0), (1, 2, 0, 1), (2, 2, 0, 0)]) + [(0, 0, 0, 1), (0, 1, 0, 1), (0, 2, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (2, 0, 0, 0), (2, 1, 0, 0), (2, 2, 1, 0), (1, 2, 1, 0), (0, 0, 1, 0), (0, 1, 1, 0)])
        add('split', 3, [0, 1, 0], s, ab=2, tokens=1, fixed=([] if t else [(1, 2, 0, 1), (2, 2, 0, 1), (1, 1, 1, 1)]) + [(0, 0, 0, 1), (0, 1, 0, 1), (0, 2, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (2, 0, 0, 0), (2, 1, 0, 0), (2, 2, 1, 0), (0, 0, 1, 0), (0, 1, 1, 0), (0, 2, 1, 0)])
    for s in ((), (0,), (1,), (2,), (1, 1), (0, 2), (2, 1)):
        for k in (1, 2) if not t else (1, 2, 3):
            add('marking%d' % k, 1, [0] * k, s, ab=None if sum(s) + k < 4 else 3, fixed=[(0, i, d, 1 if d == i % 2 else 0) for i in range(k) for d in (0, 1)], tokens=0, kind='marking')
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, len(cfg['silent']), RUST)
    np, fixed = cfg['places'], {tuple(f[:3]): f[3] for f in cfg['fixed']}
    ts = []
    for i, s in enumerate(cfg['silent']):
        arcs = []
        for d in (0, 1):
            row = []
            for p in range(np):
                k = fixed[p, i, d] if (p, i, d) in fixed else ctx.index('arc%d_%d_%d' % (p, i, d), cfg['most'] + 1)
                row += [p] * k
            arcs.append(row)
        ts.append((s, arcs[0], arcs[1]))
    mode = ctx.index('mode', 3) if cfg['kind'] == 'replay' and cfg['shape'] and not any(cfg['silent']) and np == 1 and len(ts) == 1 else 1
    stop = 1 if mode == 2 else 0
    start = [ctx.index('tokens%d' % p, cfg['tokens'] + 1) for p in range(np)] if cfg['kind'] == 'replay' and np < 3 else [1, 0, 0][:np] if cfg['kind'] == 'replay' else [0] * np
    if mode == 0:
        start = [0] * np
    marked = [(p, k) for p, k in enumerate(start) if k]
    args = ([stop] if cfg['kind'] == 'replay' else []) + [np, len(ts)]
    for (s, ins, outs), m in zip(ts, g.more):
        args += [s, El(m), len(ins)] + ins + [len(outs)] + outs
    args += [len(marked)] + [x for m in marked for x in m] + words(g.ws)
    res = g.call(cfg['kind'], args)
    cl = g.classify()
    names = g.mc
    ps, ids, net = res[:3]
    ctx.check([g.events(t) for t in res[-1]] == g.numbered(), 'the log was changed')
    ctx.check(len(set(ps)) == np and len(set(ids)) == len(ts), 'ids of places and transitions')
    if cfg['kind'] == 'marking':
        marking(ctx, g, cl, names, ts, ps, ids, net)
        return
    same_net(ctx, g, names, ts, ps, ids, net, marked)
    steps = dict((i, (None if t[0] else n, t[1], t[2])) for i, t, n in zip(ids, ts, names))
    # a silent transition may also have the name of an event: then the event is not used up
    replays(ctx, cl, res[3], {i: (s, [ps[p] for p in a], [ps[p] for p in b]) for i, (s, a, b) in steps.items()}, {ps[p]: k for p, k in marked}, stop, net, 'replay of %r on %r %r' % (cl, steps, marked))


def same_net(ctx, g, names, ts, ps, ids, net, marked):
    places, got, first, last = net
    ctx.check({p for p, _ in places} == set(ps), 'places of the net')
    by = {t[0]: t for t in got}
    ctx.check(set(by) == set(ids) and len(got) == len(ids), 'transitions of the net')
    for i, n, (s, a, b) in zip(ids, names, ts):
        t = by[i]
        ctx.check(g.id(t[1]) == n and t[2] == s, 'name or kind of a transition')
        ctx.check([x[1] for x in t[3]] == [ps[p] for p in a] and [x[1] for x in t[4]] == [ps[p] for p in b], 'arcs of a transition')
    arcs = [x[0] for t in got for x in t[3] + t[4]]
    ctx.check(len(arcs) == len(set(arcs)), 'arcs share an id')
    ctx.check(last is None and first == ([(ps[p], k) for p, k in marked] or None), 'marking')


def fire(m, ins, outs):
    m = dict(m)
    for p in ins:
        if m.get(p, 0) < 1:
            return None
        m[p] -= 1
    for p in outs:
        m[p] = m.get(p, 0) + 1
    return {p: k for p, k in m.items() if k}


def possible(trace, steps, start):
    seen, todo = set(), [(0, start)]
    while todo:
        i, m = todo.pop()
        key = (i, tuple(sorted(m.items())))
        if key in seen:
            continue
        seen.add(key)
        if i == len(trace):
            return True
        for n, ins, outs in steps.values():
            if n is None or n == trace[i]:
                r = fire(m, ins, outs)
                if r is not None:
                    todo.append((i + (n is not None), r))
    return False


def replays(ctx, cl, res, steps, start, stop, net, what):
    """steps: id -> (name or None, places taken from, places given to)"""
    runs, counts, freqs, per = res
    if not start and cl:
        ctx.check(runs is None and counts is None and freqs is None and per is None, '%s without an initial marking: %r' % (what, res))
        return
    ctx.check(runs is not None and len(runs) == len(cl), '%s: %r' % (what, runs))
    fired = {}
    for t, r in zip(cl, runs):
        ctx.check((r is not None) == possible(t, steps, start), '%s: %r gives %r' % (what, t, r))
        if r is None:
            continue
        m, spelled = dict(start), []
        for i in r:
            n, ins, outs = steps[i]
            m = fire(m, ins, outs)
            ctx.check(m is not None, '%s: %r fires a transition that is not enabled' % (what, r))
            spelled += [] if n is None else [n]
            fired[i] = fired.get(i, 0) + 1
        ctx.check(spelled == t, '%s: %r spells %r instead of %r' % (what, r, spelled, t))
    if stop and any(r is None for r in runs):
        ctx.check(counts is None and freqs is None and per is None, '%s: annotated though a trace cannot be replayed' % what)
        return
    exp = {a[0]: fired[t[0]] for t in net[1] for a in t[3] + t[4] if t[0] in fired}
    ctx.check(counts is not None and freqs is not None and per is not None, '%s: no annotation' % what)
    ctx.check({k: int(v) for k, v in counts} == exp and len(counts) == len(exp), '%s: counts %r, expected %r' % (what, counts, exp))
    for got, over in ((freqs, sum(exp.values())), (per, len(cl))):
        ctx.check({k for k, _ in got} == set(exp) and all(abs(float(v) - exp[k] / over) < 1e-9 for k, v in got), '%s: frequencies %r' % (what, got))


def marking(ctx, g, cl, names, ts, ps, ids, net):
    places, got, first, last = net
    by = {t[0]: t for t in got}
    new = [p for p in places if p[0] not in ps]
    ctx.check(sorted(n for _, n in new) == ['End', 'Start'] and len(places) == len(ps) + 2, 'new places %r' % (new,))
    start, end = [next(p for p, n in new if n == x) for x in ('Start', 'End')]
    ctx.check(first == [(start, 1)], 'initial marking %r' % (first,))
    for k, (d, place, at) in enumerate(((3, start, 0), (4, end, -1))):
        seen = {t[at] for t in cl if t}
        hit = []
        for i, n, x in zip(ids, names, ts):
            arcs = [a[1] for a in by[i][d]]
            old = [ps[p] for p in x[1 + k]]
            ctx.check(arcs[:len(old)] == old and arcs[len(old):] in ([], [place]), 'arcs %r of a transition' % (arcs,))
            if arcs[len(old):]:
                hit.append(n)
        # with several transitions of one name, one of them
        ctx.check(sorted(hit) == sorted(seen & set(names)), 'transitions at %s: %r of %r' % (('the start', 'the end')[k], hit, cl))
