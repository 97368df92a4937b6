"""Rust backend: editing histories of a log."""
from .rustlog import *

ASSUMPTIONS = COMMON + ['events are changed through the log and its traces, as the backend does']
BOUNDS_TEXT = ('Rust code: every history of up to 2 edits (thorough 3) out of removing by name and by names, renaming, adding artificial events, dropping traces, pushing an event or a trace, copying, on logs of up to 3 events in up to 3 '
               'traces with any names, with counts and positions of names looked up before, between and after the edits; chosen histories of 3-5 edits')
RUST = driver('features::mutations')
OPS = ('name', 'names', 'rename', 'artificial', 'traces', 'push', 'trace', 'clone')
FIXED = [('rename', 'name', 'artificial', 'push'), ('clone', 'rename', 'clone', 'names'), ('artificial', 'rename', 'artificial'), ('trace', 'traces', 'name', 'push'),
         ('names', 'push', 'trace', 'clone', 'rename'), ('push', 'clone', 'push', 'name'), ('artificial', 'clone', 'traces', 'rename')]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(shape, ops, ab=None, touch=True):
        out.append({'name': '%s-%s%s' % ('x'.join(map(str, shape)), '-'.join(x or 'any' for x in ops), '' if ab is None else '-ab%d' % ab), 'shape': list(shape), 'ops': ops, 'ab': ab,
                    'seed': len(out) % 2, 'touch': touch})
    for s in shapes(3, 3):
        add(s, [None], ab=None if t or sum(s) < 3 else 2)
    for s in ((4,), (2, 2), (1, 2, 1)):
        add(s, [None], ab=3 if t else 2)
    for s in ((2,), (1, 1), (0, 2)):
        for o in OPS:
            add(s, [o, None])
    for i, s in enumerate(((3,), (2, 1)) + (((2, 2), (1, 1, 1)) if t else ())):
        for o in OPS if t else OPS[i::2]:
            add(s, [o, None], ab=2)
    for f in FIXED:
        add((2, 1), list(f), ab=2)
        add((2,), list(f), touch=False)
        if t:
            add((2, 2), list(f), ab=3)
    if t:
        for o in OPS:
            for p in OPS:
                add((2,), [o, p, None], ab=2)
    return out


def harness(ctx, cfg):
    g = Log(ctx, cfg, 2, RUST)
    touch = cfg['touch']
    args, ops, n = [], [], sum(cfg['shape'])
    a, b = g.more[:2]
    for i, o in enumerate(cfg['ops']):
        o = o or ctx.choose('op%d' % i, OPS)
        p = ()
        if o == 'name':
            args += [o, El(a)]
        elif o == 'names':
            args += [o] + els([a, b])
        elif o == 'rename':
            args += [o, El(b)] + els([a])
        elif o == 'artificial':
            p = ctx.choose('art%d' % i, ((1, 1), (1, 0), (0, 1), (0, 0)))
            args += [o] + list(p)
        elif o == 'traces':
            p = (ctx.index('min%d' % i, 3), ctx.index('drop%d' % i, len(cfg['shape']) + 1))
            args += [o] + list(p)
        elif o == 'push':
            p = (ctx.index('at%d' % i, max(1, len(cfg['shape']))),)
            args += [o, p[0], El(a)]
        elif o == 'trace':
            args += [o] + els([a, b, a])
        else:
            args += [o]
        ops.append((o, p))
        if touch:
            args.append('touch')
    classes = [x for w in g.ws for x in w] + g.more
    now, old = g.call('history', words(g.ws) + els(classes) + [len(ops) * (2 if touch else 1) + (1 if touch else 0)] + (['touch'] if touch else []) + args)
    g.classify()
    log, k, olds = g.numbered(), n, []
    a, b = g.mc[:2]
    for o, p in ops:
        if o in ('name', 'names'):
            drop = {a} if o == 'name' else {a, b}
            log = [[e for e in t if e[0] not in drop] for t in log]
            log = [t for t in log if t]
        elif o == 'rename':
            log = [[(b if c == a else c, i) for c, i in t] for t in log]
        elif o == 'artificial':
            log = [([('ARTIFICIAL_START', 'first')] if p[0] else []) + t + ([('ARTIFICIAL_END', 'last')] if p[1] else []) for t in log]
        elif o == 'traces':
            log = [t for i, t in enumerate(log) if len(t) >= p[0] and i != p[1]]
        elif o == 'push':
            k += 1
            if p[0] < len(log):
                log = [t + [(a, k)] if i == p[0] else t for i, t in enumerate(log)]
        elif o == 'trace':
            log = log + [[(a, k + 1), (b, k + 2), (a, k + 3)]]
            k += 3
        else:
            olds.append(log)
    what = 'after %r' % (ops,)
    compare(ctx, g, now, log, what)
    ctx.check(len(old) == len(olds), 'copies')
    for x, y in zip(old, olds):
        compare(ctx, g, x, y, 'the copied log ' + what)


def when(i):
    return 'first' if i == 0 else 'last' if i > 10 ** 9 else i


def compare(ctx, g, got, exp, what):
    dump, per, raw, hashes, count = got
    have = [[(c, when(i)) for c, i in g.events(t)] for t in dump]
    ctx.check(have == exp, '%s: %r, expected %r' % (what, have, exp))
    cl = [[c for c, _ in t] for t in exp]
    ctx.check([[g.id(x) for x in t] for t in raw] == cl, '%s: names %r' % (what, raw))
    ctx.check(count == sum(map(len, cl)), '%s: number of events' % what)
    flat, h = [c for t in cl for c in t], [x for t in hashes for x in t]
    ctx.check([len(t) for t in hashes] == [len(t) for t in cl] and len(set(zip(flat, h))) == len(set(flat)) == len(set(h)), '%s: classes of names' % what)
    for t, (names, size, counts, pos) in zip(cl, per):
        ctx.check([g.id(x) for x in names] == t, '%s: names of a trace' % what)
        ctx.check(size == len(t), '%s: number of events of %r: %r' % (what, t, size))
        counts = [(g.id(a), b) for a, b in counts]
        ctx.check(sorted(counts, key=str) == sorted(((c, t.count(c)) for c in set(t)), key=str), '%s: counts of %r: %r' % (what, t, counts))
        for c, p in zip(g.cls, pos):
            ctx.check((p or []) == [i for i, x in enumerate(t) if x == c], '%s: positions of %r in %r: %r' % (what, c, t, p))
