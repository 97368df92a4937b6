"""Rust backend: entropies of event classes."""
from .rustlog import *
from .C06 import definition as positional, close
from .C07 import definition as follows

ASSUMPTIONS = COMMON + ['entropies are compared up to 1e-9 (floating point); with a single non-empty trace the positional entropy is undefined and only agreement of both computations is required']
BOUNDS_TEXT = ('Rust code: all logs of up to 5 events in up to 3 traces (empty ones included) with any names, up to 8 events over 2-3 names in up to 4 traces, up to 2 ignored names that may or may not occur; '
               'thorough: 6 and 10 events')
RUST = driver('features::analysis::entropy', 'features::analysis::event_log_info')


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    return log_cfgs(6 if t else 5, 3, [(2, (7,)), (3, (6,)), (2, (4, 4)), (2, (2, 2, 2, 2)), (3, (3, 3)), (3, (2, 2, 3))] + ([(2, (10,)), (3, (8,)), (3, (4, 4)), (4, (3, 3)), (2, (3, 3, 3))] if t else []))


def harness(ctx, cfg):
    ignore = ctx.index('ignore', 2)
    g = Log(ctx, cfg, (2 if sum(cfg['shape']) <= 4 else 1) if ignore else 0, RUST)
    args = [ignore] + els(g.more) + words(g.ws)
    res = []
    for k in range(4):
        res.append((g.call('entropy', [k] + args), RUST.back))
    cl = g.classify()
    ign = set(g.mc) if ignore else set()
    pos, n = positional(cl, ign)
    want = [follows(cl, ign, False), follows(cl, ign, True), pos, pos]
    vals = []
    for (got, dump), back in res:
        RUST.back = back
        ctx.check([g.events(t) for t in dump] == g.numbered(), 'the log was changed')
        vals.append({g.id(k): float(v) for k, v in got})
        ctx.check(len(vals[-1]) == len(got), 'a class is reported twice')
    for what, got, w in zip(('default', 'laplace', 'positional', 'fast positional'), vals, want):
        ctx.check(set(got) == set(w), '%s entropy: classes %r, expected %r' % (what, sorted(got, key=str), sorted(w)))
        for c, v in w.items():
            if v is not None:
                ctx.check(close(got[c], v), '%s entropy of %r in %r without %r: %r, expected %r' % (what, c, cl, ign, got[c], v))
    for c, v in vals[2].items():
        x = vals[3][c]
        ctx.check(v == x or (v != v and x != x) or close(v, x), 'positional entropies of %r in %r differ: %r and %r' % (c, cl, v, x))
