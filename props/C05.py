"""Directly-follows graph and event counts."""
from .common import *

FAKE_S, FAKE_E = 'FAKE_START', 'FAKE_END'

ASSUMPTIONS = ['no event is itself called FAKE_START / FAKE_END',
               'names are printable ASCII; bounds per configuration in coverage.bounds']
BOUNDS_TEXT = ('all logs with up to 6 events in up to 3 traces (empty traces included), any equality pattern of names, '
               'ignored sets of 0-2 symbolic names; 2-letter alphabets up to 9 events, 3-letter up to 7; names of length 0-3; '
               'traces of 24-40 events and 12-trace logs with 2-3 symbolic events')


def setup(symbolic):
    import ficus.legacy.analysis.event_log_info


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    c = std_cfgs(tier, 5 + x, ign=None) + [tcfg('full6', ['SSSSSS'], ign=None), tcfg('full3x3', ['SSS', 'SSS'], ign=None)]
    for ign in (0, 1, 2):
        for d in std_cfgs(tier, {0: 3, 1: 5, 2: 4}[ign], extra=x, ab=((2, (7,)), (2, (4, 3))), longs=ign == 1, lens=ign == 1,
                          ign=ign):
            d = dict(d)
            d['name'] += '-ign%d' % ign
            c.append(d)
    for d in std_cfgs(tier, 4, extra=x, ab=(), longs=False, lens=False, ign=None, part='names'):
        d = dict(d)
        d['name'] += '-names'
        c.append(d)
    return c


def harness(ctx, cfg):
    from ficus.legacy.analysis import event_log_info as eli
    b = LogBuilder(ctx, cfg)
    snap = b.snapshot()
    if cfg.get('part') == 'names':
        return names_part(ctx, cfg, b, snap, eli)
    fake = ctx.bool('fake')
    ign = None
    igl = []
    if cfg['ign'] is not None:
        igl = [ctx.name('ig%d' % i, ranges=alpha(cfg['alpha']) if cfg.get('alpha') else ASCII) for i in range(cfg['ign'])]
        ign = set(igl)
        ign_len = len(ign)
    info = eli.create_log_information(b.log, ign, fake)
    cl, ic = b.classes(igl)
    nm = reps(b, cl)
    pairs, counts = {}, {}
    for t in cl:
        t = [x for x in t if x not in ic]
        for x in t:
            counts[x] = counts.get(x, 0) + 1
        seq = ([FAKE_S] if fake and t else []) + t + ([FAKE_E] if fake and t else [])
        for p in zip(seq, seq[1:]):
            pairs[p] = pairs.get(p, 0) + 1
    check_info(ctx, info.dfg, info.events_count, pairs, counts, nm)
    if ign is not None:
        ctx.check(len(ign) == ign_len, 'the ignored set was modified')
    elif not fake:
        dfg = eli.create_dfg(b.log)
        check_info(ctx, dfg, None, pairs, counts, nm)
    else:
        d2 = eli.create_log_information(b.log)
        check_info(ctx, d2.dfg, d2.events_count, pairs, counts, nm)
    b.check_untouched(snap)


def check_info(ctx, dfg, events_count, pairs, counts, nm):
    ids = Ids(nm, (FAKE_S, FAKE_E))
    got = {}
    for (f, s), v in dfg.pairs.items():
        got[(ids(f), ids(s))] = v
    ctx.check(len(got) == len(dfg.pairs), 'the graph has two entries for one pair')
    ctx.check(got == pairs, 'pair counts %r, expected %r' % (got, pairs))
    if events_count is not None:
        gc = {ids(k): v for k, v in events_count.items()}
        ctx.check(len(gc) == len(events_count) and gc == counts, 'event counts %r, expected %r' % (gc, counts))
    fol = {}
    for (f, s), v in pairs.items():
        fol.setdefault(f, {})[s] = v
    gf = {}
    for k, d in dfg.followed_events.items():
        gf[ids(k)] = {ids(x): v for x, v in d.items()}
    ctx.check(gf == fol, 'followers %r, expected %r' % (gf, fol))
    single = {k for k, d in fol.items() if len(d) == 1}
    gs = [ids(k) for k in dfg.events_with_single_follower]
    ctx.check(len(gs) == len(set(gs)) and set(gs) == single, 'single followers %r, expected %r' % (gs, single))


def names_part(ctx, cfg, b, snap, eli):
    """per-trace counts, total count, names on which a predicate always holds"""
    flags = [[ctx.bool('p%d_%d' % (i, j)) for j in range(len(t))] for i, t in enumerate(b.names)]
    for t, ft in zip(b.events, flags):
        for e, f in zip(t, ft):
            e['flag'] = f
    snap = b.snapshot()
    counts = eli.calculate_events_in_each_trace(b.log)
    hold = eli.find_all_events_names(b.log, lambda e: e['flag'])
    total = eli.calculate_events_count(b.log)
    visited = []
    eli.apply_to_all_events(b.log, visited.append)
    cl, _ = b.classes()
    ids = Ids(reps(b, cl))
    ctx.check(total == sum(map(len, cl)), 'total number of events')
    ctx.check(len(visited) == total and all(x is y for x, y in zip(visited, [e for t in b.events for e in t])),
              'apply_to_all_events must visit every event once in order')
    ctx.check(len(counts) == len(cl), 'one count record per trace')
    for c, t in zip(counts, cl):
        exp = {}
        for x in t:
            exp[x] = exp.get(x, 0) + 1
        got = {ids(k): v for k, v in c.counts.items()}
        ctx.check(len(got) == len(c.counts) and got == exp and c.overall_count == len(t),
                  'trace counts %r, expected %r' % (got, exp))
    exp = {x for t in cl for x in t} - {x for t, f in zip(cl, flags) for x, g in zip(t, f) if not g}
    got = [ids(x) for x in hold]
    ctx.check(len(got) == len(set(got)) and set(got) == exp, 'names satisfying the predicate %r, expected %r' % (got, exp))
    b.check_untouched(snap)


from symex.harness import ASCII  # noqa
