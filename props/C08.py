"""Entropy filters: whole classes, limits, untouchable classes, order of removal, termination."""
from .common import *
from . import C06, C07

EPS = 1e-9
ANY = 'any'
ASSUMPTIONS = ['classes whose entropies differ by less than 1e-9 may be removed in any order (floating point; an entropy of zero is compared exactly); positional entropy of a single non-empty trace is undefined: '
               'once a step meets it, only whole classes, limits and untouchable classes are required']
BOUNDS_TEXT = ('all logs of up to 4 events in up to 3 traces with any names, up to 6 events over three names, partly fixed logs of 24 classes and of 7 traces; symbolic '
               'threshold (any real), limit 0..4, untouchable classes decided by the solver per class, shares 0.05, 0.34, 0.5 and 1; direct, indirect and till-end '
               'filters on positional, default and Laplace entropies')

KINDS = ('pos-direct', 'pos-indirect', 'def-direct', 'lap-direct', 'def-indirect', 'lap-indirect')


def setup(symbolic):
    import ficus.legacy.pipelines.filtering.filter_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    base = [tcfg(n, tr, **kw) for n, tr, kw in (
        [('empty', [], {}), ('e0', [''], {}), ('s1', ['S'], {}), ('s2', ['SS'], {}), ('s1x1', ['S', 'S'], {}), ('s0x2', ['', 'SS'], {}), ('s2x1', ['SS', 'S'], {}),
         ('s3', ['SSS'], {}), ('s2x2', ['SS', 'SS'], {}), ('s1x1x1', ['S', 'S', 'S'], {}), ('ab2-3x2', ['SSS', 'SS'], {'alpha': 2}),
         ('p3', ['abcS', 'bSa', 'cab'], {'alpha': 4, 'few': 1}), ('p7', ['ab', 'aSb', 'cab', 'bd', 'acd', 'bb', 'dS'], {'alpha': 4, 'few': 1})]
        + ([('s2x2x1', ['SS', 'SS', 'S'], {}), ('ab3-3x3', ['SSS', 'SSS'], {'alpha': 3}), ('s4', ['SSSS'], {})] if t else []))]
    for c in base:
        for k in KINDS:
            for tops in ([None] if 'indirect' not in k or k[:3] == 'pos' else [0.05, 0.5, 1.0] if t or c['name'] in ('s2x2', 'p3', 'ab2-3x2', 's2') else [0.34, 1.0]):
                d = dict(c, kind=k, name='%s-%s%s' % (c['name'], k, '' if tops is None else '-%g' % tops))
                if tops is not None:
                    d['top'] = tops
                out.append(d)
        for k in ('te-direct', 'te-indirect'):
            out.append(dict(c, kind=k, name='%s-%s' % (c['name'], k)))
    for n, tr in (('s2x2', ['SS', 'SS']), ('long', ['abcSadbebfbg', 'cabdfg', 'aabcdfeg'])):
        out.append(tcfg(n + '-defaults', tr, kind='defaults', **({'few': 1, 'alpha': 2} if n == 'long' else {})))
    for k in ('def-indirect', 'def-direct'):
        out.append(tcfg('wide-%s' % k, ['abcdefghijklmnopqrstuvwx', 'bdacS'], kind=k, top=0.05, alpha=3, few=1))
    return out


def entropies(kind, cl):
    if kind.startswith('pos') or kind.startswith('te'):
        return C06.definition(cl, ())[0]
    return C07.definition(cl, (), kind.startswith('lap'))


def without(cl, c):
    r = [[x for x in t if x != c] for t in cl]
    return [t for t in r if t]


def steps(kind, cl, unt, top):
    """(value compared with the threshold, classes that may be removed next); None: undefined"""
    e = entropies(kind, cl)
    if any(v is None for v in e.values()):
        return ANY, []
    free = [c for c in e if c not in unt]
    if 'direct' in kind and 'indirect' not in kind:
        if not free:
            return None, []
        m = max(e[c] for c in free)
        return m, [c for c in free if e[c] >= m - EPS]
    if kind.startswith('pos') or kind.startswith('te'):
        val = sum(e.values())

        def after(c):
            x = C06.definition(without(cl, c), ())[0]
            return None if any(v is None for v in x.values()) else sum(x.values())
        r = {c: after(c) for c in free}
        if any(v is None for v in r.values()) :
            return val, [ANY] + list(r)
        sure = r
    else:
        val = sum(e.values()) / len(e) if e else 0

        def after(c):
            x = entropies(kind, without(cl, c))
            return sum(x.values()) / len(x) if x else 0
        n = int(len(e) * top)
        if n == 0:
            return val, []
        s = sorted(e.values())
        cut = s[len(s) - n]
        maybe = [c for c in e if e[c] >= cut - EPS]
        r = {c: after(c) for c in maybe if c not in unt}
        above = [c for c in e if e[c] > cut + EPS]
        sure = {c: r[c] for c in above if c in r}
        if len(maybe) == n:
            sure = r
        elif not sure and not all(c in r for c in maybe if c not in above):
            # the cut may have taken only untouchable classes of the tied ones
            return val, list(r) + [None]
    if not r:
        return val, []
    m = min((sure or r).values())
    if not sure:
        return val, list(r)
    return val, [c for c in r if r[c] <= m + EPS]


def outcomes(ctx, kind, cl, unt, top, thr, limit):
    """all sets of classes the filter may have removed at the end (ties only)"""
    res = set()
    seen = set()
    todo = [frozenset()]
    while todo:
        rem = todo.pop()
        if rem in seen:
            continue
        seen.add(rem)
        cur = cl
        for c in rem:
            cur = without(cur, c)
        if rem and not cur or len(rem) >= limit:
            res.add(rem)
            continue
        val, nxt = steps(kind, cur, unt, top)
        if val is ANY:
            return None
        if val is None or not nxt:
            res.add(rem)
            continue
        eps = 0 if val == 0 else EPS         # an entropy of zero is exact
        if bool(thr >= val - eps):
            res.add(rem)
        if bool(thr < val + eps):
            if ANY in nxt:
                return None
            for c in nxt:
                if c is None:
                    res.add(rem)
                else:
                    todo.append(rem | {c})
    return res


def harness(ctx, cfg):
    import warnings
    warnings.simplefilter('ignore')
    from ficus.legacy.filtering import event_log_filters as fl
    from ficus.legacy.pipelines.filtering import filter_parts as fp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    cl = class_lists(ctx, b.names)
    nm = reps(b, cl)
    ids = Ids(nm)
    k = len(nm)
    snap = b.snapshot()
    if cfg.get('few'):
        u = ctx.index('u', 3)
        unt = {0: set(), 1: {0}, 2: set(range(k))}[u]
    else:
        unt = {i for i in range(k) if ctx.bool('unt%d' % i)}

    def untouchable(name):
        i = ids(name)
        ctx.check(i is not None, 'the untouchable predicate was asked for a name that is not in the log')
        return i in unt
    kind = cfg['kind']
    if kind.startswith('te') or kind == 'defaults':
        return till_end(ctx, cfg, b, cl, ids, unt, untouchable, fl, snap)
    limit = ctx.choose('limit', (1, 2) if len(b.flat) > 20 else (10 ** 9, 1, 2) if len(b.flat) > 10 or len(b.flat) == 4 and len(cl) == 2 else (10 ** 9, 0, 1, 2) if cfg.get('few') else (10 ** 9, 0, 1, 2, 3))
    thr = ctx.real('thr', None, None, 0)
    via = limit in (1, 10 ** 9) if not unt or kind.startswith('pos') else False
    inp = PipelinePartResult().with_log(b.log)
    part = None
    if kind.startswith('pos'):
        if via:
            cls = fp.PosEntropyDirectFilter if kind == 'pos-direct' else fp.PosEntropyIndirectFilter
            part = cls(thr, max_events_to_remove=limit, untouchable_event_func=untouchable)
        else:
            fn = fl.filter_events_pos_entropy_direct if kind == 'pos-direct' else fl.filter_events_pos_entropy_indirect
            new = fn(b.log, threshold=thr, untouchable_event_func=untouchable, max_events_to_remove=limit)
    else:
        lap = kind.startswith('lap')
        if kind.endswith('-direct'):
            if via:
                part = fp.DfgEntropyDirectFilter(thr, lap, max_events_to_remove=limit)
            else:
                new = fl.filter_events_default_entropy_direct(b.log, laplace=lap, threshold=thr, max_events_to_remove=limit, untouchable_event_func=untouchable)
        elif via:
            part = fp.DfgEntropyIndirectFilter(thr, lap, max_events_to_remove=limit, top_percent=cfg['top'])
        else:
            new = fl.filter_events_default_entropy_indirect(b.log, laplace=lap, threshold=thr, top_percent=cfg['top'], max_events_to_remove=limit,
                                                            untouchable_event_func=untouchable)
    if part is not None:
        new = part.execute(inp).get_value_or_throw('log')
    b.check_untouched(snap)
    left = {ids(e[CN]) for t in new for e in t}
    gone = frozenset(range(k)) - left
    ctx.check(None not in left, 'the filtered log contains a name that was not in the log')
    exp = [[e for e, c in zip(t, ct) if c not in gone] for t, ct in zip(b.events, cl)]
    if gone:
        exp = [t for t in exp if t]
    got = [list(t) for t in new]
    ctx.check(len([t for t in got if t]) == len([t for t in exp if t]), 'traces were lost or invented')
    for g, x in zip([t for t in got if t], [t for t in exp if t]):
        ctx.check(len(g) == len(x), 'a class was removed in part only')
        for e, f in zip(g, x):
            ctx.check(same_payload(ctx, e.payload, f.payload), 'order or attributes of the remaining events changed')
    ctx.check(not (gone & unt), 'an untouchable class was removed')
    ctx.check(len(gone) <= limit, 'more classes were removed than allowed')
    ok = outcomes(ctx, kind, cl, unt, cfg.get('top'), thr, limit)
    ctx.check(ok is None or gone in ok, 'the removed classes are not the ones the entropies and the threshold prescribe')


def till_end(ctx, cfg, b, cl, ids, unt, untouchable, fl, snap):
    kind = cfg['kind']
    if kind == 'defaults':
        return defaults(ctx, b, ids, fl)
    if len(cl) < 4 and len(b.flat) < 8 or kind == 'te-direct' and len(b.flat) < 5:
        next_removals(ctx, kind, b, cl, ids, unt, untouchable, fl)
    before = ctx.bool('before')
    mk = fl.TillEndFilteringMetricKind.BeforeOnly if before else fl.TillEndFilteringMetricKind.AfterBeforeDelta
    fn = fl.filter_events_pos_entropy_direct_till_end if kind == 'te-direct' else fl.filter_events_pos_entropy_indirect_till_end
    rem = fn(b.log, mk, untouchable)
    b.check_untouched(snap)
    seen = []
    cur = cl
    for name, val in rem:
        i = ids(name)
        ctx.check(i is not None and i not in seen, 'a class is removed twice or does not exist')
        ctx.check(i not in unt, 'an untouchable class was removed')
        v, nxt = steps('pos-direct' if kind == 'te-direct' else 'te-indirect', cur, unt, None)
        e = C06.definition(cur, ())[0]
        if v is not ANY and ANY not in nxt:
            ctx.check(i in nxt, 'classes are not removed in the order of their entropies')
            free = sum(x for c, x in e.items() if kind == 'te-indirect' or c not in unt)
            a = C06.definition(without(cur, i), ())[0]
            if before:
                ctx.check(abs(float(val) - free) <= EPS, 'the recorded entropy is not the one before the removal')
            elif not any(x is None for x in a.values()):
                fa = sum(x for c, x in a.items() if kind == 'te-indirect' or c not in unt)
                ctx.check(abs(float(val) - (free - fa)) <= EPS, 'the recorded difference of entropies is wrong')
        seen.append(i)
        cur = without(cur, i)
    if kind == 'te-direct':
        ctx.check(set(seen) == {c for t in cl for c in t} - unt, 'filtering till the end must remove every class that may be removed')
    else:
        # it may only stop early where no removal leaves a defined entropy
        v, nxt = steps('te-indirect', cur, unt, None)
        ctx.check(not nxt or ANY in nxt, 'filtering stopped although a class could be removed')


def next_removals(ctx, kind, b, cl, ids, unt, untouchable, fl):
    """the class that would be removed next, and the entropy that decides about it"""
    cases = [('te-indirect', unt, lambda: fl.next_event_remove_pos_entropy_indirect(b.log, untouchable_event_func=untouchable))] if kind == 'te-indirect' else [
        ('pos-direct', set(), lambda: fl.next_event_remove_pos_entropy_direct(b.log)),
        ('def-direct', unt, lambda: fl.next_event_to_remove_default_entropy_direct(b.log, laplace=False, untouchable_event_func=untouchable)),
        ('lap-direct', unt, lambda: fl.next_event_to_remove_default_entropy_direct(b.log, untouchable_event_func=untouchable))]
    for k, u, f in cases:
        v, nxt = steps(k, cl, u, None)
        if v is ANY or ANY in nxt:
            continue
        name, val = f()
        if not nxt:
            ctx.check(name is None, 'a class would be removed although none may be')
            continue
        i = None if name is None else ids(name)
        ctx.check(i in nxt, 'the class removed next (%s)' % k)
        if k == 'te-indirect':
            v = sum(C06.definition(without(cl, i), ())[0].values())
        ctx.check(abs(float(val) - v) <= EPS, 'the entropy of the class removed next (%s)' % k)


def defaults(ctx, b, ids, fl):
    """what is not given: Laplace smoothing, thresholds 5 and 0, the top twentieth, no limit, every class may be removed"""
    big = dict(max_events_to_remove=10 ** 9, untouchable_event_func=lambda n: False)

    def classes(log):
        return [[ids(e[CN]) for e in t] for t in log]
    for f, kw in ((fl.filter_events_default_entropy_indirect, dict(laplace=True, threshold=5, top_percent=0.05)),
                  (fl.filter_events_pos_entropy_direct, dict(threshold=0)), (fl.filter_events_pos_entropy_indirect, dict(threshold=0))):
        ctx.check(classes(f(b.log)) == classes(f(b.log, **dict(kw, **big))), 'defaults of ' + f.__name__)
    kw = dict(threshold=0.1)
    ctx.check(classes(fl.filter_events_default_entropy_indirect(b.log, threshold=0.1, top_percent=1)) ==
              classes(fl.filter_events_default_entropy_indirect(b.log, laplace=True, threshold=0.1, top_percent=1, **big)), 'defaults')
    ctx.check(classes(fl.filter_events_default_entropy_indirect(b.log, threshold=0.1)) ==
              classes(fl.filter_events_default_entropy_indirect(b.log, threshold=0.1, top_percent=0.05, **big)), 'defaults')
    ctx.check(classes(fl.filter_events_default_entropy_direct(b.log, threshold=0.1, laplace=True)) ==
              classes(fl.filter_events_default_entropy_direct(b.log, laplace=True, threshold=0.1, **big)), 'defaults')
    ctx.check(classes(fl.filter_events_default_entropy_direct(b.log)) ==
              classes(fl.filter_events_default_entropy_direct(b.log, laplace=True, threshold=0, **big)), 'defaults')
