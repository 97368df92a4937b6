"""Tandem arrays."""
from .common import *

ASSUMPTIONS = []
BOUNDS_TEXT = ('all traces up to 7 events (any equality pattern), 2-letter alphabets up to 11, 3-letter up to 8, with every maximum length '
               'from 0 to trace length + 2; 2-trace logs up to 6 events; class names of length 0-3; class extractors independent of the '
               'names; traces of 24-40 events with 2 symbolic events; maximal and primitive arrays, functions and pipeline parts')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for n in range(0, 8 if t else 7):
        out.append(tcfg('full%d' % n, ['S' * n], mx=list(range(0, n + 3))))
    out.append(tcfg('full7', ['S' * 7], mx=[4, 10]))
    for n in range(8, 14 if t else 11):
        out.append(tcfg('ab2-%d' % n, ['S' * n], alpha=2, mx=[2, 3, 4, 5, 6, 10] if n < 10 else [4, 5, 6, 20]))
    for n in range(7, 10 if t else 9):
        out.append(tcfg('ab3-%d' % n, ['S' * n], alpha=3, mx=[3, 4, 5, 20] if n < 8 else [4, 5]))
    for s in shapes(5, 3, True):
        if len(s) > 1:
            out.append(tcfg('multi' + 'x'.join(map(str, s)), ['S' * k for k in s], mx=[3, 10]))
    out.append(tcfg('multi4x4', ['SSSS', 'SSSS'], alpha=2, mx=[3, 10]))
    out.append(tcfg('cls4', ['SSSS'], mx=[3, 10], cls=True))
    out.append(tcfg('cls6', ['SSSSSS'], alpha=2, mx=[3, 10], cls=True))
    out.append(tcfg('len2', ['SSSS'], len=2, mx=[3, 10]))
    out.append(tcfg('lenmix', ['SSSS'], lens=[0, 1, 2, 1], mx=[3, 10]))
    out.append(tcfg('lenmix2', ['SSSS'], lens=[1, 2, 1, 2], mx=[3, 10]))
    out.append(tcfg('len3', ['SaSa'], len=3, mx=[3, 10]))
    for i, (tr, mx) in enumerate([('abcabcSbcaabcSaaabbbScda', [4, 10, 20]), ('ab' * 8 + 'S' + 'abc' * 5 + 'S' + 'aa', [10, 20]),
                                  ('a' * 12 + 'S' + 'a' * 11, [10, 13]), ('ab' * 14 + 'S', [3, 5]), ('S' + 'abc' * 12, [4]), ('abcdefghiS' * 3, [9, 10, 11]), ('abcdefghijklS' * 2, [13, 14, 20]),
                                  ('abab' + 'c' + 'Sbabab' + 'dababSb', [3, 10]), ('aabaabSabaabS', [5, 20]),
                                  ('abSab' * 2 + 'abSab', [5, 6, 20])]):
        out.append(tcfg('long%d' % i, [tr], mx=mx))
    return out


def expected(t, mx):
    out = {}
    n = len(t)
    for L in range(2, min(mx, n // 2 + 1)):
        for i in range(0, n - 2 * L + 1):
            base = tuple(t[i:i + L])
            if base in out:
                continue
            k = 1
            while tuple(t[i + k * L:i + (k + 1) * L]) == base:
                k += 1
            if k > 1:
                out[base] = (i, L, k)
    return out


def is_power(base):
    L = len(base)
    return any(L % d == 0 and base == base[:d] * (L // d) for d in range(2, L))


def harness(ctx, cfg):
    from ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_tandem_arrays, find_primitive_tandem_arrays
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverTandemArrays, TandemArrayKind
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    mx = ctx.choose('mx', cfg['mx'])
    part = ctx.bool('part') if cfg['name'] in ('full4', 'cls4', 'multi2x2') else False
    b = LogBuilder(ctx, cfg)
    ext = None
    names = b.names
    if cfg.get('cls'):
        rng = alpha(cfg['alpha']) if cfg.get('alpha') else ((33, 126),)
        names = [[ctx.name('c%d_%d' % (i, j), ranges=rng) for j in range(len(t))] for i, t in enumerate(b.names)]
        for t, ct in zip(b.events, names):
            for e, c in zip(t, ct):
                e['cls'] = c
        ext = lambda e: e['cls']
    snap = b.snapshot()
    if part:
        def run(kind):
            p = DiscoverTandemArrays(kind, mx, ext)
            r = p.execute(PipelinePartResult().with_log(b.log))
            ctx.check(r.get_value_or_throw('log') is b.log, 'the part must keep the log')
            return r.get_value_or_throw('patterns')
        res = run(TandemArrayKind.MaximalArray)
        prim = run(TandemArrayKind.PrimitiveArray)
    else:
        res = find_maximal_tandem_arrays(b.log, mx, ext)
        prim = find_primitive_tandem_arrays(b.log, mx, ext)
    c = ctx.classes([n for t in names for n in t])
    cl, i = [], 0
    for t in names:
        cl.append(c[i:i + len(t)])
        i += len(t)
    ctx.check(len(res) == len(cl) and len(prim) == len(cl), 'one list of tandem arrays per trace')
    for t, r, p in zip(cl, res, prim):
        exp = expected(t, mx)
        got = [(x.first_pos, x.length, x.repeat_count) for x in r]
        ctx.check(sorted(got) == sorted(exp.values()), 'tandem arrays of %r (max %d): %r, expected %r' % (t, mx, got, sorted(exp.values())))
        gp = [(x.first_pos, x.length, x.repeat_count) for x in p]
        ctx.check(len(gp) == len(set(gp)) and set(gp) <= set(got), 'primitive arrays %r are not among the maximal ones %r' % (gp, got))
        allt = expected_all(t)
        for a in exp.values():
            base = tuple(t[a[0]:a[0] + a[1]])
            if a in gp:
                ctx.check(not is_power(base), 'primitive array %r of %r is a repetition of a shorter base' % (a, t))
            else:
                ctx.check(any(l < a[1] for l in allt.get(a[0], ())), 'primitive array %r of %r is missing' % (a, t))
    b.check_untouched(snap)


def expected_all(t):
    """start -> lengths of bases repeating there"""
    out = {}
    n = len(t)
    for L in range(2, n // 2 + 1):
        for i in range(0, n - 2 * L + 1):
            if t[i:i + L] == t[i + L:i + 2 * L]:
                out.setdefault(i, []).append(L)
    return out
