"""Maximal, super-maximal and near-super-maximal repeats."""
from .common import *

ASSUMPTIONS = ['the third-party suffix tree and interval tree run natively on the symbolic class identifiers']
BOUNDS_TEXT = ('all traces up to 6 events (any equality pattern), 2-letter alphabets up to 10, 3-letter up to 8; logs of up to 3 traces with 5 '
               'events; class names of length 0-3; class extractors independent of the names; traces of 20-40 events with 1-3 symbolic events')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


def configs(tier):
    t = tier == 'thorough'
    out = [tcfg('nolog', [])]
    for n in range(0, 8 if t else 7):
        out.append(tcfg('full%d' % n, ['S' * n]))
    for n in range(7, 13 if t else 11):
        out.append(tcfg('ab2-%d' % n, ['S' * n], alpha=2))
    for n in range(7, 10 if t else 8):
        out.append(tcfg('ab3-%d' % n, ['S' * n], alpha=3))
    for s in shapes(4, 3, True):
        if len(s) > 1:
            out.append(tcfg('multi' + 'x'.join(map(str, s)), ['S' * k for k in s]))
    out.append(tcfg('multi3x3', ['SSS', 'SSS'], alpha=3))
    out.append(tcfg('cls4', ['SSSS'], cls=True))
    out.append(tcfg('cls5', ['SSSSS'], alpha=2, cls=True))
    out.append(tcfg('len2', ['SSSS'], len=2))
    out.append(tcfg('lenmix', ['SSSS'], lens=[0, 1, 2, 1]))
    out.append(tcfg('lenmix2', ['SSSS'], lens=[1, 2, 1, 2]))
    out.append(tcfg('len3', ['SaSa'], len=3))
    for i, tr in enumerate(['abcabcSbcaabcSaaabbb', 'ab' * 5 + 'S' + 'abc' * 3 + 'S' + 'aa', 'a' * 10 + 'S' + 'a' * 9,
                            'aabcdbbcdaSaabcdbbcda', 'aaacdcdcbedbSbbedba', 'abSabcSabcdSabcde', 'abxcdSabycdSabzcd', 'aabcdSbccb' * 2]):
        out.append(tcfg('long%d' % i, [tr]))
    return out


def occ(t, b):
    L = len(b)
    return [j for j in range(len(t) - L + 1) if tuple(t[j:j + L]) == b]


def maximal(t):
    n = len(t)
    out = {}
    for L in range(1, n):
        for i in range(n - L + 1):
            b = tuple(t[i:i + L])
            if b in out:
                continue
            o = occ(t, b)
            if len(o) < 2:
                continue
            if len({t[j - 1] if j else None for j in o}) > 1 and len({t[j + L] if j + L < n else None for j in o}) > 1:
                out[b] = o
    return out


def harness(ctx, cfg):
    from ficus.legacy.analysis.patterns import event_log_patterns as elp
    from ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverRepeats, RepeatActivitiesSource
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    part = ctx.bool('part') if cfg['name'] in ('full4', 'cls4', 'multi2x2') else False
    b = LogBuilder(ctx, cfg)
    ext, names = None, b.names
    if cfg.get('cls'):
        ext, names = attach_classes(ctx, b, cfg)
    snap = b.snapshot()
    if part:
        def run(kind):
            r = DiscoverRepeats(kind, ext).execute(PipelinePartResult().with_log(b.log))
            ctx.check(r.get_value_or_throw('log') is b.log, 'the part must keep the log')
            return r.get_value_or_throw('patterns')
        R = RepeatActivitiesSource
        mr, sr, nr = run(R.MaximalRepeats), run(R.SuperMaximalRepeats), run(R.NearSuperMaximalRepeats)
    else:
        mr = elp.find_maximal_repeats(b.log, ext)
        sr = elp.find_super_maximal_repeats(b.log, ext)
        nr = elp.find_near_super_maximal_repeats(b.log, ext)
    cl = class_lists(ctx, names)
    for x in (mr, sr, nr):
        ctx.check(len(x) == len(cl), 'one list of repeats per trace')
    for t, m, s, n in zip(cl, mr, sr, nr):
        exp = maximal(t)
        compare(ctx, t, m, set(exp), 'maximal')
        sup = {x for x in exp if not any(y != x and occ(y, x) for y in exp)}
        compare(ctx, t, s, sup, 'super-maximal')
        iv = [(o, o + len(x), x) for x, os in exp.items() for o in os]
        near = {x for a, e, x in iv if not any(a2 <= a and e <= e2 and y != x for a2, e2, y in iv)}
        compare(ctx, t, n, near, 'near-super-maximal')
    b.check_untouched(snap)


def compare(ctx, t, got, exp, what):
    g = []
    for x in got:
        ctx.check(0 <= x.first_pos and x.length > 0 and x.first_pos + x.length <= len(t), '%s repeat outside its trace' % what)
        g.append(tuple(t[x.first_pos:x.first_pos + x.length]))
    ctx.check(len(g) == len(set(g)), 'a %s repeat of %r is reported twice: %r' % (what, t, g))
    ctx.check(set(g) == exp, '%s repeats of %r: %r, expected %r' % (what, t, sorted(g), sorted(exp)))
