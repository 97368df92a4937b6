"""Repeat sets and the activity tree."""
from .common import *

ASSUMPTIONS = ['sub-arrays handed in lie inside their traces and have at least one event']
BOUNDS_TEXT = ('all sub-arrays of all traces up to 5 events (any equality pattern and order of names); 2-trace logs up to 5 events; up to 4 '
               'symbolic sub-arrays of traces of 4-9 events over 2-6 fixed names; sets from discovered maximal / super-maximal / '
               'near-super-maximal repeats and tandem arrays; names of length 0-2; class extractors independent of the names')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts
    counting_uuid(symbolic)


def reset():
    reset_uuid()


def configs(tier):
    t = tier == 'thorough'
    out = [tcfg('nolog', [], subs='all'), tcfg('empty', [''], subs='all')]
    for n in range(1, 6 if t else 5):
        out.append(tcfg('all%d' % n, ['S' * n], subs='all'))
    out.append(tcfg('all5', ['SSSSS'], subs='all', alpha=3))
    for s in [(1, 1), (2, 1), (1, 2), (2, 2), (0, 3), (3, 2), (1, 1, 1), (2, 0, 2)]:
        out.append(tcfg('all' + 'x'.join(map(str, s)), ['S' * k for k in s], subs='all', **({'alpha': 3} if sum(s) > 4 else {})))
    for n, tr in [(2, ['abcd']), (3, ['abcdab']), (3, ['abc', 'bcd']), (2, ['abcdefabc']), (3, ['abcde'])] + \
            ([(4, ['abcde']), (3, ['abcdefabc']), (4, ['abc', 'bcd', 'cde'])] if t else []):
        out.append(tcfg('sym%d-%s' % (n, '-'.join(tr)), tr, subs=n))
    out.append(tcfg('mixed', ['abSSc'], subs=2, alpha=4))
    out.append(tcfg('pre', ['abcdeS', 'Sab'], subs=[(0, 0, 2), (0, 0, 3), (0, 1, 3), (0, 2, 2), (0, 0, 5), (0, 3, 3), (1, 0, 2), (1, 0, 3)]))
    out.append(tcfg('pre2', ['abcdefghSS'], subs=[(0, i, l) for l in (1, 2, 3, 5, 8) for i in range(0, 11 - l)]))
    out.append(tcfg('pre3', ['abcd', 'aS', 'bS', 'Scd', 'S'], subs=[(0, 0, 4), (1, 0, 2), (2, 0, 2), (3, 0, 3), (4, 0, 1), (1, 0, 1)]))
    for k in ('mr', 'sr', 'nr', 'ta', 'pa'):
        for tr, al in [(['SSSS'], None), (['SSSSSSS'], 2), (['SSSSS'], 3), (['SSS', 'SSS'], 2), (['abSabSab', 'baS'], None)]:
            out.append(tcfg('disc-%s-%s' % (k, '-'.join(tr)), tr, subs=k, **({'alpha': al} if al else {})))
        for st in (0, 1):
            for tr, al in [(['SS', 'SS'], None), (['abS', 'Sab', 'aS'], None), (['SSS', '', 'SS'], 2)]:
                out.append(tcfg('pipe%d-%s-%s' % (st, k, '-'.join(tr)), tr, subs=k, pipe=st, **({'alpha': al} if al else {})))
    for n, tr in (('1', ['abcd']), ('2', ['abcS']), ('3', ['abS', 'abc'])):
        out.append(tcfg('own-name' + n, tr, subs='all', own=1))
    out.append(tcfg('own-name-pipe', ['abab', 'ab'], subs='mr', pipe=0, own=1))
    out.append(tcfg('len2', ['SSS'], len=2, subs='all'))
    out.append(tcfg('lenmix', ['SSS'], lens=[0, 1, 2], subs='all'))
    out.append(tcfg('cls3', ['SSS'], cls=True, subs='all'))
    out.append(tcfg('cls4', ['SSSS'], cls=True, alpha=2, subs='all'))
    return out


def harness(ctx, cfg):
    from ficus.legacy.analysis.patterns import event_log_patterns as elp
    from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    ext, names = None, b.names
    if cfg.get('cls'):
        ext, names = attach_classes(ctx, b, cfg)
    snap = b.snapshot()
    subs = cfg['subs']
    work_log = b.log
    res = PipelinePartResult().with_log(b.log)
    level = 3
    if 'pipe' in cfg:
        res, given = run_pipe(ctx, cfg, b, pp, res, ext, level)
    else:
        if subs == 'all':
            given = [[(i, l) for l in range(1, len(t) + 1) for i in range(len(t) - l + 1)] for t in names]
        elif isinstance(subs, int):
            given = [[] for _ in names]
            for k in range(subs):
                ti = ctx.index('st%d' % k, len(names))
                n = len(names[ti])
                st = ctx.index('ss%d' % k, n)
                given[ti].append((st, 1 + ctx.index('sl%d' % k, n - st)))
        elif isinstance(subs, list):
            given = [[] for _ in names]
            for ti, st, ln in subs:
                given[ti].append((st, ln))
        else:
            f = {'mr': lambda: elp.find_maximal_repeats(b.log, ext), 'sr': lambda: elp.find_super_maximal_repeats(b.log, ext),
                 'nr': lambda: elp.find_near_super_maximal_repeats(b.log, ext),
                 'ta': lambda: elp.find_maximal_tandem_arrays(b.log, 10, ext),
                 'pa': lambda: elp.find_primitive_tandem_arrays(b.log, 10, ext)}[subs]()
            given = [[(x.first_pos, x.length) for x in t] for t in f]
        res = res.with_patterns([[SubArrayInEventLog(first_pos=i, length=l) for i, l in t] for t in given])
        res = pp.DiscoverRepeatsSets(ext).execute(res)
        sets = res.get_value_or_throw('repeat_sets')
        # compare with the function
        cl = class_lists(ctx, names)
        exp = {}
        for ti, t in enumerate(given):
            for (i, l) in t:
                exp.setdefault(frozenset(cl[ti][i:i + l]), []).append((ti, i, l))
        seen = []
        for s in sets:
            c = frozenset(cl[s.trace_index][s.first_pos:s.first_pos + s.length])
            ctx.check((s.trace_index, s.first_pos, s.length) in exp.get(c, ()), 'a repeat set that is none of the given sub-arrays')
            seen.append(c)
        ctx.check(len(seen) == len(set(seen)), 'a repeat set is listed twice: %r' % seen)
        ctx.check(set(seen) == set(exp), 'repeat sets %r, expected %r' % (seen, list(exp)))
        if cfg.get('own'):
            own = Own(ctx, b, ext)
            res = pp.DiscoverActivities(level, ext, own).execute(res)
            check_tree(ctx, res.get_value_or_throw('activities'), exp.keys(), cl, own.names, level)
        else:
            res = pp.DiscoverActivities(level, ext).execute(res)
            check_tree(ctx, res.get_value_or_throw('activities'), exp.keys(), cl, names, level)
    b.check_untouched(snap)


def run_pipe(ctx, cfg, b, pp, res, ext, level):
    k = cfg['subs']
    R, T = pp.RepeatActivitiesSource, pp.TandemArrayKind
    src = {'mr': lambda: pp.DiscoverRepeats(R.MaximalRepeats), 'sr': lambda: pp.DiscoverRepeats(R.SuperMaximalRepeats),
           'nr': lambda: pp.DiscoverRepeats(R.NearSuperMaximalRepeats), 'ta': lambda: pp.DiscoverTandemArrays(T.MaximalArray),
           'pa': lambda: pp.DiscoverTandemArrays(T.PrimitiveArray)}[k]()
    S = pp.ActivitiesDiscoveryStrategy
    st = S.DiscoverFromSingleMergedTrace if cfg['pipe'] == 1 else S.DiscoverFromAllTraces
    kw = {}
    if cfg.get('own'):
        kw['activity_name_creator'] = own = Own(ctx, b, None)
    out = pp.DiscoverActivitiesFromPatterns(src, st, activity_level=level, **kw)(res)
    ctx.check(out.get_value_or_throw('log') is b.log, 'activity discovery must keep the log')
    pats = out.get_value_or_throw('patterns')
    cl = class_lists(ctx, b.names)
    if cfg['pipe'] == 1:
        merged, u = [], 1000
        for t in cl:
            merged += t + [u]
            u += 1
        cl = [merged]
    ctx.check(len(pats) == len(cl), 'one list of patterns per searched trace')
    sets = {frozenset(t[x.first_pos:x.first_pos + x.length]) for t, ps in zip(cl, pats) for x in ps}
    acts = out.get_value_or_throw('activities')
    check_tree(ctx, acts, sets, cl, own.names if cfg.get('own') else None, level)
    return out, None


class Own:
    """a naming function of the user: any name for any repeat set, also the same for several"""

    def __init__(self, ctx, b, ext):
        self.ctx, self.b, self.ext, self.names = ctx, b, ext, {}

    def __call__(self, sub_array, log, extractor):
        self.ctx.check(log is self.b.log, 'the naming function gets another log')
        self.ctx.check(self.ext is None or extractor is self.ext, 'the naming function gets another class extractor')
        k = (sub_array.trace_index, sub_array.first_pos, sub_array.length)
        if k not in self.names:
            self.names[k] = self.ctx.name('own%d_%d_%d' % k, 1)
        return self.names[k]


def check_tree(ctx, roots, exp, cl, names, level):
    exp = set(exp)
    nodes = []

    def rec(n, parent):
        s = n.repeat_set
        c = frozenset(cl[s.trace_index][s.first_pos:s.first_pos + s.length])
        nodes.append((c, parent, n))
        ctx.check(len(nodes) <= 4 * len(exp) + 4, 'the tree has too many nodes')
        for ch in n.child_nodes:
            rec(ch, c)
    for r in roots:
        rec(r, None)
    cs = [c for c, _, _ in nodes]
    ctx.check(len(cs) == len(set(cs)), 'a set occurs twice in the tree: %r' % cs)
    ctx.check(set(cs) == exp, 'tree holds %r, expected %r' % (cs, exp))
    for c, par, n in nodes:
        sup = [x for x in exp if c < x]
        if par is None:
            ctx.check(not sup, 'root %r is contained in %r' % (c, sup))
        else:
            ctx.check(c < par, 'child %r is not strictly contained in its parent %r' % (c, par))
            ctx.check(len(par) == min(map(len, sup)), 'child %r hangs under %r although %r are smaller' % (c, par, sup))
        ctx.check(len(n.set_of_events) == len(c), 'node %r has %d event classes' % (c, len(n.set_of_events)))
        ctx.check(n.activity_level == level, 'activity level not taken over')
        if isinstance(names, dict):
            s = n.repeat_set
            ctx.check((s.trace_index, s.first_pos, s.length) in names and n.name == names[(s.trace_index, s.first_pos, s.length)], 'name of the activity is not the one of the naming function')
        elif names is not None:
            s = n.repeat_set
            sub = list(zip(cl[s.trace_index], names[s.trace_index]))[s.first_pos:s.first_pos + s.length]
            first = {}
            for k, x in sub:
                first.setdefault(k, x)
            exp_name = '::'.join(sorted(first.values())) if not ctx.symbolic else sym_join(ctx, sorted(first.values()))
            ctx.check(n.name == exp_name, 'name of the activity')


def sym_join(ctx, xs):
    from symex.strs import join, SymStr
    return join('::', [SymStr.of(x) for x in xs])
