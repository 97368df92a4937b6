"""Printed and saved reports about a log and its activities."""
import re
from .trees import *
from . import drawsym, textsym

ASSUMPTIONS = ['names have no line breaks (a report is read line by line); where names are printed as a list they have no quotes, commas or backslashes',
               'matplotlib is a recorder', 'instances handed in are ordered, disjoint and inside their traces (decided by C14)']
BOUNDS_TEXT = ('logs of up to 4 symbolic events in up to 3 traces plus names of 0-3 characters and longer mixed logs; every selection of names; activity trees over a symbolic trace of 2-3 events with '
               'up to 4 nodes on up to 2 levels, with equal and different names; every set of up to 2 disjoint instances in 1-2 traces of up to 4 events'
               '; long and wide logs, trees of 11 nodes and 9 given instances with a few arbitrary names and activities')
PLAIN = [[0x20, 0x26], [0x28, 0x2B], [0x2D, 0x5B], [0x5D, 0x7E]]


def setup(symbolic):
    drawsym.install()
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts
    import ficus.legacy.pipelines.analysis.analysis_parts
    import ficus.legacy.pipelines.filtering.filter_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in shapes(5 if t else 4, 3, True):
        if s.count(0) > 1:
            continue
        out.append(tcfg('log-' + 'x'.join(map(str, s)), ['S' * n for n in s], rng=PLAIN, kind='log'))
    out.append(tcfg('log-len2', ['SS', 'S'], len=2, rng=PLAIN, kind='log'))
    out.append(tcfg('log-len012', ['SSS'], lens=[0, 1, 2], rng=PLAIN, kind='log'))
    out.append(tcfg('log-wide', ['Sbcdefghijklmno', '', 'ab', 'S'] + ['pq'] * 9, kind='log'))
    out.append(tcfg('dfg-wide', ['abcdefghijklmnopS', '', 'aaaaaaaaaaaab'], kind='dfg', sels=[0, 1, 5, 100]))
    out.append(tcfg('inst-long', ['xyzxyzxyzxyzxyzSyzxxy', '', 'xaxbxS', 'y'], kind='inst', only=[], maxn=0, given=[[(0, 1), (1, 2), (4, 3), (8, 1), (9, 2), (12, 4), (18, 2)], [], [(1, 2), (5, 1)], []]))
    for nm in ('own', 'first'):
        out.append(tcfg('acts-long-' + nm, ['Sbcdefghijkl'], kind='acts', names=nm, subs=[(0, i, 1) for i in range(7)] + [(0, 0, 2), (0, 2, 2), (0, 0, 4), (0, 4, 3), (0, 0, 7), (0, 8, 4)]))
    out.append(tcfg('log-long', ['abcSbdaSc', 'SabS', 'bc'], alpha=5, kind='log'))
    for s in ((2,), (3,), (2, 1), (2, 2), (0, 3), (1, 1, 1)) + (((3, 1), (4,)) if t else ()):
        out.append(tcfg('dfg-' + 'x'.join(map(str, s)), ['S' * n for n in s], rng=PLAIN, kind='dfg'))
    out.append(tcfg('dfg-len', ['SS', 'S'], lens=[2, 0, 1], rng=PLAIN, kind='dfg'))
    out.append(tcfg('dfg-long', ['abcabSab', 'bcS'], alpha=4, kind='dfg'))
    for s in ((), (1,), (2, 2), (3, 1), (0, 2), (1, 1, 1), (4, 1)):
        out.append(tcfg('twice-' + 'x'.join(map(str, s)), ['S' * n for n in s], rng=PLAIN, kind='twice'))
    for nm in ('own', 'const', 'sym', 'first'):
        for subs in ([(0, 0, 1)], [(0, 0, 2), (0, 1, 2)], [(0, 0, 1), (0, 0, 3)], [(0, 0, 1), (0, 0, 2), (0, 0, 3)], []) + (([(0, 0, 1), (0, 1, 1), (0, 2, 1), (0, 0, 3)],) if t or nm == 'first' else ()):
            out.append(tcfg('acts-%s-%s' % (nm, '_'.join('%d%d' % x[1:] for x in subs)), ['SSS'], rng=PLAIN, kind='acts', subs=subs, names=nm))
            if len(subs) > 1 and (t or nm != 'sym' or len(subs) == 2):
                out.append(tcfg('acts2-%s-%s' % (nm, '_'.join('%d%d' % x[1:] for x in subs)), ['SSS'], alpha=3, kind='acts', subs=subs, second=[(0, 1, 1), (0, 1, 2)], names=nm))
    for n in range(0, 5):
        out.append(tcfg('inst-%d' % n, ['ab', 'S' * n], rng=PLAIN, maxn=2, only=[1], kind='inst'))
    out.append(tcfg('inst-twins', ['ab', 'SSS'], alpha=3, maxn=2, only=[1], kind='inst', twins=1))
    out.append(tcfg('inst-2x2', ['ab', 'SS', 'SS'], alpha=4 if t else 2, maxn=2, only=[1, 2], kind='inst'))
    out.append(tcfg('inst-0x3', ['ab', '', 'SSS'], alpha=3, maxn=2, only=[1, 2], kind='inst'))
    out.append(tcfg('inst-all', ['SS'], rng=PLAIN, maxn=2, only=[0], kind='inst'))
    for s in ((2, 2), (3, 2), (2, 1, 1)) + (((3, 3),) if t else ()):
        out.append(tcfg('entropy-' + 'x'.join(map(str, s)), ['S' * n for n in s], rng=PLAIN, kind='entropy'))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    snap = b.snapshot()
    globals()['k_' + cfg['kind']](ctx, cfg, b, PipelinePartResult)
    if cfg['kind'] != 'inst':
        b.check_untouched(snap)


def plain(s):
    return str.__str__(s)


def lines(text):
    """the lines of a report (every line ends with a line break)"""
    ls = text.split('\n')
    return ls


def same_multiset(ctx, got, want, what):
    ctx.check(len(got) == len(want), '%s: %d entries, expected %d' % (what, len(got), len(want)))
    rest = list(want)
    for g in got:
        for i, w in enumerate(rest):
            if bool(g == w):
                del rest[i]
                break
        else:
            ctx.fail(what + ': an unexpected entry')


def counts(ctx, text, traces, events, classes, what):
    """the numbers of traces, events and event classes, each in the line that names it"""
    ls = [plain(l) for l in lines(text)]
    found = {}
    for l in ls:
        m = re.findall(r'\d+', l)
        if not m:
            continue
        k = 'classes' if 'class' in l else 'traces' if 'traces' in l else 'events' if 'events' in l else None
        ctx.check(k is not None and len(m) == 1 and k not in found, what + ': an unexpected number')
        found[k] = int(m[0])
    ctx.check(found == {'traces': traces, 'events': events, 'classes': classes}, '%s: %r' % (what, found))


def k_log(ctx, cfg, b, R):
    from ficus.legacy.pipelines.analysis import analysis_parts as ap
    cl, _ = b.classes()
    nm = reps(b, cl)
    res = R().with_log(b.log)
    with textsym.capture(ctx) as c:
        out = ap.SaveAllEventNames('names.txt').execute(res)
        text = c.file('names.txt')
        printed = c.printed()
    ctx.check(out.get_value_or_throw('log') is b.log, 'event names: the log was replaced')
    ctx.check(printed == '', 'event names: printed')
    if nm:
        got = text.split('\n\n')
        same_multiset(ctx, got, list(nm.values()), 'event names')
    else:
        ctx.check(text == '', 'event names of an empty log')
    with textsym.capture(ctx) as c:
        out = ap.PrintEventLogInfo().execute(res)
        text = c.printed()
    counts(ctx, text, len(b.names), len(b.flat), len(nm), 'log info')
    ctx.check(out.get_value_or_throw('log') is b.log, 'log info: the log was replaced')


def k_twice(ctx, cfg, b, R):
    from ficus.legacy.pipelines.analysis import analysis_parts as ap
    from ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount
    from ficus.legacy.pipelines.pipelines import Pipeline, InternalPipelinePart
    cl, _ = b.classes()
    op = ctx.name('op', 2, tuple(tuple(x) for x in PLAIN))
    ctx.assume(ctx.not_(ctx.any([op[i] == d for i in range(2) for d in '0123456789'])))
    with textsym.capture(ctx) as c:
        parts = [FilterTracesByCount(1)]
        if ctx.bool('new context'):
            class New(InternalPipelinePart):
                def execute(self, current_input):
                    return R().with_log(current_input.get_value_or_throw('log'))
            parts.insert(ctx.index('at', 2), New())
        out = ap.PrintEventLogInfoBeforeAndAfter(op, Pipeline(*parts)).execute(R().with_log(b.log))
        text = c.printed()
    left = [t for t in cl if len(t) > 1]
    ctx.check([len(t) for t in out.get_value_or_throw('log')] == [len(t) for t in left], 'before/after: log of the result')
    ls = lines(text)
    started = [i for i, l in enumerate(ls) if bool(l == ctx.const('Operation ') + op + ' started')]
    fin = [i for i, l in enumerate(ls) if bool(l == ctx.const('Operation ') + op + ' finished')]
    ctx.check(len(started) == 1 and len(fin) == 1, 'before/after: name of the operation')
    body = [plain(l) for l in ls[started[0] + 1:fin[0]]]
    ctx.check(not any(re.search(r'\d', plain(l)) for i, l in enumerate(ls) if not started[0] <= i <= fin[0]), 'before/after: numbers outside of the operation')
    nums = [l for l in body if re.search(r'\d', l)]
    ctx.check(len(nums) == 6, 'before/after: information is printed twice')
    for part, t, what in ((nums[:3], cl, 'before'), (nums[3:], left, 'after')):
        counts(ctx, ctx.const('\n'.join(part)), len(t), sum(map(len, t)), len({k for x in t for k in x}), what)


def k_dfg(ctx, cfg, b, R):
    from ficus.legacy.pipelines.analysis import analysis_parts as ap
    cl, _ = b.classes()
    nm = reps(b, cl)
    from ficus.legacy.util import fake_start_name, fake_end_name
    nm[100], nm[101] = fake_start_name, fake_end_name
    ids = Ids(nm)
    sel = {k: ctx.index('sel%d' % k, 2) if k in cfg.get('sels', nm) else k % 2 for k in nm}

    def selector(name):
        k = ids(name)
        return k is not None and sel[k] == 1
    with textsym.capture(ctx) as c:
        out = ap.PrintDFG(selector).execute(R().with_log(b.log))
        text = c.printed()
    ctx.check(out.get_value_or_throw('log') is b.log, 'dfg: the log was replaced')
    want = {}
    for t in cl:
        t = [100] + t + [101] if t else t
        for x, y in zip(t, t[1:]):
            if sel[x]:
                want.setdefault(x, {}).setdefault(y, 0)
                want[x][y] += 1
    ls = lines(text)
    seen = {}
    cur = None
    for l in ls:
        if cur is None:
            if bool(l == ''):
                continue
            heads = [k for k in nm if bool(l == ctx.const('Followers of ') + nm[k] + ':')]
            ctx.check(len(heads) == 1, 'dfg: not a heading of a name')
            cur = heads[0]
            ctx.check(cur not in seen, 'dfg: a name is listed twice')
            seen[cur] = []
        elif bool(l == ''):
            cur = None
        else:
            seen[cur].append(l)
    ctx.check(set(k for k in seen if seen[k]) == set(want), 'dfg: names with followers')
    ctx.check(all(sel[k] for k in seen), 'dfg: a name that is not selected')
    for k, f in want.items():
        same_multiset(ctx, seen[k], [nm[y] + ': %d' % n for y, n in f.items()], 'dfg: followers')


def k_acts(ctx, cfg, b, R):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    cl, _ = b.classes()
    made = {}

    def creator(sub, log, ext):
        if cfg['names'] == 'const':
            return ctx.const('x')
        if cfg['names'] == 'first':
            return log[sub.trace_index][sub.first_pos][CN]
        k = 'act%d_%d' % (sub.first_pos, sub.length)
        if k not in made:
            made[k] = ctx.name(k, 1, ((97, 99),))
        return made[k]
    kw = {} if cfg['names'] == 'own' else {'name_creator': creator}
    trees = [Tree(ctx, b, cfg['subs'], cl, level=0, **kw)]
    if cfg.get('second'):
        trees.append(Tree(ctx, b, cfg['second'], cl, level=3, **kw))
    roots = [r for t in trees for r in t.roots]
    if len(roots) > 1 and len(trees) > 1:
        roots = roots[1:] + roots[:1]
    levels = {}
    for r in roots:
        levels.setdefault(r.activity_level, []).append(r)
    res = R().with_log(b.log).with_activities(roots)

    def below(rs):
        """every node below rs once (by identity)"""
        out, q = [], list(rs)
        while q:
            n = q.pop()
            if not any(n is x for x in out):
                out.append(n)
                q += n.child_nodes
        return out

    def distinct(names):
        out = []
        for n in names:
            if not any(bool(n == m) for m in out):
                out.append(n)
        return out
    with textsym.capture(ctx) as c:
        out = pp.SaveAllActivitiesNames('acts.txt').execute(res)
        text = c.file('acts.txt')
    ctx.check(out.get_value_or_throw('activities') is roots, 'activities were replaced')
    ls = lines(text)
    cur, seen, order = None, {}, []
    for l in ls:
        head = [k for k in levels if bool(l == 'ACTIVITIES LEVEL %d' % k)]
        if head:
            cur = head[0]
            ctx.check(cur not in seen, 'activity names: a level is listed twice')
            seen[cur] = []
            order.append(cur)
        elif bool(l == '') or (len(l) > 20 and bool(l == '=' * len(l))):
            pass
        else:
            ctx.check(cur is not None, 'activity names: a name outside of a level')
            seen[cur].append(l)
    ctx.check(order == sorted(levels), 'activity names: levels')
    for k, rs in levels.items():
        same_multiset(ctx, seen[k], distinct([n.name for n in below(rs)]), 'activity names')
    with textsym.capture(ctx) as c:
        pp.PrintActivities(False).execute(res)
        ctx.check(c.printed() == '', 'nothing is printed')
    with textsym.capture(ctx) as c:
        pp.PrintActivities().execute(res)
        text = c.printed()
    got = [l for l in lines(text)[1:] if not bool(l == '')]
    same_multiset(ctx, got, [r.name for r in roots if len(r.name)], 'printed activities')
    with textsym.capture(ctx) as c:
        pp.PrintFoundActivitiesCount().execute(res)
        ctx.check(re.findall(r'\d+', plain(c.printed())) == ['%d' % len(roots)], 'number of activities')
    with textsym.capture(ctx) as c:
        pp.PrintActivitiesNamesToHashes().execute(res)
        text = c.printed()
    want = []
    q = list(roots)
    while q:
        n = q.pop()
        want.append(n.name)
        q += n.child_nodes
    ls = lines(text)
    ctx.check(bool(ls[-1] == ''), 'hashes: last line')
    same_multiset(ctx, [l.split(' = ', 1)[-1] for l in ls[:-1]], want, 'hashes')
    cleared = pp.ClearActivities().execute(res)
    ctx.check(len(cleared.get_value_or_throw('activities')) == 0 and len(cleared.get_value_or_throw('repeat_sets')) == 0, 'cleared activities')
    for k in ('traces_activities', 'patterns'):
        v = cleared.get_value_or_throw(k)
        ctx.check([len(x) for x in v] == [0] * len(b.names), 'cleared ' + k)
    ctx.check(cleared.get_value_or_throw('log') is b.log, 'cleared: the log')


def k_inst(ctx, cfg, b, R):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    cl = class_lists(ctx, b.names)
    tree = Tree(ctx, b, [(0, 0, 1), (0, 1, 1)], cl)
    nodes, roots = list(tree.nodes), list(tree.roots)
    if cfg.get('twins'):
        # the same activities found again on another level
        other = Tree(ctx, b, [(0, 0, 1), (0, 1, 1)], cl, level=1)
        nodes += other.nodes
        roots += other.roots
    only = cfg['only']
    ch = symbolic_instances(ctx, [len(b.names[i]) for i in only], nodes, cfg['maxn'])
    insts = [[] for _ in b.names]
    for i, c in zip(only, ch):
        insts[i] = c
    j = 0
    for i, g in enumerate(cfg.get('given', ())):
        for x in g:
            insts[i].append((ctx.index('g%d' % j, len(nodes)) if j < 2 else j % len(nodes), *x))
            j += 1
    infos = to_infos(insts, nodes)
    snap = b.snapshot()
    res = R().with_log(b.log).with_activities(roots).with_trace_activities(infos)
    # unattached events
    un = {}
    total = left = 0
    for names, ct, ins in zip(b.names, cl, insts):
        for k, (n, c_) in enumerate(zip(names, ct)):
            total += 1
            if not any(s <= k < s + l for _, s, l in ins):
                left += 1
                un.setdefault(c_, n)
    with textsym.capture(ctx) as c:
        pp.PrintUnattachedEvents().execute(res)
        text = c.printed()
    ctx.check(text[:1] == '[' and text[-2:] == ']\n', 'unattached events: a list')
    body = text[1:-2]
    if un:
        same_multiset(ctx, body.split(', '), [ctx.const("'") + n + "'" for n in un.values()], 'unattached events')
    else:
        ctx.check(body == '', 'unattached events: none')
    with textsym.capture(ctx) as c:
        pp.CalculatePercentageOfUnattachedEvents().execute(res)
        text = plain(c.printed())
    m = re.findall(r'\d+\.?\d*(?:[eE][-+]?\d+)?', text)
    if total:
        ctx.check(len(m) == 1 and abs(float(m[0]) - left / total) < 1e-9, 'share of unattached events: %r' % text)
    else:
        ctx.check(not m and text != '', 'share of unattached events of an empty log')
    used = []
    for t in infos:
        for x in t:
            if not any(x.node is n for n in used):
                used.append(x.node)
    for path in ('inst.txt', lambda: 'made.txt'):
        with textsym.capture(ctx) as c:
            pp.SaveAllActivitiesInstancesNames(path).execute(res)
            text = c.file('inst.txt' if type(path) is str else 'made.txt')
        ls = lines(text)
        ctx.check(bool(ls[-1] == ''), 'instance names: last line')
        same_multiset(ctx, ls[:-1], [ctx.const(n.unique_name()) + '=' + n.name for n in used], 'instance names')
    with textsym.capture(ctx) as c:
        pp.WriteActivitiesInstancesIndices('ind.txt').execute(res)
        text = c.file('ind.txt')
    want = ''
    for i, t in enumerate(infos):
        want += 'Trace %d\n' % i
        for x in t:
            want += '(%s, %d, %d)\n' % (x.node.unique_name(), x.start_pos, x.length)
        want += '\n'
    ctx.check(text == want, 'indices of instances')
    b.check_untouched(snap)
    out = pp.AddActivityNameToAllEvents().execute(res)
    got = out.get_value_or_throw('log')
    ctx.check(len(got) == len(b.events), 'activity names of events: traces')
    for tr, ev, st, ins in zip(got, b.events, snap, insts):
        ctx.check(len(tr) == len(ev), 'activity names of events: events')
        for k, (g, e, (_, p)) in enumerate(zip(tr, ev, st)):
            cover = [nodes[n].unique_name() for n, s, l in ins if s <= k < s + l]
            p = dict(p)
            if cover:
                p['activity'] = cover[0]
            ctx.check(same_payload(ctx, g.payload, p), 'activity name of an event')


def k_entropy(ctx, cfg, b, R):
    from ficus.legacy.pipelines.filtering import filter_parts as fp
    from ficus.legacy.pipelines.analysis.analysis_parts import DrawPosEntropyHistogram
    from ficus.legacy.filtering import event_log_filters as ef
    from ficus.legacy.analysis.event_log_analysis_entropy import calculate_position_entropies
    import matplotlib.pyplot as plt
    b.classes()
    calls = []
    old = plt.plot
    plt.plot = lambda *a, **k: calls.append((a, k))
    try:
        kind = ctx.choose('metric', list(ef.TillEndFilteringMetricKind))
        for part, fn in ((fp.DrawPosEntropyDirectTillEndFilteringDiagram, ef.filter_events_pos_entropy_direct_till_end),
                         (fp.DrawPosEntropyIndirectTillEndFilteringDiagram, ef.filter_events_pos_entropy_indirect_till_end)):
            del calls[:]
            out = part(kind).execute(R().with_log(b.log))
            ctx.check(out.get_value_or_throw('log') is b.log, 'till-end diagram: the log was replaced')
            ctx.check(len(calls) == 1, 'till-end diagram: one curve')
            got = [float(x) for x in calls[0][0][-1]]
            want = [float(x[1]) for x in fn(b.log, metric_kind=kind, untouchable_event_func=ef.default_untouchable_func)]
            ctx.check(len(got) == len(want) and all(abs(x - y) < 1e-9 or x != x and y != y for x, y in zip(got, want)), 'till-end diagram: values')
    finally:
        plt.plot = old
    drawsym.begin()
    DrawPosEntropyHistogram().execute(R().with_log(b.log))
    figs = drawsym.STATE['figs']
    ctx.check(len(figs) == 1 and len(figs[0].axes) == 1 and len(figs[0].axes[0].hists) == 1, 'histogram of position entropies')
    got = sorted(float(x) for x in figs[0].axes[0].hists[0][0])
    want = sorted(float(x) for x in calculate_position_entropies(b.log).values())
    ctx.check(len(got) == len(want) and all(abs(x - y) < 1e-9 for x, y in zip(got, want)), 'histogram of position entropies: values')
