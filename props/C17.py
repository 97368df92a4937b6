"""Logs per activity."""
from .trees import *

ASSUMPTIONS = ['instances handed in are ordered, disjoint and inside their traces (decided by C14)',
               'activities of different levels have different names']
BOUNDS_TEXT = ('every set of up to 2 ordered disjoint instances in traces of up to 4 events (1 instance in 2-3 trace logs) of 2 activities at '
               'level 0 and 2 at level 1; event classes of both levels symbolic over 2-letter alphabets; desired level 0-2; with and '
               'without adjusting'
               '; traces of up to 12 events with 8 given instances of which three have any activity')


def setup(symbolic):
    import ficus.legacy.pipelines.analysis.patterns.patterns_parts


def configs(tier):
    t = tier == 'thorough'
    out = []
    for part in ('plain', 'promote', 'promote-noadj'):
        out.append(tcfg('%s-long' % part, ['abc', 'xyzxyzxyzxyz', '', 'yzx', 'xxy'], part=part, maxn=0, only=[],
                        given=[[], [(0, 2), (2, 1), (4, 3), (8, 1), (9, 2)], [], [(0, 1), (1, 2)], [(1, 2)]], free=3))
        p = part != 'plain'
        for n in range(0, 4 if p else 4):
            out.append(tcfg('%s-%d' % (part, n), ['abc', 'xyzw'[:n]], part=part, maxn=2 if n < 3 else (1 if not t else 2), only=[1]))
        out.append(tcfg('%s-1x1' % part, ['abc', 'x', 'yz'], part=part, maxn=1, only=[1, 2]))
        out.append(tcfg('%s-sym' % part, ['abc', 'ab'], part=part, maxn=1, only=[1], symcls=2))
        out.append(tcfg('%s-sym0' % part, ['abc', 'abc'], part=part, maxn=1, only=[1], symcls=3))
        if t:
            out.append(tcfg('%s-2x2' % part, ['abc', 'xy', 'zw'], part=part, maxn=2, only=[1, 2]))
    return out


def harness(ctx, cfg):
    from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    b = LogBuilder(ctx, cfg)
    # event classes: c0 (lower case), c1 (upper case), c2
    names0, names1 = [], []
    k = cfg.get('symcls', 0)
    for i, t in enumerate(b.events):
        r0, r1 = [], []
        for j, e in enumerate(t):
            if i == 1 and j < k:
                x = ctx.name('c0_%d' % j, ranges=((97, 99),))
                y = ctx.name('c1_%d' % j, ranges=((65, 66),))
            else:
                x, y = ctx.const('abc'[j % 3]), ctx.const('AAB'[j % 3])
            e['c0'], e['c1'], e['c2'] = x, y, ctx.const('Q')
            r0.append(x)
            r1.append(y)
        names0.append(r0)
        names1.append(r1)
    exts = [lambda e: e['c0'], lambda e: e['c1'], lambda e: e['c2']]
    cl0, cl1 = class_lists(ctx, names0), class_lists(ctx, names1)
    t0 = Tree(ctx, b, [(0, 0, 2), (0, 1, 2)], cl0, level=0, ext=exts[0])
    t1 = Tree(ctx, b, [(0, 0, 1), (0, 2, 1)], cl1, level=1, ext=exts[1])
    nodes = t0.nodes[:2] + t1.nodes[:2]
    only = cfg['only']
    ch = symbolic_instances(ctx, [len(b.names[i]) for i in only], nodes, cfg['maxn'])
    insts = [[] for _ in b.names]
    for i, c in zip(only, ch):
        insts[i] = c
    j = 0
    for i, g in enumerate(cfg.get('given', ())):
        for st, ln in g:
            insts[i].append((ctx.index('g%d' % j, len(nodes)) if j < cfg['free'] else j * 3 % len(nodes), st, ln))
            j += 1
    infos = to_infos(insts, nodes)
    snap = b.snapshot()
    level = ctx.index('level', 3)
    res = PipelinePartResult().with_log(b.log).with_trace_activities(infos)
    if cfg['part'] == 'plain':
        logs = pp.CreateLogsForActivities(level, exts[level]).execute(res).get_value_or_throw('activities_logs')
    else:
        adj = cfg['part'] == 'promote'
        logs = pp.CreateLogsForActivitiesWithPromote(level, exts[:level + 1], adj).execute(res).get_value_or_throw('activities_logs')
    exp = {}
    for ti, t in enumerate(insts):
        for nd, st, ln in t:
            n = nodes[nd]
            ev = b.events[ti][st:st + ln]
            nl = 0 if nd < 2 else 1
            cname = 'c%d' % level
            if cfg['part'] == 'plain':
                if nl != level:
                    continue
                new = [e[cname] for e in ev]
            else:
                if nl > level:
                    continue
                if nl < level:
                    cls = {0: cl0, 1: cl1, 2: [[0] * len(x) for x in b.names]}[level]
                    s = n.repeat_set
                    have = set(cls[s.trace_index][s.first_pos:s.first_pos + s.length])
                    if set(cls[ti][st:st + ln]) != have:
                        continue
                new = [e[cname] for e in ev] if adj else [e[CN] for e in ev]
            exp.setdefault(id(n), (n, []))[1].append((ev, new))
    ctx.check(len(logs) == len(exp), '%d activity logs, expected %d' % (len(logs), len(exp)))
    for n, trs in exp.values():
        lg = None
        for key, v in logs.items():
            if bool(key == n.name):
                lg = v
        ctx.check(lg is not None, 'no log for an activity')
        ctx.check(len(lg) == len(trs), 'activity log has %d traces, expected %d' % (len(lg), len(trs)))
        for tr, (ev, new) in zip(lg, trs):
            ctx.check(len(tr) == len(ev), 'trace of an activity log has %d events, expected %d' % (len(tr), len(ev)))
            for g, e, nn in zip(tr, ev, new):
                q = dict(e.payload)
                q[CN] = nn
                ctx.check(same_payload(ctx, g.payload, q), 'event of an activity log')
    b.check_untouched(snap)
