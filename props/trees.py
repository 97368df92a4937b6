"""helpers shared by the activity checks"""
from .common import *


class Tree:
    """activity tree built by the real code from given sub-arrays of the log; node sets as class ids"""

    def __init__(self, ctx, b, subs, cl, level=0, ext=None, log=None, name_creator=None):
        from ficus.legacy.analysis.common.common_models import SubArrayInEventLog
        from ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
        from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
        given = [[] for _ in b.names]
        for ti, st, ln in subs:
            given[ti].append(SubArrayInEventLog(first_pos=st, length=ln))
        res = PipelinePartResult().with_log(b.log).with_patterns(given)
        res = pp.DiscoverRepeatsSets(ext).execute(res)
        kw = {} if name_creator is None else {'activity_name_creator': name_creator}
        res = pp.DiscoverActivities(level, ext, **kw).execute(res)
        self.res = res
        self.roots = res.get_value_or_throw('activities')
        self.cl = cl
        self.nodes = []
        self.root_of = {}
        for r in self.roots:
            self._add(r, r)

    @classmethod
    def of(cls, ctx, b, spec, cl, ext=None):
        """tree put together by hand: spec = [((trace, start, length), [children])]; every node comes from the real code"""
        def make(s):
            t = cls(ctx, b, [s[0]], cl, ext=ext)
            for c in s[1]:
                t.roots[0].child_nodes.append(make(c))
            return t.roots[0]
        roots = [make(s) for s in spec]
        t = cls(ctx, b, [], cl, ext=ext)
        t.roots = roots
        t.res = t.res.with_activities(roots)
        for r in roots:
            t._add(r, r)
        return t

    def _add(self, n, r):
        self.nodes.append(n)
        self.root_of[id(n)] = r
        for c in n.child_nodes:
            self._add(c, r)

    def classes(self, n):
        s = n.repeat_set
        return frozenset(self.cl[s.trace_index][s.first_pos:s.first_pos + s.length])

    def known(self, n):
        return any(n is x for x in self.nodes)


def symbolic_instances(ctx, lens, nodes, maxn, tag='i', forbid_gap0=False):
    """arbitrary ordered disjoint instances: per trace up to maxn intervals; returns [[(node index, start, length)]]"""
    out = []
    for ti, n in enumerate(lens):
        cur, pos = [], 0
        for k in range(maxn):
            if pos >= n:
                break
            # 0: no more, else start/len
            st = ctx.index('%s%d_%ds' % (tag, ti, k), n - pos + 1)
            if st == 0:
                break
            st = pos + st - 1
            ln = 1 + ctx.index('%s%d_%dl' % (tag, ti, k), n - st)
            nd = ctx.index('%s%d_%dn' % (tag, ti, k), len(nodes)) if len(nodes) > 1 else 0
            cur.append((nd, st, ln))
            pos = st + ln
        out.append(cur)
    return out


def to_infos(inst, nodes):
    from ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo
    return [[ActivityInTraceInfo(node=nodes[n], start_pos=s, length=l) for n, s, l in t] for t in inst]
