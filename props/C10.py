"""Merging all traces into one."""
from .common import *

ASSUMPTIONS = ['uuid4 returns pairwise distinct values different from the names of the log (its contract); stand-in with six symbolic digits spread over its text']
BOUNDS_TEXT = ('all logs with up to 5 events in up to 3 traces (empty traces included), any names; longer traces (24-40 events) and '
               '12-trace logs with symbolic events; merging twice in a row')


def setup(symbolic):
    import ficus.legacy.analysis.event_log_split
    import uuid
    if symbolic:
        from symex import instrument
        instrument.HANDLERS[uuid.uuid4] = lambda: STATE['next']()
    else:
        uuid.uuid4 = lambda: STATE['next']()


STATE = {}


class U:
    """stands for a uuid: any digits in the marked places, together different from those of all others"""
    def __init__(self, ctx, n):
        self.var = [ctx.char('uuid%d.%d' % (n, i), ((48, 57),)) for i in range(6)]
        v = self.var
        self.text = '3f2504e' + v[0] + '-4f8' + v[1] + '-4' + v[2] + 'd3-9a0' + v[3] + '-0305e82c33' + v[4] + v[5]

    def __str__(self):
        return self.text

    __repr__ = __str__

    @property
    def hex(self):
        t = self.text
        return t[:8] + t[9:13] + t[14:18] + t[19:23] + t[24:]


def uuids(ctx):
    made = []

    def make():
        u = U(ctx, len(made))
        for w in made:
            ctx.assume(ctx.not_(ctx.all([a == b for a, b in zip(u.var, w.var)])))
        made.append(u)
        return u
    STATE['next'] = make


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    return std_cfgs(tier, 5, 3, extra=x, ab=((2, (7,)),))


def harness(ctx, cfg):
    from ficus.legacy.analysis.event_log_split import merge_all_traces_in_one_log
    b = LogBuilder(ctx, cfg)
    uuids(ctx)
    for t in b.events:
        for e in t:
            e['nested'] = [1, 2]
    snap = b.snapshot()
    seps_all = []
    for rnd in range(2):
        res = merge_all_traces_in_one_log(b.log)
        ctx.check(len(res) == 1, 'result must have exactly one trace')
        tr = res[0]
        i = 0
        seps = []
        for t in b.events:
            for e in t:
                ctx.check(i < len(tr), 'merged trace too short')
                g = tr[i]
                ctx.check(g is not e, 'merged events must be copies')
                ctx.check(g.payload is not e.payload, 'merged events must not share the attribute map')
                ctx.check(same_payload(ctx, g.payload, e.payload), 'event attributes changed or order broken')
                i += 1
            ctx.check(i < len(tr), 'separator missing after a trace')
            seps.append(tr[i][CN])
            i += 1
        ctx.check(i == len(tr), 'superfluous events at the end')
        seps_all += seps
        # mutating the merged log must not reach the original
        for e in tr:
            e['only-in-merge'] = 1
        b.check_untouched(snap)
    seen = []
    for s in seps_all:
        for n in b.flat + seen:
            ctx.check(ctx.not_(s == n), 'separator equals another separator or an event name')
        seen.append(s)
