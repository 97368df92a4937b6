"""Shared log builders and configuration families."""
import itertools

CN = 'concept:name'


def alpha(k):
    return ((97, 97 + k - 1),)


class LogBuilder:
    """Builds an event log from a config:
    cfg['traces']: list of strings, 'S' = symbolic name, any other letter = that constant name
    cfg['alpha']:  size of the alphabet of symbolic names (None: all printable ASCII)
    cfg['len']:    length of a symbolic name (default 1); cfg['lens']: cyclic list of lengths
    """

    def __init__(self, ctx, cfg, prefix='n'):
        from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
        self.ctx, self.cfg = ctx, cfg
        from symex.harness import ASCII
        rng = alpha(cfg['alpha']) if cfg.get('alpha') else tuple(tuple(r) for r in cfg['rng']) if cfg.get('rng') else ASCII
        lens = cfg.get('lens') or [cfg.get('len', 1)]
        k = 0
        uid = 0
        self.names = []
        self.events = []
        self.log = MyEventLog()
        for ti, t in enumerate(cfg['traces']):
            tr = MyTrace()
            tn, te = [], []
            for ch in t:
                if ch == 'S':
                    n = ctx.name('%s%d' % (prefix, k), lens[k % len(lens)], rng)
                    k += 1
                else:
                    n = ctx.const(ch)
                e = MyEvent({CN: n, 'uid': uid, 'x:y': 'v%d' % uid})
                uid += 1
                tn.append(n)
                te.append(e)
                tr.append(e)
            if cfg.get('share') and tr:
                # the same event object once more
                tn.append(tn[0])
                te.append(te[0])
                tr.append(te[0])
            self.names.append(tn)
            self.events.append(te)
            self.log.append(tr)
        self.flat = [n for t in self.names for n in t]
        self.nsym = k

    def classes(self, extra=()):
        """class ids per trace (+ of extra names), decided by forking"""
        c = self.ctx.classes(self.flat + list(extra))
        out, i = [], 0
        for t in self.names:
            out.append(c[i:i + len(t)])
            i += len(t)
        return out, c[i:]

    def snapshot(self):
        return [[(e, dict(e.payload)) for e in t] for t in self.events]

    def check_untouched(self, snap, what='the input log'):
        """the input log has the same traces, event objects and payloads as before"""
        ctx = self.ctx
        ctx.check(len(self.log) == len(snap), what + ': number of traces changed')
        for t, st in zip(self.log, snap):
            ctx.check(len(t) == len(st), what + ': trace length changed')
            for e, (e0, p0) in zip(t, st):
                ctx.check(e is e0, what + ': event object replaced')
                ctx.check(same_payload(ctx, e.payload, p0), what + ': event payload changed')


def same_payload(ctx, p, q):
    if len(p) != len(q) or list(p.keys()) != list(q.keys()):
        return False
    return ctx.all([p[k] == q[k] for k in p])


def shapes(total, max_traces, empties=False, min_total=0):
    """compositions: tuples of trace lengths"""
    out = []
    lo = 0 if empties else 1
    for k in range(0, max_traces + 1):
        for t in itertools.product(range(lo, total + 1), repeat=k):
            if min_total <= sum(t) <= total:
                out.append(t)
    return out


def sym_cfgs(shape_list, **kw):
    out = []
    for s in shape_list:
        c = {'name': 'sym' + 'x'.join(map(str, s)) if s else 'empty', 'traces': ['S' * n for n in s]}
        c.update(kw)
        if 'tag' in kw:
            c['name'] = kw['tag'] + c['name'][3:]
        out.append(c)
    return out


def tcfg(name, traces, **kw):
    c = {'name': name, 'traces': traces}
    c.update(kw)
    return c


def reps(b, cl):
    """class id -> representative name"""
    nm = {}
    for t, ct in zip(b.names, cl):
        for n, k in zip(t, ct):
            nm.setdefault(k, n)
    return nm


class Ids:
    """maps names seen in results back to class ids (None: a name that is not in the log)"""

    def __init__(self, nm, literals=()):
        self.nm, self.lit = nm, literals

    def __call__(self, x):
        for l in self.lit:
            if type(x) is str and x == l:
                return l
        for k, n in self.nm.items():
            if bool(n == x):
                return k
        return None


def std_cfgs(tier, full=6, traces=3, ab=((2, (9,)), (2, (5, 4)), (3, (7,))), longs=True, lens=True, extra=0, long_alpha=None, **kw):
    """the standard families of log shapes; every config gets kw"""
    out = []
    t = tier == 'thorough'
    full += extra
    seen = set()
    for s in shapes(full, traces, True):
        if len(s) <= 1 or sum(s) == full or sum(s) <= 3 or (sum(s) >= full - 1 and 0 not in s):
            if s.count(0) > 1 and sum(s) > 2:
                continue
            seen.add(s)
            out.append(tcfg('full' + 'x'.join(map(str, s)), ['S' * k for k in s], **kw))
    for k, s in ab:
        out.append(tcfg('ab%d-%s' % (k, 'x'.join(map(str, s))), ['S' * n for n in s], alpha=k, **kw))
    if lens:
        out.append(tcfg('len2', ['SS', 'S'], len=2, **kw))
        out.append(tcfg('len012', ['SSSS'], lens=[0, 1, 2, 1], **kw))
        out.append(tcfg('len3', ['SS'], len=3, **kw))
    if longs:
        base = kw
        kw = dict(kw, alpha=long_alpha) if long_alpha else kw
        out.append(tcfg('long24', ['abcabdSbcaabcSaaabbbScda'], **kw))
        out.append(tcfg('long40', ['ab' * 10 + 'S' + 'abc' * 5 + 'S' + 'aa'], **kw))
        out.append(tcfg('many12', ['ab', 'aS', 'a', 'bSc', '', 'ab', 'abc', 'S', 'ba', 'aab', 'c', 'abcd'], **kw))
        out.append(tcfg('same30', ['a' * 29 + 'S', 'a'], **kw))
        kw = base
    out.sort(key=lambda c: sum(len(x) for x in c['traces']) if c['name'].startswith('full') else 99)
    return out


def attach_classes(ctx, b, cfg, attr='cls', length=1):
    """gives every event a symbolic class independent of its name; returns (extractor, class names per trace)"""
    rng = alpha(cfg['alpha']) if cfg.get('alpha') else ((33, 126),)
    names = [[ctx.name('%s%d_%d' % (attr, i, j), length, rng) for j in range(len(t))] for i, t in enumerate(b.names)]
    for t, ct in zip(b.events, names):
        for e, c in zip(t, ct):
            e[attr] = c
    return (lambda e: e[attr]), names


def class_lists(ctx, names, extra=None):
    """class ids per trace, decided by forking"""
    c = ctx.classes([n for t in names for n in t])
    out, i = [], 0
    for t in names:
        out.append(c[i:i + len(t)])
        i += len(t)
    return out


# ---- uuid4 as a counter (its contract: never the same again, never the name of an event)
_ctr = [0]


class CountingUuid:
    def __init__(self):
        _ctr[0] += 1
        self.n = _ctr[0]

    def __str__(self):
        return '00000000-0000-4000-8000-%012d' % self.n

    __repr__ = __str__

    @property
    def hex(self):
        return str(self).replace('-', '')


def counting_uuid(symbolic):
    if symbolic:
        import uuid
        from symex import instrument
        instrument.HANDLERS[uuid.uuid4] = CountingUuid


def reset_uuid():
    _ctr[0] = 0
