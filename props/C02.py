"""Plain-text export and import."""
from .common import *
from symex.harness import ASCII

WIDE = ((9, 13), (0x20, 0x7E), (0x85, 0x85), (0xA0, 0xFF), (0x2028, 0x2029))
ASSUMPTIONS = []
BOUNDS_TEXT = ('all logs with up to 3 traces and 5 events, names of 0-3 symbolic characters; default separators and symbolic separators of 1-3 characters for '
               'events, traces and logs; lists of up to 3 logs; texts of up to 6 symbolic characters for the parser; 24-40 event logs')


def setup(symbolic):
    import ficus.legacy.log.functions


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in shapes(6 if t else 5, 3, True):
        out.append({'name': 'ser-' + 'x'.join(map(str, s)), 'op': 'ser', 'traces': ['S' * n for n in s]})
    for L in (0, 2, 3):
        out.append({'name': 'ser-len%d' % L, 'op': 'ser', 'traces': ['SS', '', 'S'], 'len': L})
    out.append({'name': 'ser-long', 'op': 'ser', 'traces': ['abcSabSbaSacaaab', 'ab', '', 'S', 'abcab'], 'lens': [1, 2, 0]})
    for s in ([], [[]], [[1]], [[1], [1]], [[1, 0], []], [[], [2]], [[0], [0]], [[1], [0, 1], [1]], [[], [], []], [[2, 1], [1, 2]]):
        out.append({'name': 'logs-' + '_'.join('x'.join(map(str, l)) for l in s), 'op': 'logs', 'logs': s})
    n = 7 if t else 6
    for L in range(0, n):
        for k in (1, 2) + ((3,) if L < 5 else ()):
            if L <= (5 if k == 1 else 4) or t:
                out.append({'name': 'parse-%d-%d' % (L, k), 'op': 'parse', 'len': L, 'sep': k})
        out.append({'name': 'parsedef-%d' % L, 'op': 'parse', 'len': L, 'sep': 0})
    for s in shapes(4, 3, False):
        if s:
            for k in (0, 1, 2):
                out.append({'name': 'rt-%s-%d' % ('x'.join(map(str, s)), k), 'op': 'rt', 'traces': ['S' * x for x in s], 'sep': k, 'lens': [1, 2] if k else [2, 1]})
    out.append({'name': 'lines', 'op': 'lines'})
    return out


def cat(parts):
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r


def expected(ctx, names, ts, es):
    parts = [ctx.const('')]
    for i, t in enumerate(names):
        if i:
            parts.append(ts)
        for j, n in enumerate(t):
            if j:
                parts.append(es)
            parts.append(n)
    return cat(parts)


def seps(ctx, tag):
    """(the three separators, keyword arguments)"""
    return [(ctx.name(tag + x, k)) for x, k in zip('elt', (1, 2, 1))]


def split(ctx, s, sep):
    """the reference: leftmost, non-overlapping"""
    out, cur, i = [], [], 0
    while i < len(s):
        if i + len(sep) <= len(s) and bool(ctx.all([s[i + j] == sep[j] for j in range(len(sep))])):
            out.append(cur)
            cur = []
            i += len(sep)
        else:
            cur.append(s[i])
            i += 1
    out.append(cur)
    return [cat([ctx.const('')] + p) for p in out]


def check_trace(ctx, t, names, what):
    from ficus.legacy.log.event_log import MyTrace
    ctx.check(len(t) == len(names), '%s: %d events, expected %d' % (what, len(t), len(names)))
    for e, n in zip(t, names):
        ctx.check(list(e.payload.keys()) == [CN], what + ': an event carries other attributes than its name')
        ctx.check(e[CN] == n, what + ': wrong name')


def harness(ctx, cfg):
    from ficus.legacy.log import functions as f
    op = cfg['op']
    if op == 'ser':
        b = LogBuilder(ctx, cfg)
        snap = b.snapshot()
        e, l, t = seps(ctx, 'sep')
        ctx.check(f.serialize_log(b.log) == expected(ctx, b.names, '\n', ','), 'text of a log')
        ctx.check(f.serialize_log(b.log, t, e) == expected(ctx, b.names, t, e), 'text of a log with own separators')
        ctx.check(f.serialize_log(b.log, events_separator=l) == expected(ctx, b.names, '\n', l), 'text of a log with own event separator')
        ctx.check(f.serialize_log(b.log, traces_separator=l) == expected(ctx, b.names, l, ','), 'text of a log with own trace separator')
        b.check_untouched(snap)
        return
    if op == 'logs':
        bs = [LogBuilder(ctx, {'traces': ['S' * n for n in s]}, 'l%d_' % i) for i, s in enumerate(cfg['logs'])]
        snaps = [b.snapshot() for b in bs]
        e, l, t = seps(ctx, 'sep')
        given = [b.log for b in bs]
        for kw, (L, T, E) in (({}, ('\n\n', '\n', ',')), (dict(logs_separator=l, traces_separator=t, events_separator=e), (l, t, e))):
            want = [ctx.const('')]
            for i, b in enumerate(bs):
                if i:
                    want.append(L)
                want.append(expected(ctx, b.names, T, E))
            ctx.check(f.serialize_logs(given, **kw) == cat(want), 'text of several logs')
        ctx.check(len(given) == len(bs) and all(x is b.log for x, b in zip(given, bs)), 'the list of logs changed')
        for b, s in zip(bs, snaps):
            b.check_untouched(s)
        return
    if op == 'parse':
        s = ctx.name('s', cfg['len'], WIDE)
        sep = ctx.name('p', cfg['sep'], WIDE) if cfg['sep'] else ','
        kw = {'separator': sep} if cfg['sep'] else {}
        want = split(ctx, s, sep)
        check_trace(ctx, f.parse_trace_from_string(s, **kw), want, 'parsing a trace')
        r = f.parse_log_from_string(s, **kw)
        ctx.check(len(r) == 1, 'parsing a text must give a log of one trace')
        check_trace(ctx, r[0], want, 'parsing a log')
        return
    if op == 'rt':
        sep = ctx.name('p', cfg['sep']) if cfg['sep'] else ','
        kw = {'separator': sep} if cfg['sep'] else {}
        b = LogBuilder(ctx, cfg)
        # names hold no character of the separator
        for n in b.flat:
            for i in range(len(n)):
                for j in range(len(sep)):
                    ctx.assume(ctx.not_(n[i] == sep[j]))
        lines = []
        for t in b.names:
            lines.append(cat([x for i, n in enumerate(t) for x in ([sep, n] if i else [n])]))
        given = list(lines)
        r = f.parse_log_from_strings(lines, **kw)
        ctx.check(len(lines) == len(given) and all(x is y for x, y in zip(lines, given)), 'the list of texts changed')
        ctx.check(len(r) == len(b.names), 'number of traces')
        for t, n in zip(r, b.names):
            check_trace(ctx, t, n, 'loading lists of names')
        if cfg['sep'] == 0:
            # the export of one trace loads back
            one = f.parse_log_from_strings([f.serialize_log(x) for x in [single(t) for t in b.log]])
            for t, n in zip(one, b.names):
                check_trace(ctx, t, n, 'loading exported traces')
        return
    if op == 'lines':
        for n in (0, 1, 3):
            xs = [ctx.name('x%d_%d' % (n, i), 2, WIDE) for i in range(n)]
            r = f.parse_log_from_strings(xs, ctx.const('|'))
            ctx.check(len(r) == n, 'number of traces')
            for t, x in zip(r, xs):
                check_trace(ctx, t, split(ctx, x, '|'), 'loading lists of names')


def single(trace):
    from ficus.legacy.log.event_log import MyEventLog
    log = MyEventLog()
    log.append(trace)
    return log
