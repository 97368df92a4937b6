"""Copies, equality and hash of events, traces and logs."""
from .common import *
import copy as cp

ASSUMPTIONS = ['attribute values are texts, integers, lists, dicts and nested events; for equal values that are written differently (1 and 1.0, reordered dicts, dates of two zones) 22 values in all pairs at five places']
BOUNDS_TEXT = ('logs of up to 4 events in up to 3 traces (empty ones included) with symbolic names, nested values, trace attributes and all header '
               'maps; events, traces and headers with 0-2 attributes; one modification at every site of either side with a symbolic new value; equality of all pairs of logs with up to 3 events in up to 2 '
               'traces per side; all sequences of up to 3 edits of a copy against a list model'
               '; logs of 8 traces with traces of up to 13 events and a few symbolic names')


def setup(symbolic):
    import ficus.legacy.log.event_log


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in [(), (0,), (1,), (2,), (1, 1), (0, 1), (2, 1), (1, 0, 1), (3, 1)] + ([(2, 2), (4,), (1, 1, 1), (3, 2)] if t else []):
        for mode in ('deep', 'shallow', 'mutdeep', 'mutorig'):
            out.append(tcfg('%s-%s' % (mode, 'x'.join(map(str, s))), ['S' * k for k in s], mode=mode))
    for s in [(), (0,), (1,), (2,), (1, 1), (0, 1), (1, 0), (3,), (2, 1)]:
        for r in [(), (0,), (1,), (2,), (1, 1), (0, 1), (2, 1)]:
            out.append(tcfg('eq-%s-%s' % ('x'.join(map(str, s)), 'x'.join(map(str, r))), ['S' * k for k in s], other=['S' * k for k in r], mode='eq'))
    W = ['Sabcdefghij', '', 'abc', 'S', 'x', 'zz', 'y', 'w']
    for mode in ('deep', 'shallow', 'mutdeep', 'mutorig'):
        out.append(tcfg(mode + '-long', W, mode=mode))
    out.append(tcfg('eq-long', W, other=W, mode='eq'))
    out.append(tcfg('eq-long-last', ['abcdefghijklS', 'x', 'y', 'zzS'], other=['abcdefghijkSS', 'x', 'y', 'zzS'], mode='eq'))
    for f in ('attr', 'ext', 'cls', 'prop', 'missing', 'nested', 'type', 'extra'):
        out.append(tcfg('eqh-' + f, ['SS'], other=['SS'], mode='eqh', field=f))
    for s in range(5):
        out.append(tcfg('eqh-val%d' % s, ['S'], other=['S'], mode='eqh', field='val', site=s))
    out.append(tcfg('len2', ['S', 'S'], other=['S', 'S'], mode='eq', len=2))
    out.append(tcfg('len12', ['SS'], other=['SS'], mode='eq', lens=[1, 2, 0, 2]))
    for s in [(), (0,), (1,), (2,), (0, 1), (1, 1)]:
        out.append({'name': 'small-' + 'x'.join(map(str, s)), 'mode': 'small', 'shape': list(s)})
    for n in range(0, 4 if t else 3):
        for what in ('trace', 'log'):
            for deep in (0, 1):
                out.append(tcfg('ops-%s%d-%d' % (what, n, deep), ['S' * n], mode='ops', what=what, n=n, deep=deep, steps=3))
    return out


def plain_values():
    """values of which many are equal although they are written differently"""
    import datetime as dt
    return [1, 1.0, True, 0, -0.0, False, '1', '1.0', None, (1,), [1], [1.0], {'a': 1, 'b': 2}, {'b': 2.0, 'a': True}, {'a': [1]}, {'a': [True]},
            dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2020, 1, 1, 2, tzinfo=dt.timezone(dt.timedelta(hours=2))), 2 ** 53, 2.0 ** 53,
            {'a', 'b'}, {'b', 'a'}]


def build(ctx, cfg, traces, prefix):
    """names are symbolic; the other values are distinct constants (nested text is hashed through its representation)"""
    from ficus.legacy.log.event_log import MyEvent
    b = LogBuilder(ctx, dict(cfg, traces=traces), prefix)
    k = 0
    for ti, t in enumerate(b.log):
        t.attributes['concept:name'] = 't%d' % ti
        t.attributes['list'] = [ti, [ti + 5]]
        for e in t:
            e['num'] = k
            e['nested'] = [MyEvent({'concept:name': 'nested%d' % k, 'l': [k]}), {'k': [k, 1]}]
            k += 1
    log = b.log
    log.attributes['a'] = ctx.name(prefix + 'ha')
    log.attributes['al'] = ['x']
    log.extensions['Time'] = {'prefix': 'time', 'uri': 'u'}
    log.classifiers['c'] = ['k1', 'k2']
    log.properties['p'] = {'q': [7]}
    log.global_values['event'] = {'g': ctx.name(prefix + 'hg')}
    return b


def parts(log):
    return [('attributes', log.attributes), ('extensions', log.extensions), ('classifiers', log.classifiers), ('properties', log.properties),
            ('global values', log.global_values)]


def freeze(x):
    """structural snapshot (symbolic leaves are immutable)"""
    from ficus.legacy.log.event_log import MyEvent
    if isinstance(x, MyEvent):
        return ('E', freeze(x.payload))
    if isinstance(x, dict):
        return ('D', [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, list):
        return ('L', [freeze(v) for v in x])
    return ('V', x)


def freeze_trace(t):
    return ('T', freeze(list(t)), freeze(t.attributes))


def freeze_log(log):
    return ('G', [freeze_trace(t) for t in log], [freeze(d) for _, d in parts(log)])


def same(ctx, a, b):
    """equality of snapshots as one formula"""
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = [same(ctx, x, y) for x, y in zip(a, b)]
        if any(x is False for x in r):
            return False
        return ctx.all(r)
    if isinstance(b, (tuple, list)) or isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def containers(x, out):
    from ficus.legacy.log.event_log import MyEvent
    if isinstance(x, MyEvent):
        out.append(x)
        containers(x.payload, out)
    elif isinstance(x, dict):
        out.append(x)
        for v in x.values():
            containers(v, out)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            containers(v, out)
    return out


def all_containers(log):
    out = [log]
    for t in log:
        out.append(t)
        out.append(t.raw_events if hasattr(t, 'raw_events') else t)
        containers(t.attributes, out)
        for e in t:
            containers(e, out)
    for _, d in parts(log):
        containers(d, out)
    return out


def disjoint(ctx, a, b, what):
    ids = {id(x) for x in all_containers(a)}
    for x in all_containers(b):
        ctx.check(id(x) not in ids, '%s: the copy shares a mutable %s with the original' % (what, type(x).__name__))


def sites(log, ctx):
    """(kind, container, key) of every place that can be modified"""
    out = []
    for ti, t in enumerate(log):
        out.append((t.attributes, 'concept:name'))
        out.append((t.attributes['list'][1], 0))
        for e in t:
            out.append((e, 'num'))
            out.append((e['nested'][0], 'concept:name'))
            out.append((e['nested'][1]['k'], 0))
    out += [(log.attributes, 'a'), (log.attributes['al'], 0), (log.extensions['Time'], 'prefix'), (log.classifiers['c'], 0), (log.properties['p']['q'], 0),
            (log.global_values['event'], 'g')]
    return out


def harness(ctx, cfg):
    mode = cfg['mode']
    if mode in ('eq', 'eqh'):
        return equality(ctx, cfg)
    if mode == 'ops':
        return ops(ctx, cfg)
    if mode == 'small':
        return small(ctx, cfg)
    b = build(ctx, cfg, cfg['traces'], 'n')
    log = b.log
    fr = freeze_log(log)
    if mode == 'shallow':
        c = cp.copy(log)
        ctx.check(same(ctx, freeze_log(c), fr), 'a shallow copy of a log differs from the log')
        ctx.check(c is not log and c == log and hash(c) == hash(log), 'a shallow copy is not equal to the log')
        for i in range(len(log)):
            ctx.check(c[i] is log[i], 'a shallow copy of a log holds other traces')
            tc = cp.copy(log[i])
            ctx.check(tc is not log[i] and tc == log[i], 'a shallow copy of a trace is not equal to it')
            ctx.check(same(ctx, freeze_trace(tc), freeze_trace(log[i])), 'a shallow copy of a trace differs from the trace')
            for x, y in zip(tc, log[i]):
                ctx.check(x is y, 'a shallow copy of a trace holds other events')
                ec = cp.copy(x)
                ctx.check(ec == x and hash(ec) == hash(x) and same(ctx, freeze(ec), freeze(x)), 'a shallow copy of an event differs from it')
                ec['more'] = 1
                del ec['num']
            tc.attributes['more'] = 1
            if len(tc):
                del tc[0]
            tc.append('extra')
            tc.append('extra')
        for _, d in parts(c):
            d['more'] = 1
        if len(c):
            del c[0]
        c.append(None)
        c.append(None)
        ctx.check(same(ctx, freeze_log(log), fr), 'editing a shallow copy changed the original')
        return
    c = cp.deepcopy(log)
    ctx.check(same(ctx, freeze_log(c), fr), 'a deep copy differs from the log')
    ctx.check(same(ctx, freeze_log(log), fr), 'copying changed the original')
    disjoint(ctx, log, c, 'deep copy of a log')
    if mode == 'deep':
        ctx.check(bool(c == log) and bool(log == c), 'a deep copy does not compare equal to the log')
        ctx.check(not bool(c != log), 'a deep copy compares different from the log')
        ctx.check(hash(c) == hash(log), 'a deep copy has another hash')
        for t, u in zip(log, c):
            tc = cp.deepcopy(t)
            ctx.check(bool(tc == t) and bool(u == t) and hash(tc) == hash(t), 'a deep copy of a trace is not equal to it')
            ctx.check(same(ctx, freeze_trace(tc), freeze_trace(t)), 'a deep copy of a trace differs from it')
            ids = {id(x) for x in containers(list(t), []) + containers(t.attributes, [])}
            ctx.check(not any(id(x) in ids for x in containers(list(tc), []) + containers(tc.attributes, [])), 'a deep copy of a trace shares state with it')
            for e in t:
                ec = cp.deepcopy(e)
                ctx.check(bool(ec == e) and hash(ec) == hash(e) and same(ctx, freeze(ec), freeze(e)), 'a deep copy of an event differs from it')
                ids = {id(x) for x in containers(e, [])}
                ctx.check(not any(id(x) in ids for x in containers(ec, [])), 'a deep copy of an event shares state with it')
        # a copy taken of a copy is as complete
        ctx.check(same(ctx, freeze_log(cp.deepcopy(c)), fr), 'a copy of a copy differs')
        return
    # modify one side, the other must not notice
    side, other = (c, log) if mode == 'mutdeep' else (log, c)
    st = sites(side, ctx)
    k = ctx.index('site', len(st))
    box, key = st[k]
    old = box[key]
    new = ctx.name('new') if isinstance(old, str) else ctx.int('newi', 0, 9)
    box[key] = new
    ctx.check(same(ctx, freeze_log(other), fr), 'modifying one side changed the other')
    in_trace_attr = any(box is t.attributes or box is t.attributes['list'][1] for t in side)
    in_global = box is side.global_values['event']
    if not in_trace_attr and not in_global:
        ctx.check(ctx.iff(bool(side == other), new == old), 'equality after a modification does not follow the contents')


def equality(ctx, cfg):
    from ficus.legacy.log.event_log import MyEvent, MyTrace, MyEventLog
    a = LogBuilder(ctx, cfg, 'n')
    o = LogBuilder(ctx, dict(cfg, traces=cfg['other'], **({'lens': cfg['lens'][2:]} if cfg.get('lens') else {})), 'm')
    for b in (a, o):
        for t in b.log:
            for e in t:
                del e['uid']
                del e['x:y']
                e['num'] = 1
    f = cfg.get('field')
    want = []
    if f == 'attr':
        a.log.attributes['x'], o.log.attributes['x'] = ctx.name('hx'), ctx.name('hy')
        want.append(a.log.attributes['x'] == o.log.attributes['x'])
    elif f == 'ext':
        a.log.extensions['x'], o.log.extensions['x'] = {'uri': ctx.name('hx')}, {'uri': ctx.name('hy')}
        want.append(a.log.extensions['x']['uri'] == o.log.extensions['x']['uri'])
    elif f == 'cls':
        a.log.classifiers['x'], o.log.classifiers['x'] = [ctx.name('hx'), 'k'], [ctx.name('hy'), 'k']
        want.append(a.log.classifiers['x'][0] == o.log.classifiers['x'][0])
    elif f == 'prop':
        a.log.properties['x'], o.log.properties['x'] = ctx.int('hx', 0, 99), ctx.int('hy', 0, 99)
        want.append(a.log.properties['x'] == o.log.properties['x'])
    elif f == 'val':
        vals = plain_values()
        i, j = ctx.index('vi', len(vals)), ctx.index('vj', len(vals))
        for b, v in ((a, vals[i]), (o, plain_values()[j])):
            g = b.log
            [lambda: g[0][0].payload.update(v=v), lambda: g.attributes.update(v=v), lambda: g.properties.update(v=v), lambda: g.extensions.update(v={'uri': v}),
             lambda: g[0][0].payload.update(v=[MyEvent({'w': v})])][cfg['site']]()
        want.append(bool(vals[i] == vals[j]))
    elif f == 'missing':
        o.log[0][1].payload.pop('num')
        want.append(False)
    elif f == 'nested':
        a.log[0][0]['n'], o.log[0][0]['n'] = [MyEvent({'v': ctx.name('hx')})], [MyEvent({'v': ctx.name('hy')})]
        want.append(a.log[0][0]['n'][0]['v'] == o.log[0][0]['n'][0]['v'])
    elif f == 'type':
        e = a.log[0][0]
        for bad in (None, 0, 'x', {}, [], e.payload, a.log[0], a.log):
            ctx.check(not bool(e == bad), 'an event equals something that is not an event')
        for bad in (None, 0, list(a.log[0]), a.log):
            ctx.check(not bool(a.log[0] == bad), 'a trace equals something that is not a trace')
        for bad in (None, 0, list(a.log), a.log[0]):
            ctx.check(not bool(a.log == bad), 'a log equals something that is not a log')
    elif f == 'extra':
        # the attribute name takes part: {'ab': 'c'} is not {'a': 'bc'}
        x, y = MyEvent({'ab': 'c', 'concept:name': a.flat[0]}), MyEvent({'a': 'bc', 'concept:name': a.flat[0]})
        ctx.check(not bool(x == y), 'events with different attributes compare equal')
        x, y = MyEvent({'u': 1, 'v': a.flat[0]}), MyEvent({'v': a.flat[0], 'u': 1})
        ctx.check(bool(x == y) and hash(x) == hash(y), 'the order of attributes decides about equality')
    shape = [len(t) for t in a.names] == [len(t) for t in o.names]
    if shape:
        for x, y in zip(a.names, o.names):
            for n, m in zip(x, y):
                want.append(n == m)
        w = False if any(x is False for x in want) else ctx.all(want)
    else:
        w = False
    got = bool(a.log == o.log)
    ctx.check(ctx.iff(got, w), 'logs must be equal exactly when their contents are')
    ctx.check(ctx.iff(bool(o.log == a.log), got), 'equality of logs is not symmetric')
    ctx.check(bool(a.log != o.log) == (not got), 'inequality of logs contradicts equality')
    if got:
        ctx.check(hash(a.log) == hash(o.log), 'equal logs have different hashes')
    for t, u, tn, un in zip(a.log, o.log, a.names, o.names):
        if f in ('missing', 'nested') or f == 'val' and cfg['site'] in (0, 4):
            if g_eq(ctx, t, u):
                ctx.check(hash(t) == hash(u), 'equal traces have different hashes')
            continue
        w = ctx.all([n == m for n, m in zip(tn, un)]) if len(tn) == len(un) else False
        g = bool(t == u)
        ctx.check(ctx.iff(g, w), 'traces must be equal exactly when their events are')
        if g:
            ctx.check(hash(t) == hash(u), 'equal traces have different hashes')
        for e, x, n, m in zip(t, u, tn, un):
            g = bool(e == x)
            ctx.check(ctx.iff(g, n == m), 'events must be equal exactly when their attributes are')
            if g:
                ctx.check(hash(e) == hash(x), 'equal events have different hashes')


def g_eq(ctx, t, u):
    for e, x in zip(t, u):
        if bool(e == x):
            ctx.check(hash(e) == hash(x), 'equal events have different hashes')
    return bool(t == u)


def small(ctx, cfg):
    """events, traces and headers with hardly any content: 0-2 attributes, chosen by the solver"""
    from ficus.legacy.log.event_log import MyEvent, MyTrace, MyEventLog

    def attrs(tag, vals=None):
        d = {}
        k = ctx.index(tag, 4)
        if k in (1, 3):
            d['concept:name'] = ctx.name(tag + 'n')
        if k in (2, 3):
            d['v'] = (ctx.int(tag + 'i', 0, 9), [1], [], {})[ctx.index(tag + 'k', 4)] if vals is None else vals()
        return d
    few = sum(cfg['shape']) < 2
    traces = [MyTrace([MyEvent(attrs('e%d_%d' % (i, j))) for j in range(n)], {'a': [i]} if ctx.bool('ta%d' % i) else {}) for i, n in enumerate(cfg['shape'])]
    log = MyEventLog(traces)
    if ctx.bool('head'):
        log.attributes['h'] = 'x'
        log.extensions['e'] = {}
        log.classifiers['c'] = []
        log.properties['p'] = [] if few else {}
        log.global_values['g'] = {}
    frs = freeze_log(log)
    deep = ctx.bool('deep')
    how = cp.deepcopy if deep else cp.copy
    c = how(log)
    ctx.check(c is not log and type(c) is type(log) and same(ctx, freeze_log(c), frs), 'a copy of a log differs from it')
    ctx.check(bool(c == log) and hash(c) == hash(log), 'a copy of a log is not equal to it')
    if deep:
        disjoint(ctx, log, c, 'deep copy of a log')
    else:
        for (n, p), (_, q) in zip(parts(log), parts(c)):
            ctx.check(p is not q, 'a shallow copy of a log shares its ' + n)
    c.append(MyTrace())
    for t in list(log):
        ft = freeze_trace(t)
        u = how(t)
        ctx.check(u is not t and type(u) is type(t) and same(ctx, freeze_trace(u), ft) and bool(u == t) and hash(u) == hash(t), 'a copy of a trace differs from it')
        for e in list(t):
            fe = freeze(e)
            x = how(e)
            ctx.check(x is not e and type(x) is type(e) and same(ctx, freeze(x), fe) and bool(x == e) and hash(x) == hash(e), 'a copy of an event differs from it')
            if deep:
                ids = {id(y) for y in containers(e, [])}
                ctx.check(not any(id(y) in ids for y in containers(x, [])), 'a deep copy of an event shares state with it')
            x['new'] = 1
            ctx.check(same(ctx, freeze(e), fe), 'editing a copy of an event changed the event')
        if deep:
            ids = {id(y) for y in containers(list(t), []) + containers(t.attributes, [])}
            ctx.check(not any(id(y) in ids for y in containers(list(u), []) + containers(u.attributes, [])), 'a deep copy of a trace shares state with it')
        u.append(MyEvent())
        u.attributes['new'] = 1
        ctx.check(same(ctx, freeze_trace(t), ft), 'editing a copy of a trace changed the trace')
    ctx.check(same(ctx, freeze_log(log), frs), 'editing copies changed the log')


def position(ctx, tag, n, far):
    """any position, in the first step counted from the end and outside the list as well"""
    return ctx.index(tag + 'f', 2 * n + 4) - n - 2 if far else ctx.index(tag, n)


def fails(ctx, i, model, f):
    try:
        f()
    except IndexError:
        ctx.check(not -len(model) <= i < len(model), 'an existing position is refused')
        return True
    ctx.check(-len(model) <= i < len(model), 'a position outside the list is accepted')
    return False


def ops(ctx, cfg):
    """a copied trace (or log) behaves like an independent list"""
    from ficus.legacy.log.event_log import MyEvent, MyTrace, MyEventLog
    n = cfg['n']
    trace = cfg['what'] == 'trace'
    if trace:
        items = [MyEvent({CN: ctx.name('n%d' % i)}) for i in range(n)]
        obj = MyTrace(list(items))
    else:
        items = [MyTrace([MyEvent({CN: ctx.name('n%d' % i)})]) for i in range(n)]
        obj = MyEventLog(list(items))
    c = cp.deepcopy(obj) if cfg['deep'] else cp.copy(obj)
    ctx.check(len(c) == n, 'the copy has another length')
    model = [c[i] for i in range(n)]
    for s in range(cfg['steps']):
        kinds = ['append', 'set', 'del'] + (['insert'] if trace else [])
        k = kinds[ctx.index('op%d' % s, len(kinds))]
        if k in ('set', 'del') and not model and s:
            continue
        far = s == 0 or cfg['steps'] == 1
        it = MyEvent({CN: 'new%d' % s}) if trace else MyTrace([])
        if k == 'append':
            c.append(it)
            model.append(it)
        elif k == 'set':
            i = position(ctx, 'pos%d_%d' % (s, len(model)), len(model), far)
            if fails(ctx, i, model, lambda: c.__setitem__(i, it)):
                continue
            model[i] = it
        elif k == 'del':
            i = position(ctx, 'pos%d_%d' % (s, len(model)), len(model), far)
            if fails(ctx, i, model, lambda: c.__delitem__(i)):
                continue
            del model[i]
        else:
            i = position(ctx, 'ins%d_%d' % (s, len(model)), len(model) + 1, far)
            c.insert(it, i)
            model.insert(i, it)
    ctx.check(len(c) == len(model), 'wrong length after edits')
    for x, y, i in zip(c, model, range(len(model))):
        ctx.check(x is y and c[i] is y, 'wrong element after edits')
    ctx.check(len(obj) == n and all(obj[i] is items[i] for i in range(n)), 'editing a copy changed the original')
