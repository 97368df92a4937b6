"""Conversion to and from pm4py logs."""
from .common import *
import copy

ASSUMPTIONS = ['texts are those XES allows for attribute values']
BOUNDS_TEXT = ('logs of up to 5 events in up to 3 traces (empty ones included), symbolic names, symbolic integer attributes, nested values, a symbolic choice of '
               'which attributes each event carries, trace and log attributes')


def setup(symbolic):
    import ficus.legacy.log.pm4py_converters


def configs(tier):
    x = 1 if tier == 'thorough' else 0
    out = []
    for s in shapes(4 + x, 3, True):
        out.append(tcfg('s' + 'x'.join(map(str, s)), ['S' * k for k in s]))
    out.append(tcfg('len2', ['SS', 'S'], len=2))
    out.append(tcfg('len0', ['SS'], len=0))
    out.append(tcfg('long', ['ab' * 10 + 'S' + 'c' * 10, 'S', '', 'Sb']))
    return out


def snap(x):
    if isinstance(x, dict):
        return ('D', [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, list):
        return ('L', [snap(v) for v in x])
    return ('V', x)


def same(ctx, a, b):
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = [same(ctx, x, y) for x, y in zip(a, b)]
        return False if any(x is False for x in r) else ctx.all(r)
    if isinstance(b, (tuple, list)) or isinstance(a, str) != isinstance(b, str) or (isinstance(a, bool) != isinstance(b, bool)):
        return False
    return a == b


def harness(ctx, cfg):
    from ficus.legacy.log.pm4py_converters import to_pm4py_log, from_pm4py_log, pm4py_event_to_my_event, my_event_to_pm4py_event
    b = LogBuilder(ctx, cfg)
    k = 0
    for ti, t in enumerate(b.log):
        t.attributes['concept:name'] = ctx.name('ta%d' % ti)
        t.attributes['n'] = [ti]
        for e in t:
            e['num'] = ctx.int('num%d' % k, -100, 100)
            if k < 3 and ctx.bool('nested%d' % k):
                e['nested'] = {'children': [k, {'value': [k]}]}
                e['flag'] = True
                e['f'] = 0.5
            if k < 3 and ctx.bool('drop%d' % k):
                del e['x:y']
            k += 1
    log = b.log
    log.attributes['a'] = ctx.name('la')
    log.extensions['Concept'] = {'prefix': 'concept', 'uri': 'u'}
    log.classifiers['c'] = ['k1', 'k2']
    log.properties['p'] = 'v'
    log.global_values['event'] = {'concept:name': 'x'}
    fs = [[snap(e.payload) for e in t] for t in log]
    at = [snap(t.attributes) for t in log]
    hd = [snap(x) for x in (log.attributes, log.extensions, log.classifiers, log.properties, log.global_values)]
    pl = to_pm4py_log(log)

    def unchanged(what):
        ctx.check(same(ctx, [[snap(e.payload) for e in t] for t in log], fs) and same(ctx, [snap(t.attributes) for t in log], at), what)
        ctx.check(same(ctx, [snap(x) for x in (log.attributes, log.extensions, log.classifiers, log.properties, log.global_values)], hd), what)
    unchanged('converting changed the log')
    ctx.check(len(pl) == len(log), 'number of traces changed')
    for t, u in zip(log, pl):
        ctx.check(len(t) == len(u), 'number of events changed')
        for e, p in zip(t, u):
            ctx.check(same(ctx, snap(e.payload), snap(dict(p.items()))), 'an event of the pm4py log differs')
    ps = [[snap(dict(p.items())) for p in u] for u in pl]
    ml = from_pm4py_log(pl)
    ctx.check(same(ctx, [[snap(dict(p.items())) for p in u] for u in pl], ps), 'converting back changed the pm4py log')
    ctx.check(same(ctx, [[snap(e.payload) for e in t] for t in ml], fs), 'converting to pm4py and back changed the events')
    ctx.check(same(ctx, [snap(t.attributes) for t in ml], at), 'converting to pm4py and back changed the attributes of a trace')
    ctx.check(same(ctx, [snap(x) for x in (ml.attributes, ml.extensions, ml.classifiers, ml.properties, ml.global_values)], hd),
              'converting to pm4py and back changed the header data of the log')
    # no shared state
    for t in ml:
        for e in t:
            e['new'] = 1
            if 'nested' in e.payload:
                e['nested']['children'].append(5)
                e['nested']['children'][1]['value'].append(6)
        t.attributes['n'].append(7)
        t.attributes['new'] = 1
    for d in (ml.attributes, ml.extensions, ml.classifiers, ml.properties, ml.global_values):
        d['new'] = 1
    ml.global_values['event']['new'] = 1
    ml.extensions['Concept']['more'] = 1
    ml.classifiers['c'].append('k3')
    ctx.check(same(ctx, [[snap(dict(p.items())) for p in u] for u in pl], ps), 'editing the converted log changed the pm4py log')
    ctx.check(same(ctx, [snap(u.attributes) for u in pl], at) and
              same(ctx, [snap(x) for x in (pl.attributes, pl.extensions, pl.classifiers, pl.properties, pl.omni_present)], hd),
              'editing the converted log changed attributes of the pm4py log')
    for d in (pl.attributes, pl.extensions, pl.classifiers, pl.properties, pl.omni_present):
        d['new'] = 1
    pl.extensions['Concept']['more'] = 1
    pl.classifiers['c'].append('k3')
    pl.omni_present['event']['more'] = 1
    for u in pl:
        u.attributes['n'].append(9)
        u.attributes['new'] = 9
        for p in u:
            p['other'] = 1
            if 'nested' in p:
                p['nested']['children'].append(5)
    unchanged('editing the converted logs changed the original')
    for t in log:
        for e in t:
            p = my_event_to_pm4py_event(e)
            ctx.check(same(ctx, snap(e.payload), snap(dict(p.items()))), 'converting one event changed its attributes')
            ctx.check(same(ctx, snap(pm4py_event_to_my_event(p).payload), snap(e.payload)), 'converting one event back changed its attributes')
