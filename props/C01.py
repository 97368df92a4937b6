"""XES writing and reading."""
from .common import *
from . import xmlsym
import os
import tempfile
import shutil
from datetime import datetime, timezone, timedelta

ASSUMPTIONS = ['xml.etree and the file system are trusted (text reaches them through the real escaping code)',
               'texts consist of characters XML can carry, private-use characters excepted', 'classifier keys are non-empty texts without blanks; names of log attributes are '
               'XML names', 'every event and trace carries the attributes that have a global value']
BOUNDS_TEXT = ('logs of up to 3 traces and 4 events; every site (log attribute, extension, classifier, property, global value, trace and event attribute) with symbolic texts '
               'of 0-3 characters over the whole of Unicode that XML allows, symbolic integers of any size, every combination of value types, sample floats and dates; '
               'reading of namespaced files; saving to new, nested and bare paths'
               '; one log of more than 8 traces and one event of more than 8 attributes with a few symbolic values')

FLOATS = (0.1, -0.0, 1e300, -2.5e-7, float('inf'), 3.0, 1.0, 0.1 + 0.2, 1 / 3, 5e-324, 1.7976931348623157e308, 1e16, 123456789.125, float('-inf'))
DATES = (datetime(2020, 1, 2, 3, 4, 5), datetime(1970, 1, 1, 0, 0, 0, 1), datetime(2024, 2, 29, 23, 59, 59, 999999, timezone.utc),
         datetime(2020, 5, 6, 7, 8, 9, tzinfo=timezone(timedelta(hours=-3, minutes=-30))), datetime(1, 1, 1), datetime(9999, 12, 31, 12))


def setup(symbolic):
    import ficus.legacy.log.functions
    import ficus.legacy.pipelines.serialization.pipeline_parts
    import ficus.legacy.pipelines.start.start_parts
    xmlsym.install(symbolic)


def reset():
    xmlsym.reset()


SITES = ('logattr', 'ext', 'extname', 'cls', 'clsname', 'prop', 'propname', 'glob', 'globname', 'gtrace', 'trace', 'tracename', 'event', 'eventname')


def configs(tier):
    t = tier == 'thorough'
    out = []
    for s in SITES:
        out.append({'name': 'text-' + s, 'site': s, 'len': 1, 'kind': 'str'})
        for n in (0, 2):
            out.append({'name': 'text%d-%s' % (n, s), 'site': s, 'len': n, 'kind': 'str', 'narrow': n == 2})
        if t:
            out.append({'name': 'text3-' + s, 'site': s, 'len': 3, 'kind': 'str', 'narrow': True})
            out.append({'name': 'wide2-' + s, 'site': s, 'len': 2, 'kind': 'str'})
    for s in ('prop', 'glob', 'gtrace', 'trace', 'event'):
        for k in ('int', 'bool', 'float', 'date'):
            out.append({'name': '%s-%s' % (k, s), 'site': s, 'kind': k})
    for k in ('str', 'int', 'bool', 'float', 'date', 'mixed'):
        for s in ('event', 'trace'):
            out.append({'name': 'default-%s-%s' % (s, k), 'default': k, 'where': s})
    for s in [(), (0,), (1,), (2,), (0, 1), (1, 0), (2, 1), (1, 1), (1, 2, 1), (0, 0, 1)]:
        out.append({'name': 'shape-' + 'x'.join(map(str, s)), 'shape': list(s)})
    out.append({'name': 'shape-long', 'shape': [1, 26, 0, 2] + [1] * 10})
    out.append({'name': 'big', 'big': 1})
    out.append({'name': 'shape-attrs', 'shape': [2, 1], 'choice': 1})
    for p in ('bare', 'dir', 'nested', 'part', 'over'):
        out.append({'name': 'path-' + p, 'path': p})
    for r in ('ns', 'plain', 'case', 'foreign'):
        out.append({'name': 'read-' + r, 'read': r})
    out.append({'name': 'skip', 'skip': 1})
    out.append({'name': 'missing', 'missing': 1})
    return out


def val(ctx, cfg, tag, kind=None):
    k = kind or cfg['kind']
    if k == 'str':
        rng = ((9, 10), (13, 13), (0x20, 0x7E)) if cfg.get('narrow') else xmlsym.TEXT
        return ctx.name(tag, cfg.get('len', 1), rng)
    if k == 'int':
        return ctx.int(tag, None, None, 5)
    if k == 'bool':
        return ctx.bool(tag)
    if k == 'float':
        return FLOATS[ctx.index(tag, len(FLOATS))]
    return DATES[ctx.index(tag, len(DATES))]


def base():
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    log = MyEventLog()
    log.attributes['xes.version'] = '1.0'
    log.extensions['Time'] = {'prefix': 'time', 'uri': 'http://time'}
    log.classifiers['Name'] = ['concept:name', 'k2']
    log.properties['creator'] = 'me'
    log.global_values['trace'] = {'g:trace': 'tv'}
    log.global_values['event'] = {'g:event': 'ev', 'g:num': 4}
    t = MyTrace([MyEvent({CN: 'a', 'g:event': 'ev', 'g:num': 4, 'n': 1}), MyEvent({CN: 'b', 'g:event': 'other', 'g:num': 5, 'f': 0.5})], {'g:trace': 'tv', CN: 't1'})
    log.append(t)
    log.append(MyTrace([MyEvent({CN: 'c', 'g:event': 'ev', 'g:num': 4, 'flag': True})], {'g:trace': 'x', 'd': DATES[0]}))
    return log


def kindof(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, datetime):
        return 'date'
    if isinstance(v, (list, tuple)):
        return 'list'
    if isinstance(v, dict):
        return 'dict'
    return 'int'


def same_value(ctx, a, b):
    k = kindof(a)
    if k != kindof(b):
        return False
    if k == 'list':
        return len(a) == len(b) and ctx.all([same_value(ctx, x, y) for x, y in zip(a, b)])
    if k == 'dict':
        return same_map(ctx, a, b)
    return a == b


def same_map(ctx, a, b):
    """equal keys and values whatever the order; keys may be symbolic"""
    if len(a) != len(b):
        return False
    res = []
    left = list(b.items())
    for k, v in a.items():
        hit = None
        for i, (k2, v2) in enumerate(left):
            if k is k2 or bool(k == k2):
                hit = i
                break
        if hit is None:
            return False
        r = same_value(ctx, v, left.pop(hit)[1])
        if r is False:
            return False
        res.append(r)
    return ctx.all(res)


def view(log):
    return ([('attributes of the log', dict(log.attributes)), ('extensions', {k: dict(v) for k, v in log.extensions.items()}),
             ('classifiers', {k: list(v) for k, v in log.classifiers.items()}), ('log properties', dict(log.properties)),
             ('global values', {k: dict(v) for k, v in log.global_values.items()})],
            [(dict(t.attributes), [dict(e.payload) for e in t]) for t in log])


def compare(ctx, want, got, what):
    for (n, a), (_, b) in zip(want[0], got[0]):
        ctx.check(same_map(ctx, a, b), '%s: %s differ' % (what, n))
    ctx.check(len(want[1]) == len(got[1]), what + ': number of traces differs')
    for (ta, te), (ga, ge) in zip(want[1], got[1]):
        ctx.check(same_map(ctx, ta, ga), what + ': trace attributes differ')
        ctx.check(len(te) == len(ge), what + ': number of events differs')
        for x, y in zip(te, ge):
            ctx.check(same_map(ctx, x, y), what + ': event attributes differ')


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_c01_', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.cwd = os.getcwd()
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def roundtrip(ctx, log, want=None):
    from ficus.legacy.log.functions import save_event_log_to_xes, read_log_from_xes
    v = view(log)
    with Scratch() as d:
        p = os.path.join(d, 'log.xes')
        save_event_log_to_xes(log, p)
        compare(ctx, v, view(log), 'saving changed the log')
        got = read_log_from_xes(p)
    compare(ctx, want or v, view(got), 'after writing and reading')


def harness(ctx, cfg):
    from ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
    if 'site' in cfg:
        return site(ctx, cfg)
    if 'default' in cfg:
        return default(ctx, cfg)
    if 'shape' in cfg:
        log = MyEventLog()
        k = 0
        for ti, n in enumerate(cfg['shape']):
            t = MyTrace([], {CN: 'trace %d' % ti})
            for i in range(n):
                e = MyEvent({CN: ctx.name('n%d' % k, 1, ((0x20, 0x7E),)) if k < 2 else 'name %d' % k, 'pos': ctx.int('i%d' % k, None, None, k), 'w': k})
                if cfg.get('choice'):
                    if ctx.bool('has%d' % k):
                        e['more'] = 'm%d' % k
                    if ctx.bool('drop%d' % k):
                        del e['pos']
                t.append(e)
                k += 1
            log.append(t)
        return roundtrip(ctx, log)
    if 'big' in cfg:
        # many attributes, long texts, deep maps of every kind
        log = base()
        for i in range(14):
            v = ctx.name('v%d' % i, 1, xmlsym.TEXT) if i in (0, 11) else ctx.const('text %d' % i * (30 if i % 3 else 1))
            k = 'key%d' % i if i else 'k' * 300
            log.properties[k] = v
            log.attributes['l%d' % i] = 'x' * i
            log.extensions['E%d' % i] = {'prefix': 'p%d' % i, 'uri': 'u' * (i + 1)}
            log.classifiers['C%d' % i] = ['k%d' % j for j in range(i + 1)]
            log.global_values['event'][k] = v
            log.global_values['trace'][k] = v
            log[0].attributes[k] = v
            log[1].attributes[k] = i
            for e in [e for t in log for e in t]:
                e[k] = (v, i, i / 4, i % 2 == 0, 'other')[i % 5]
        return roundtrip(ctx, log)
    if 'path' in cfg:
        return path(ctx, cfg)
    if 'read' in cfg:
        return read(ctx, cfg)
    if 'skip' in cfg:
        # values XES attributes cannot carry are left out, everything else stays
        log = base()
        x = ctx.name('x')
        want = view(log)
        want[1][0][1][0]['z'] = x
        log[0][0]['list'] = [1, 2]
        log[0][0]['z'] = x
        log[0].attributes['none'] = None
        log[1][0]['nested'] = {'a': 1}
        from ficus.legacy.log.functions import save_event_log_to_xes, read_log_from_xes
        with Scratch() as d:
            save_event_log_to_xes(log, os.path.join(d, 'l.xes'))
            got = read_log_from_xes(os.path.join(d, 'l.xes'))
        return compare(ctx, want, view(got), 'with values that cannot be written')
    if 'missing' in cfg:
        from ficus.legacy.log.functions import read_log_from_xes
        with Scratch() as d:
            try:
                read_log_from_xes(os.path.join(d, 'nothing.xes'))
            except FileNotFoundError:
                return
        ctx.fail('reading a missing file must raise')


def site(ctx, cfg):
    log = base()
    s = cfg['site']
    v = val(ctx, cfg, 'v')
    if s == 'logattr':
        log.attributes['xes.creator'] = v
    elif s == 'ext':
        log.extensions['Ext'] = {'prefix': v, 'uri': ctx.const('u')}
        log.extensions['Time']['uri'] = v
    elif s == 'extname':
        log.extensions[v] = {'prefix': 'p', 'uri': 'u'}
        ctx.assume(ctx.not_(v == 'Time'))
    elif s == 'cls':
        if len(v) == 0:
            return
        for i in range(cfg['len']):
            ctx.assume(ctx.not_(v[i] == ' '))
        log.classifiers['Two'] = [v, 'k']
        log.classifiers['One'] = [v]
    elif s == 'clsname':
        ctx.assume(ctx.not_(v == 'Name'))
        log.classifiers[v] = ['x', 'y', 'z']
    elif s == 'prop':
        log.properties['p'] = v
    elif s == 'propname':
        ctx.assume(ctx.not_(v == 'creator'))
        log.properties[v] = 'value'
    elif s == 'glob':
        log.global_values['event']['new'] = v
        log[0][0]['new'] = v
        log[0][1]['new'] = val(ctx, cfg, 'w') if cfg['kind'] != 'str' else 'other'
        log[1][0]['new'] = 'text'
    elif s == 'globname':
        if len(v) == 0:
            return
        log.global_values['scope'] = {v: 'value'}
    elif s == 'gtrace':
        log.global_values['trace']['new'] = v
        log[0].attributes['new'] = v
        log[1].attributes['new'] = 7
    elif s == 'trace':
        log[1].attributes['new'] = v
        log[0].attributes['zz'] = v
    elif s == 'tracename':
        ctx.assume(ctx.not_(v == 'd'))
        log[1].attributes[v] = 'value'
    elif s == 'event':
        log[0][1][CN] = v
        log[0][0]['new'] = v
    elif s == 'eventname':
        ctx.assume(ctx.not_(v == 'n'))
        log[1][0][v] = 'value'
        log[0][0][v] = 3
    roundtrip(ctx, log)


def default(ctx, cfg):
    """attributes with a global value: the same value, another value, the same number of another type"""
    log = base()
    k = cfg['default']
    if k == 'mixed':
        pool = [1, True, 1.0, '1', 0, False, 'True', '', 0.0, DATES[0], str(DATES[0])]
        d = pool[ctx.index('d', len(pool))]
        v = pool[ctx.index('v', len(pool))]
    else:
        d = val(ctx, {'len': 1, 'narrow': True}, 'd', k)
        v = val(ctx, {'len': 1, 'narrow': True}, 'v', k)
    if cfg['where'] == 'event':
        log.global_values['event']['x'] = d
        for i, e in enumerate(e for t in log for e in t):
            e['x'] = (v, d, v)[i]
        log[0].attributes['x'] = d
        log[1].attributes['x'] = v
    else:
        log.global_values['trace']['x'] = d
        log[0].attributes['x'] = v
        log[1].attributes['x'] = d
        for e in (log[0][0], log[1][0]):
            e['x'] = d
    log.properties['x'] = d
    roundtrip(ctx, log)


def path(ctx, cfg):
    from ficus.legacy.log.functions import save_event_log_to_xes, read_log_from_xes
    from ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
    from ficus.legacy.pipelines.start.start_parts import ReadLogFromXes
    from ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    log = base()
    log[0][0][CN] = ctx.name('n', 1, xmlsym.TEXT)
    v = view(log)
    with Scratch() as d:
        k = cfg['path']
        os.chdir(d)
        p = {'bare': 'x.xes', 'dir': os.path.join(d, 'x.xes'), 'nested': os.path.join(d, 'a', 'b', 'x.xes'), 'part': 'q/x.xes', 'over': os.path.join(d, 'x.xes')}[k]
        if k == 'over':
            save_event_log_to_xes(base(), p)
            log.traces[1:] = []
            v = view(log)
        if k == 'part':
            r = PipelinePartResult().with_log(log)
            o = SaveEventLogToXes(lambda c: p if c is r else 'wrong').execute(r)
            ctx.check(o is r and o.get_value_or_throw('log') is log, 'saving must pass its input on')
            got = ReadLogFromXes()(p).get_value_or_throw('log')
            for bad in (5, None, log):
                try:
                    ReadLogFromXes()(bad)
                except TypeError:
                    continue
                ctx.fail('the reading part accepts something that is not a path')
        else:
            save_event_log_to_xes(log, p)
            got = read_log_from_xes(p)
        ctx.check(os.path.isfile(os.path.join(d, p)), 'the file was saved to another path')
    compare(ctx, v, view(got), 'after writing and reading')


def read(ctx, cfg):
    from ficus.legacy.log.functions import read_log_from_xes
    k = cfg['read']
    v, w, g = (ctx.name(x, 1, xmlsym.TEXT if x == 'v' else ((0x20, 0x7E),)) for x in 'vwg')
    q = lambda s: xmlsym.quote(ctx, s)
    for x in (v, w, g):
        for c in '\t\n\r':
            ctx.assume(ctx.not_(x == c))
    ns = ' xmlns="http://www.xes-standard.org/"' if k == 'ns' else ''
    tr, fa = {'case': ('TRUE', 'False'), 'foreign': ('1', '0')}.get(k, ('true', 'false'))
    unknown = '<container key="c" value="v"/><id key="i" value="v"/>' if k == 'foreign' else ''
    text = ('<?xml version="1.0" encoding="UTF-8"?>\n<!-- c -->\n<log%s a="1">\n<extension name="E" prefix=%s uri="u"/>\n<global scope="trace"><string key="t" value=%s/></global>\n'
            '<global scope="event"><int key="i" value="3"/><boolean key="b" value="%s"/></global>\n<classifier name="C" keys="x y"/>\n<float key="f" value="2.5"/>\n%s'
            '<trace>\n<string key="n" value=%s/>\n<event><string key="concept:name" value=%s/><boolean key="b" value="%s"/><int key="i" value="-12"/></event>\n'
            '<event><string key="concept:name" value="e2"/><date key="d" value="2020-01-02T03:04:05.000+00:00"/>%s</event>\n</trace>\n<trace><event/></trace>\n</log>'
            ) % (ns, q(w), q(g), tr, unknown, q(w), q(v), fa, unknown)
    with Scratch() as d:
        p = os.path.join(d, 'r.xes')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)
        got = read_log_from_xes(p)
    D = datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)
    want = ([('attributes of the log', {'a': '1'}), ('extensions', {'E': {'prefix': w, 'uri': 'u'}}), ('classifiers', {'C': ['x', 'y']}), ('log properties', {'f': 2.5}),
             ('global values', {'trace': {'t': g}, 'event': {'i': 3, 'b': True}})],
            [({'t': g, 'n': w}, [{CN: v, 'b': False, 'i': -12}, {CN: 'e2', 'd': D, 'i': 3, 'b': True}]), ({'t': g}, [{'i': 3, 'b': True}])])
    compare(ctx, want, view(got), 'reading a file')
