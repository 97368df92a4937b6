"""Rust backend: XES logs are read back as they were written."""
from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available; quick-xml is replaced by a small reader and writer of the same interface, so that what is checked is the backend\'s use of it; dates are written as numbers',
               'Rust: names are opaque in the symbolic build, with one of five endings (none, markup characters, entities, spaces); witnesses are replayed with real strings; names differ from the texts the format reserves',
               'attributes that contain attributes, classifiers without keys or with spaces in them, globals without defaults, unsigned numbers above the signed range and bare timestamps are left out',
               'Rust: standard hash maps iterate in the orders of the explored hash seeds, other orders are not explored']
BOUNDS_TEXT = ('Rust code: writing and reading logs of up to 2 extensions, classifiers, properties and globals and up to 3 events in up to 3 traces with up to 2 attributes each of 14 values of all kinds, with up to 4 names that may be any, and equal or not, in all places (later places repeat them); documents of a header of up to 2 elements (15 forms) and up to 2 events '
               '(8 forms) in up to 2 traces, cut off after any element in three ways; up to 3 changes of an event, up to 2 edits of a log; thorough: more of each')
RUST = Driver('xml', ['event_log::xes', 'utils::xml_utils'])
# seconds of the least date
MIN = -8334632851200
ENDS = ['', '&<"\'>', '&amp;', ' x ', '\u00e9/>']
VALUES = [('string', None), ('date', 5), ('bool', 0), ('bool', 1), ('int32', -7), ('int', -2 ** 63), ('int', 0), ('uint32', 2 ** 32 - 1), ('uint64', 2 ** 63 - 1), ('float32', '0.5'), ('float', '-1.5e300'),
          ('guid', 77), ('braf', 'Completed'), ('standard', None)]


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []
    def end(k): return (0, 1, 2, 4)[k % 4]

    def add(mode, **kw):
        out.append(dict({'name': '%s%d' % (mode, len(out)), 'mode': mode, 'seed': len(out) % 2, 'free': 5 if t else 4}, **kw))
    for e in range(5):
        # extensions, classifiers by keys, properties, globals by defaults, events by attributes
        for head in ((1, (), 0, ()), (0, (2,), 0, ()), (0, (), 1, ()), (0, (), 0, (1,)), (2, (1,), 0, ()), (0, (), 2, ()), (0, (1, 1), 0, (1,))):
            if e != 3 or not head[1]:
                add('trip', end=e, head=head, log=(), **({'free': 2} if head[2] == 2 else {}))
        for log in (((0,),), ((1,),), ((0, 0),), ((0,), (), (0,)), ((), ), ((0, 1), ())):
            add('trip', end=e, head=(0, (), 0, ()), log=log, free=3)
        add('trip', end=e, head=(0, (), 0, (1,)), log=((1,),), values=(0, 1, 6))
        add('trip', end=e, head=(0, (), 0, (2,)), log=((0, 1),), values=(0, 3))
        add('trip', end=e, head=(0, (), 0, ()), log=((2,),), values=(0, 1, 4, 12), free=3)
        add('trip', end=e, head=(1, (1,) if e != 3 else (), 1, (1, 1)), log=((1,), (0,)), values=(0,), free=3)
        if t:
            add('trip', end=e, head=(0, (), 2, (2,)), log=((1, 1), (2,)), values=(0, 9), free=3)
            add('trip', end=e, head=(2, (2, 1) if e != 3 else (), 1, ()), log=((1,), (1,), (0, 0)), values=(0, 5), free=3)
    for h in range(len(HEADS)):
        add('doc', end=end(h), head=[h], traces=())
        add('doc', end=end(h + 1), head=[h], traces=((None,),))
        add('doc', end=end(h + 2), head=[h, None], traces=((0,),) if h % 2 or t else ())
    for k in range(len(EVENTS)):
        add('doc', end=k % 5, head=[], traces=((k, None),))
        add('doc', end=(k + 1) % 5, head=[5], traces=((k,), (None,)))
        if t:
            add('doc', end=k % 5, head=[None], traces=((k,), (None,)))
            add('doc', end=k % 5, head=[6], traces=((k, None, 0),))
    for h in range(len(HEADS)):
        add('doc', end=0, head=[h], traces=((0, 1), (0,)), cut=True)
    add('doc', end=1, head=[0, None], traces=(), cut=True)
    add('doc', end=1, head=[], traces=((None, None),), cut=True)
    for n in (0, 1, 2) + ((3,) if t else ()):
        for fresh in (0, 1, 2):
            add('event', steps=n, start=fresh)
    add('event', steps=3, start=1, free=3)
    for s, n in (((), 1), ((2,), 1), ((1, 1), 1), ((2, 1), 1), ((0, 2), 1), ((3,), 1), ((1,), 2), ((2,), 2), ((1, 1), 2)) + ((((2, 1), 2), ((2, 2), 1)) if t else ()):
        add('edit', log=[[0] * k for k in s], steps=n, free=5 if sum(s) < 3 or t else 4)
    add('absent')
    return out


class World:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.names, self.args = ctx, cfg, [], []
        self.end = ENDS[cfg.get('end', 0)]

    def name(self):
        i, free = len(self.names), self.cfg.get('free', 4)
        x = self.ctx.int('x%d' % i, 0, HI) if i < free else self.names[(3 * i + self.cfg['seed']) % free]
        self.names.append(x)
        self.args.append(El(x))
        return len(self.names) - 1

    def value(self, among=None):
        """(kind, what it is read as)"""
        k = len(self.args)
        kind, v = VALUES[self.ctx.choose('v%d' % k, among or range(len(VALUES)))]
        self.args.append(kind)
        if kind == 'string':
            return ('string', ('name', self.name()))
        if kind in ('braf', 'standard'):
            return ('string', 'Completed' if kind == 'braf' else None)
        self.args.append(v)
        return ({'int32': 'int', 'uint32': 'int', 'uint64': 'int', 'float32': 'float'}.get(kind, kind), v)

    def classify(self):
        self.cls = self.ctx.classes(self.names)

    def id(self, s):
        if not s.endswith(self.end):
            return s
        return RUST.known(s[:len(s) - len(self.end)], self.names, self.cls)

    def same(self, exp, got):
        """a value against the one expected"""
        k, v = exp
        if k != got[0]:
            return False
        if k == 'string':
            return self.id(got[1]) == self.cls[v[1]] if isinstance(v, tuple) else v is None or got[1] == v
        if k == 'float':
            return float(v) == float(got[1])
        if k == 'guid':
            return int(got[1], 16) == v
        return v == got[1]

    def key(self, k):
        return self.cls[k] if isinstance(k, int) else k

    def known(self, s):
        c = self.id(s)
        return c if isinstance(c, int) else s

    def pairs(self, exp, got, what):
        """attributes: the later of the same key counts"""
        want = {}
        for k, v in exp:
            want[self.key(k)] = v
        have = {self.known(k): v for k, v in got}
        self.ctx.check(len(have) == len(got) and set(have) == set(want), '%s: attributes %r, expected %r' % (what, got, want))
        for k, v in want.items():
            self.ctx.check(self.same(v, have[k]), '%s: %r is %r, expected %r' % (what, k, have[k], v))

    def event(self, exp, got, what):
        n, d, p = exp
        name, date, ordered, anyhow = got
        self.ctx.check(self.id(name) == self.key(n) if isinstance(n, int) else name == n, '%s: name %r' % (what, name))
        self.ctx.check(date == d, '%s: time %r, expected %r' % (what, date, d))
        self.pairs(p, ordered, what)
        self.pairs(p, anyhow or [], what + ' (unordered)')

    def traces(self, exp, got, what):
        self.ctx.check([len(t) for t in got] == [len(t) for t in exp], '%s: events per trace %r, expected %r' % (what, [len(t) for t in got], [len(t) for t in exp]))
        for i, (a, b) in enumerate(zip(exp, got)):
            for j, (x, y) in enumerate(zip(a, b)):
                self.event(x, y, '%s: event %d of trace %d' % (what, j, i))
                self.ctx.check([k for k, _ in y[2]] == sorted(k for k, _ in y[2]), 'order of attributes')


def harness(ctx, cfg):
    return {'trip': trip, 'doc': doc, 'event': event, 'edit': edit, 'absent': absent}[cfg['mode']](ctx, cfg)


def absent(ctx, cfg):
    ctx.check(RUST.call(ctx, 'absent', []) == 1, 'a file that is not there gave a log')


def trip(ctx, cfg):
    w = World(ctx, cfg)
    a, among = w.args, cfg.get('values')
    exts, classifiers, props, globs = cfg['head']
    a += [cfg['end'], exts]
    ext = [[w.name() for _ in range(3)] for _ in range(exts)]
    a.append(len(classifiers))
    cl = []
    for n in classifiers:
        x = w.name()
        a.append(n)
        cl.append((x, [w.name() for _ in range(n)]))
    a.append(props)
    pr = []
    for _ in range(props):
        x = w.name()
        pr.append((x, w.value(among)))

    def payload(n):
        a.append(n)
        out = []
        for _ in range(n):
            k = w.name()
            out.append((k, w.value(among)))
        return out
    a.append(len(globs))
    gl = []
    for i, n in enumerate(globs):
        if ctx.bool('of the events%d' % i):
            a.append('event')
            s = 'event'
        else:
            a.append('-')
            s = w.name()
        gl.append((s, payload(n)))
    a.append(len(cfg['log']))
    tr = []
    for t in cfg['log']:
        a.append(len(t))
        tr.append([])
        for n in t:
            x = w.name()
            d = 3 * len(a)
            a.append(d)
            has = 1 if n else len(a) % 2
            a.append(has)
            tr[-1].append((x, d, payload(n) if has else []))
    got, written, again = RUST.call(ctx, 'trip', a, cfg['seed'])
    w.classify()
    ctx.check(written == 1, 'the file is not the text')
    exts, classifiers, props, globs, traces, raw = got
    ctx.check([[w.id(x) for x in e] for e in exts] == [[w.cls[e[0]], w.cls[e[1]], w.cls[e[2]]] for e in ext], 'extensions %r' % exts)
    ctx.check([(w.id(n), [w.id(k) for k in ks]) for n, ks in classifiers] == [(w.cls[n], [w.cls[k] for k in ks]) for n, ks in cl], 'classifiers %r' % classifiers)
    ctx.check(len(props) == len(pr), 'number of properties %r' % len(props))
    for c in set(w.cls):
        ours, theirs = [v for k, v in pr if w.cls[k] == c], [v for k, v in props if w.id(k) == c]
        ctx.check(len(ours) == len(theirs) and all([w.same(x, y) for x, y in zip(ours, theirs)]), 'property %r: %r, expected %r' % (c, theirs, ours))
    want = {}
    for s, d in gl:
        want[w.key(s)] = d
    have = {w.known(s): d for s, d in globs}
    ctx.check(set(want) == set(have) and len(have) == len(globs), 'globals %r' % (globs,))
    for s, d in want.items():
        w.pairs(d, have[s], 'global %r' % s)
    base = want.get('event', [])
    full = [[(n, d, base + p) for n, d, p in t] for t in tr if t]
    w.traces(full, traces, 'read back')
    ctx.check([[w.id(x) for x in t] for t in raw] == [[w.cls[e[0]] for e in t] for t in full], 'names %r' % raw)
    # the order of opaque names is not that of their texts
    if not base and not ctx.symbolic:
        ctx.check(again == 1, 'writing it once more gives another text')


# elements: (kind, tag, [(attribute, 'name' | ('key', text) | ('raw', text))])
def el(tag, *attrs, kind='empty'):
    return (kind, tag, attrs)


def attr(tag, key, value):
    return el(tag, ('key', ('key', key)), ('value', value))


def both(tag, *attrs):
    return [el(tag, *attrs, kind='open'), ('close', tag, ())]


FULL = (('name', 'name'), ('prefix', 'name'), ('uri', 'name'))
DEFAULTS = [attr('string', 'concept:name', 'name'), attr('date', 'time:timestamp', ('raw', '@9000')), attr('int', 'k&0', ('raw', '4')), attr('int', 'k1', ('raw', 'four'))]
HEADS = [
    [el('extension', *FULL)],
    [el('extension', *FULL[:2])],
    both('extension', *FULL[::-1]),
    [el('classifier', ('name', 'name'), ('keys', 'name'), ('more', 'name')), el('classifier', ('name', 'name'))],
    [attr('string', 'k&0', 'name'), attr('int', 'k1', ('raw', 'four')), attr('unknown', 'k1', 'name'), attr('date', 'k2', ('raw', '@2000'))],
    [el('global', ('scope', ('raw', 'event')), kind='open')] + DEFAULTS + [('close', 'global', ())],
    [el('global', ('scope', ('raw', 'event')), kind='open')] + DEFAULTS[2:] + both('unknown') + [('close', 'global', ())],
    [el('global', ('scope', 'name'), kind='open')] + DEFAULTS + [('close', 'global', ())],
    both('log') + both('string', ('key', ('raw', 'k3')), ('value', ('raw', 'text'))),
    [el('extension', ('name', ('raw', '&unknown;')), ('prefix', 'name'), ('uri', 'name')), attr('string', 'k4', ('raw', '&unknown;'))],
    [el('classifier', ('name', 'name'), ('keys', ('raw', 'one&amp;two three')))],
    [attr('float', 'k5', ('raw', '2.5')), attr('boolean', 'k6', ('raw', 'true')), attr('boolean', 'k7', ('raw', 'yes')), attr('id', 'k8', ('raw', '0a'))],
    [el('extension', ('name', ('raw', '&unknown;')), *FULL), el('classifier', ('keys', 'name'), ('name', ('raw', '&unknown;')))],
    [el('extension', *FULL[1:]), el('classifier', ('keys', 'name'))],
    [el('extension', FULL[0], FULL[2])] + both('extension', FULL[1]) + [el('extension')],
]
NAME, DATE = attr('string', 'concept:name', 'name'), attr('date', 'time:timestamp', ('raw', '@7000'))
EVENTS = [
    [NAME, DATE],
    [NAME],
    [DATE, attr('int', 'k1', ('raw', '1'))],
    [attr('int', 'k&0', ('raw', '8')), NAME, attr('int', 'concept:name', ('raw', '1')), DATE, attr('string', 'time:timestamp', ('raw', '@8000')), NAME],
    [DATE, attr('date', 'time:timestamp', ('raw', 'yesterday')), NAME, attr('string', 'k&0', 'name'), attr('string', 'k&0', 'name')],
    [NAME, attr('string', 'k2', ('raw', '&unknown;')), DATE, attr('string', 'k1', ('raw', 'a&#38;b'))],
    [NAME, DATE, el('string', ('key', ('raw', 'k1'))), el('string', ('value', 'name')), el('event')],
    [],
]


def read(tag, value):
    """the value of a raw text"""
    try:
        if tag == 'date':
            return ('date', int(value[1:]) // 1000 - MIN) if value[:1] == '@' else None
        if tag == 'int':
            return ('int', int(value))
        if tag == 'float':
            float(value)
            return ('float', value)
        if tag == 'boolean':
            return ('bool', int(value == 'true')) if value in ('true', 'false') else None
        if tag == 'id':
            return ('guid', int(value, 16))
    except ValueError:
        return None
    return ('string', value) if tag == 'string' else None


def raw(s):
    for a, b in (('&#38;', '&'), ('&amp;', '&')):
        s = s.replace(a, b)
    return None if s == '&unknown;' else s


class Doc:
    def __init__(self, w):
        self.w, self.toks = w, []

    def put(self, x):
        """writes an element, with new names where it has them"""
        kind, tag, attrs = x
        a = self.w.args
        a += [kind, tag, len(attrs)]
        out = []
        for k, v in attrs:
            a.append(k)
            if v == 'name':
                a.append('name')
                out.append((k, ('name', self.w.name())))
            else:
                a += [v[0], v[1].replace(' ', '~')]
                out.append((k, v[1] if v[0] == 'key' else raw(v[1])))
        self.toks.append((kind, tag, out))

    def read(self):
        """what these elements say"""
        exts, cls, props, globs, traces = [], [], [], {}, []
        glob = trace = event = None
        for kind, tag, attrs in self.toks:
            at = {}
            for k, v in attrs:
                if k not in at:
                    at[k] = v
            value = None
            if 'key' in at and at.get('value') is not None and kind == 'empty':
                v = at['value']
                value = (('string', v) if tag == 'string' else None) if isinstance(v, tuple) else read(tag, v)
            if event is not None:
                if kind == 'close' and tag == 'event':
                    if event[0] is not None and event[1] is not None:
                        trace.append((event[0], event[1], event[2]))
                    event = None
                elif value is not None:
                    self.update(event, at['key'], value)
            elif trace is not None:
                if kind == 'open' and tag == 'event':
                    event = [None, None, []]
                    for k, v in globs.get('event', []):
                        self.update(event, k, v)
                elif kind == 'close' and tag == 'trace':
                    traces.append(trace)
                    trace = None
            elif glob is not None:
                if kind == 'close' and tag == 'global':
                    globs.setdefault(glob[0], glob[1])
                    glob = None
                elif value is not None:
                    glob[1].append((at['key'], value))
            elif kind == 'open' and tag == 'trace':
                trace = []
            elif kind == 'open' and tag == 'global':
                glob = (at.get('scope'), [])
            elif kind == 'close':
                pass
            elif tag == 'extension':
                if all(at.get(k) is not None for k in ('name', 'prefix', 'uri')):
                    exts.append((at['name'], at['prefix'], at['uri']))
            elif tag == 'classifier':
                if all(at.get(k) is not None for k in ('name', 'keys')):
                    cls.append((at['name'], at['keys'] if isinstance(at['keys'], tuple) else at['keys'].split(' ')))
            elif 'key' in at and at.get('value') is not None:
                v = at['value']
                v = (('string', v) if tag == 'string' else None) if isinstance(v, tuple) else read(tag, v)
                if v is not None:
                    props.append((at['key'], v))
        globs.pop(None, None)
        return exts, cls, props, globs, traces, trace

    def update(self, event, key, value):
        if key == 'time:timestamp':
            if value[0] == 'date':
                event[1] = value[1]
        elif key == 'concept:name':
            if value[0] == 'string':
                event[0] = value[1][1] if isinstance(value[1], tuple) else value[1]
        else:
            event[2].append((key, value))


def doc(ctx, cfg):
    w = World(ctx, cfg)
    d = Doc(w)
    todo = [el('log', kind='open')]
    for i, h in enumerate(cfg['head']):
        todo += HEADS[ctx.index('head%d' % i, len(HEADS)) if h is None else h]
    for i, t in enumerate(cfg['traces']):
        todo += [el('trace', kind='open'), attr('string', 'concept:name', 'name')]
        for j, e in enumerate(t):
            todo += [el('event', kind='open')] + EVENTS[ctx.index('event%d_%d' % (i, j), len(EVENTS)) if e is None else e] + [('close', 'event', ())]
        todo.append(('close', 'trace', ()))
    todo.append(('close', 'log', ()))
    cut = 3
    if cfg.get('cut'):
        todo = todo[:ctx.index('cut', len(todo))]
        cut = ctx.index('how', 3)
    w.args += [cfg['end'], len(todo)]
    for x in todo:
        d.put(x)
    got = RUST.call(ctx, 'doc', w.args + [cut], cfg['seed'])
    w.classify()
    ctx.check(got is not None, 'no log')
    exts, classifiers, props, globs, traces, _ = got
    e, c, p, g, t, part = d.read()

    def text(x):
        return w.cls[x[1]] if isinstance(x, tuple) else x

    def seen(s, x):
        return w.id(s) == text(x) if isinstance(x, tuple) else s == x
    ctx.check(len(e) == len(exts) and all([seen(s, x) for a, b in zip(exts, e) for s, x in zip(a, b)]), 'extensions %r, expected %r' % (exts, e))
    ok = len(c) == len(classifiers)
    for (n, ks), (m, ls) in zip(classifiers, c):
        ks = [' '.join(ks)] if isinstance(ls, tuple) else ks
        ls = [ls] if isinstance(ls, tuple) else ls
        ok = ok and seen(n, m) and len(ks) == len(ls) and all([seen(s, x) for s, x in zip(ks, ls)])
    ctx.check(ok, 'classifiers %r, expected %r' % (classifiers, c))
    ctx.check([k for k, _ in props] == [k for k, _ in p] and all([w.same(x, y) for (_, x), (_, y) in zip(p, props)]), 'properties %r, expected %r' % (props, p))
    want = {}
    for s, x in g.items():
        if x:
            want.setdefault(text(s), x)
    have = {w.known(s): x for s, x in globs}
    have = {s: x for s, x in have.items() if x or s in want}
    ctx.check(set(want) == set(have), 'globals %r, expected %r' % (globs, want))
    for s, x in want.items():
        w.pairs(x, have[s], 'global %r' % s)
    if part is not None and len(traces) == len(t) + 1:
        t = t + [part]
    w.traces(t, traces, 'read')


def event(ctx, cfg):
    w = World(ctx, cfg)
    a = w.args
    a.append(min(cfg['start'], 1))
    n, d, p = w.name(), 4, []
    a.append(d)
    if cfg['start']:
        a.append(cfg['start'] - 1)
        for _ in range(cfg['start'] - 1):
            k = w.name()
            p.append((k, w.value((0, 6))))
    old = (n, d, list(p))
    a.append(cfg['steps'])
    for i in range(cfg['steps']):
        o = ctx.index('op%d' % i, 3)
        a.append(o)
        if o == 0:
            n = w.name()
        elif o == 1:
            d = 10 + i
            a.append(d)
        else:
            k = w.name()
            p.append((k, w.value((0, 5))))
    now, before = RUST.call(ctx, 'event', a, cfg['seed'])
    w.classify()
    w.event((n, d, p), now, 'the changed event')
    w.event(old, before, 'the copy')


def edit(ctx, cfg):
    w = World(ctx, cfg)
    a = w.args
    a += [0, 0, 0, 0, len(cfg['log'])]
    tr = []
    x = y = None
    for t in cfg['log']:
        a.append(len(t))
        tr.append([])
        for _ in t:
            n = w.name()
            d = 3 * len(a)
            a += [d, 0]
            tr[-1].append((n, d, []))
    x, y = w.name(), w.name()
    ops = []
    a.append(cfg['steps'])
    for i in range(cfg['steps']):
        o = ctx.index('op%d' % i, 5)
        k = ctx.index('but%d' % i, len(tr)) if o == 4 and tr else 0
        a += [o, k] if o == 4 else [o]
        ops.append((o, k))
    now, old, seen, vecs = RUST.call(ctx, 'edit', a, cfg['seed'])
    w.classify()
    w.traces(tr, old[4], 'the copy')
    log = [[(w.cls[n], d) for n, d, _ in t] for t in tr]
    x, y = w.cls[x], w.cls[y]
    want = [facts(log, x)]
    for o, k in ops:
        if o == 0:
            log = [t for t in [[e for e in t if e[0] != x] for t in log] if t]
        elif o == 2:
            log = [[e for e in t if e[0] != y] for t in log]
        elif o in (1, 3):
            log = [[((y if o == 1 else x) if n == (x if o == 1 else y) else n, d) for n, d in t] for t in log]
        else:
            log = [t for i, t in enumerate(log) if len(t) < 2 and i != k]
        want.append(facts(log, x))
    what = 'after %r' % (ops,)
    got = [[(w.id(n), d) for n, d, _, _ in t] for t in now[4]]
    ctx.check(got == log, '%s: %r, expected %r' % (what, got, log))
    names = [[n for n, _ in t] for t in log]
    ctx.check([[w.id(n) for n in t] for t in now[5]] == names and [[w.id(n) for n in t] for t in vecs] == names, '%s: names' % what)
    ctx.check([[(c, n, list(p)) for c, n, p in s] for s in seen] == want, '%s: counts and positions of %r: %r, expected %r' % (what, x, seen, want))


def facts(log, x):
    return [(sum(n == x for n, _ in t), len(t), [i for i, e in enumerate(t) if e[0] == x]) for t in log]
