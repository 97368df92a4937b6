"""Rust backend: nets written as PNML."""
import xml.etree.ElementTree as ET
from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available; quick-xml is replaced by a small writer of the same interface, so that what is checked is the backend\'s use of it',
               'Rust: names are opaque in the symbolic build, with one of five endings (none, markup characters, entities, spaces); witnesses are replayed with real strings']
BOUNDS_TEXT = ('Rust code: nets of up to 3 places and 3 transitions with any names, names of transitions shown or not, any arcs of up to 4 candidates (both directions, arcs doubled), ids by number and by name; thorough: 6 candidates')
RUST = Driver('xml', fresh=True, prefixes=['features::discovery::petri_net::pnml', 'utils::xml_utils'])
ENDS = ['', '&<"\'>', '&amp;', ' x ', '\u00e9/>']


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    out = []

    def add(ps, ts, arcs, **kw):
        out.append(dict({'name': 'p%dt%d-%d' % (ps, ts, len(out)), 'p': ps, 't': ts, 'arcs': [list(x) for x in arcs], 'seed': len(out) % 2, 'end': len(out) % 5, 'ab': None, 'shown': None}, **kw))
    for p in range(4):
        for t in range(4):
            add(p, t, (), shown=None if p + t < 4 else [(p + t) % 2, t - 1], ab=None if p + t < 4 else 2)
    n = 6 if tier == 'thorough' else 4
    for p, t in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
        arcs = [(d, a, b) for a in range(p) for b in range(t) for d in (0, 1)]
        for k in range(0, len(arcs), n):
            add(p, t, arcs[k:k + n], ab=None if p + t < 3 else 2, shown=None if p + t < 3 else [k % 3])
        add(p, t, [(0, 0, 0), (0, 0, 0), (1, 0, t - 1), (1, 0, t - 1)], ab=None if p + t < 4 else 2, shown=[0])
        add(p, t, [(1, p - 1, 0), (1, 0, 0), (0, p - 1, t - 1), (0, 0, t - 1)], ab=2, shown=[t - 1])
    return out


def harness(ctx, cfg):
    hi = cfg['ab'] - 1 if cfg['ab'] else HI
    by_name = ctx.bool('by name')
    ps = [ctx.int('p%d' % i, 0, hi) for i in range(cfg['p'])]
    ts = [ctx.int('t%d' % i, 0, hi) for i in range(cfg['t'])]
    shown = {i: ctx.int('s%d' % i, 0, hi) for i in range(cfg['t']) if (i in cfg['shown'] if cfg['shown'] is not None else ctx.bool('shown%d' % i))}
    args = [cfg['end'], int(by_name), len(ps)] + [El(x) for x in ps] + [len(ts)]
    for i, x in enumerate(ts):
        args += [El(x)] + ([1, El(shown[i])] if i in shown else [0])
    arcs = [tuple(a) for i, a in enumerate(cfg['arcs']) if ctx.bool('arc%d' % i)]
    args += [len(arcs)] + [x for a in arcs for x in a]
    text, same, pid, tid, arcids = RUST.call(ctx, 'pnml', args, cfg['seed'])
    vals = ps + ts + list(shown.values())
    cls = ctx.classes(vals)
    pc, tc = cls[:len(ps)], cls[len(ps):len(ps) + len(ts)]
    sc = dict(zip(shown, cls[len(ps) + len(ts):]))
    ctx.check(same == 1, 'the file is not the text')
    end = ENDS[cfg['end']]

    def known(s):
        return RUST.known(s[:len(s) - len(end)], vals, cls) if s is not None and s.endswith(end) else s
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        ctx.check(False, 'not XML: %s' % e)
        return
    ctx.check(root.tag == 'pnml' and [x.tag for x in root] == ['net'], 'one net: %r' % text)
    net = root[0]
    ctx.check({x.tag for x in net} <= {'place', 'transition', 'arc'}, 'elements %r' % text)
    names = {}

    def ident(s, kind):
        if s is None:
            return None
        return known(s) if by_name else s if not s.isdigit() else int(s)
    pn = dict(enumerate(pc)) if by_name else dict(enumerate(pid))
    tn = dict(enumerate(tc)) if by_name else dict(enumerate(tid))
    got = sorted([str(ident(x.get('id'), 'p')) for x in net.findall('place')])
    ctx.check(got == sorted(str(x) for x in pn.values()), 'places %r, expected %r' % (got, pn))
    if not ctx.symbolic and by_name:
        for tag in ('place', 'transition'):
            ids = [x.get('id') for x in net.findall(tag)]
            ctx.check(ids == sorted(ids), 'order of %r' % ids)
    got = []
    for x in net.findall('transition'):
        t = x.findall('name/text')
        ctx.check(len(t) <= 1 and len(list(x)) == len(t), 'names of a transition')
        got.append((str(ident(x.get('id'), 't')), str(known(t[0].text)) if t else 'no'))
    exp = [(str(tn[i]), str(sc[i]) if i in sc else 'no') for i in range(len(ts))]
    ctx.check(sorted(got) == sorted(exp), 'transitions %r, expected %r' % (got, exp))
    # arcs
    exp = []
    for k, (i, o) in enumerate(arcids):
        have = sorted([(0, pid.index(p)) for _, p in i] + [(1, pid.index(p)) for _, p in o])
        ctx.check(have == sorted((d, p) for d, p, t in arcs if t == k), 'arcs of the net')
        for ins, xs in ((True, i), (False, o)):
            for a, p in xs:
                p = pid.index(p)
                s, t = (pn[p], tn[k]) if ins else (tn[k], pn[p])
                exp.append((str(s), str(t), '-' if by_name else str(a)))
    got = []
    ids = []
    for x in net.findall('arc'):
        ids.append(x.get('id'))
        got.append((str(ident(x.get('source'), '')), str(ident(x.get('target'), '')), '-' if by_name else x.get('id')))
        if by_name:
            ctx.check(x.get('id') == '[{%s}--{%s}]' % (x.get('source'), x.get('target')), 'id of an arc %r' % x.get('id'))
    ctx.check(sorted(got) == sorted(exp), 'arcs %r, expected %r' % (got, exp))
    if not by_name:
        ctx.check(len(set(ids)) == len(ids), 'ids of arcs')
