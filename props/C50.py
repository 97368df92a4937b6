"""Rust backend: the graph the discovered graphs are made of."""
from .rustlog import *
from .rustlog import Driver

ASSUMPTIONS = ['Rust: stand-ins replace the crates that are not available', 'a set that is merged has only nodes of the graph',
               'Rust: standard hash maps iterate in the orders of the explored hash seeds, other orders are not explored']
BOUNDS_TEXT = ('Rust code: graphs of up to 3 nodes with any edges among them (3 with any of 8, 4 with any of 5 and 2 more for a merge), data there or not; then every sequence of up to 2 operations (connect, disconnect, merge of any set) with any arguments, ids of no node included; '
               'thorough: 4 nodes with any of 9 edges, 3 operations')
RUST = Driver('graphs', fresh=True, prefixes=['utils::graph'])


def setup(symbolic):
    RUST.setup(symbolic)


def configs(tier):
    t = tier == 'thorough'
    out = []

    def add(n, free, ops, fixed=()):
        out.append({'name': 'n%d-%d-%s%d' % (n, len(free), ops or 'none', len(out)), 'n': n, 'free': [list(e) for e in free], 'fixed': [list(e) for e in fixed], 'ops': ops, 'seed': len(out) % 3})
    full = lambda n: [(a, b) for a in range(n) for b in range(n)]
    three = [(0, 1), (1, 0), (1, 1), (1, 2), (2, 0)]
    for n in (0, 1, 2):
        for ops in ('', 'c', 'd', 'm', 'cd', 'cc', 'mc', 'cm', 'md', 'mm') + (('cdc', 'mcd', 'cmm', 'mmm') if t else ()):
            add(n, full(n) if n < 2 or len(ops) < 2 or t else [(0, 1), (1, 1)], ops)
    add(3, full(3), '')
    add(3, full(3) if t else [e for e in full(3) if e not in ((0, 0), (2, 1))], 'm', () if t else [(2, 1)])
    add(3, full(3) if t else three, 'd')
    add(3, full(3) if t else three, 'c')
    for ops in ('cc', 'dc', 'mm', 'md', 'mc', 'cm', 'dm'):
        add(3, three[:4] if t else three[:2], ops, three[4:] if t else three[3:])
    four = [(0, 1), (1, 2), (2, 3), (3, 0), (1, 3), (2, 1), (0, 0), (3, 2), (2, 0)]
    add(4, four if t else four[:5], 'm', () if t else four[6:8])
    add(4, four[:4] if t else [], 'mm', four[4:] if t else four)
    return out


def harness(ctx, cfg):
    n, more = cfg['n'], 20
    names = [ctx.int('name%d' % i, 0, HI) if n < 2 or n == 2 and not cfg['ops'] else i for i in range(n)]
    args, nodes, edges, ops = [n], {}, {}, []
    for i, m in enumerate(names):
        has = ctx.bool('data%d' % i) if n < 2 or n == 2 and not cfg['ops'] else (i + len(cfg['ops'])) % 3 > 0
        args += [1, El(m)] if has else [0]
        nodes[i] = m if has else None

    def connect(a, b, has):
        ops.append(('connect', a, b, 1000 + len(ops) if has else None))
    for a, b in cfg['fixed']:
        connect(a, b, (a + b) % 2)
    for a, b in cfg['free']:
        if ctx.bool('edge%d_%d' % (a, b)):
            connect(a, b, (a + b) % 2 or n < 2)
    for i, o in enumerate(cfg['ops']):
        k = n + 1 + cfg['ops'][:i].count('m')
        if o == 'm':
            ops.append(('merge', [ctx.bool('in%d_%d' % (i, a)) for a in range(k - 1)]))
        else:
            ab = ctx.index('from%d' % i, k), ctx.index('to%d' % i, k)
            if o == 'c':
                connect(ab[0], ab[1], True)
            else:
                ops.append(('disconnect',) + ab)
    # what should be there after each operation; nodes by position, the last one is none
    size, states, count = n, [(dict(nodes), dict(edges))], []
    words_ = []
    for o in ops:
        answer = None
        if o[0] == 'connect':
            words_ += ['connect', o[1], o[2]] + ([1, El(o[3])] if o[3] is not None else [0])
            if o[1] in nodes and o[2] in nodes:
                edges.setdefault((o[1], o[2]), o[3])
        elif o[0] == 'disconnect':
            words_ += list(o)
            answer = int((o[1], o[2]) in edges)
            edges.pop((o[1], o[2]), None)
        else:
            s = [a for a in range(size) if o[1][a]]
            # nodes that were merged before are not there any more
            s = [a for a in s if a in nodes]
            words_ += ['merge', len(s)] + s
            new = {}
            for (a, b), d in edges.items():
                if (a in s) != (b in s):
                    new.setdefault((size if a in s else a, size if b in s else b), []).append(d)
            answer = ([nodes[a] for a in s], new)
            edges = {e: d for e, d in edges.items() if e[0] not in s and e[1] not in s}
            edges.update(new)
            nodes = {a: d for a, d in nodes.items() if a not in s}
            nodes[size] = [d for d in answer[0]]
            size += 1
        states.append((dict(nodes), dict(edges)))
        count.append(answer)
    ids, out, last = RUST.call(ctx, 'graph', args + [len(ops)] + words_, cfg['seed'])
    what = '%r on %r' % (ops[:], n)
    ctx.check(len(set(ids)) == len(ids) == size + 1, '%s: ids %r' % (what, ids))
    at = {x: i for i, x in enumerate(ids)}
    stands = names + [o[3] for o in ops if o[0] == 'connect' and o[3] is not None]

    def same(got, exp):
        # what stands for it: a value, nothing, or after a merge any of the merged ones
        if type(exp) is list:
            flat = leaves(exp)
            return got is None if not flat else got is not None and any(same(got, e) for e in flat)
        if exp is None or got is None:
            return exp is None and got is None
        k = RUST.known(got, stands, list(range(len(stands))))
        return type(k) is int and bool(stands[k] == exp)

    def bag(got, exp):
        got = list(got)
        if len(got) != len(exp):
            return False
        # the sharpest ones first: a merged one may stand for several
        for e in sorted(exp, key=lambda e: len(leaves(e))):
            hit = [i for i, x in enumerate(got) if same(x, e)]
            if not hit:
                return False
            got.pop(hit[0])
        return True

    def graph(got, state, where):
        ns, es = state
        ctx.check(sorted(at[a] for a, d in got[0]) == sorted(ns), '%s: nodes' % where)
        ctx.check(all(same(d, ns[at[a]]) for a, d in got[0]), '%s: data of nodes %r' % (where, got[0]))
        ctx.check(sorted((at[a], at[b]) for a, b, d in got[1]) == sorted(es), '%s: edges %r, expected %r' % (where, [(at[a], at[b]) for a, b, d in got[1]], sorted(es)))
        ctx.check(all(same(d, es[at[a], at[b]]) for a, b, d in got[1]), '%s: data of edges %r' % (where, got[1]))
    for k, (got, state) in enumerate(zip(out[::2], states)):
        # ids that come later are none yet
        known = n + sum(o[0] == 'merge' for o in ops[:k])
        order = list(range(known)) + [size]
        where = '%s after %d' % (what, k)
        graph(got[0], state, where)
        ns, es = state
        ctx.check(len(got[1]) == len(order), '%s: answers' % where)
        for a, (node, to, frm, around, conn) in zip(order, got[1]):
            ctx.check((node is None) == (a not in ns), '%s: node %d' % (where, a))
            if node is not None:
                ctx.check(at[node[0]] == a and same(node[1], ns[a]), '%s: node %d' % (where, a))
            outs, ins = sorted(y for x, y in es if x == a), sorted(x for x, y in es if y == a)
            ctx.check(sorted(at[x] for x in to) == outs, '%s: outgoing of %d are %r' % (where, a, [at[x] for x in to]))
            ctx.check(sorted(at[x] for x in frm) == ins, '%s: incoming of %d are %r' % (where, a, [at[x] for x in frm]))
            ctx.check({at[x] for x in around} == set(outs) | set(ins), '%s: connected nodes of %d are %r, expected %r' % (where, a, sorted({at[x] for x in around}), sorted(set(outs) | set(ins))))
            ctx.check(conn == [int((a, b) in es) for b in order], '%s: connections of %d' % (where, a))
    for k, (got, exp, o) in enumerate(zip(out[1::2], count, ops)):
        where = '%s at %d' % (what, k)
        if o[0] != 'merge':
            ctx.check(got == exp, '%s: answer %r' % (where, got))
            continue
        ctx.check(len(got[0]) == 1 and len(got[1]) == 1 and bag(got[1][0], exp[0]), '%s: data of merged nodes %r' % (where, got[1]))
        ctx.check(sorted(map(len, got[2])) == sorted(map(len, exp[1].values())), '%s: merged edges %r, expected %r' % (where, got[2], list(exp[1].values())))
        ctx.check(bag([d for l in got[2] for d in l], [d for l in exp[1].values() for d in l]), '%s: data of merged edges %r, expected %r' % (where, got[2], list(exp[1].values())))
    graph(last, states[-1], what + ' as a default graph')


def leaves(x):
    if type(x) is list:
        return [y for e in x for y in leaves(e)]
    return [] if x is None else [x]
