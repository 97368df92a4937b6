"""helpers shared by the checks of the Rust activities"""
from symex.rustside import words

LET = {c: i for i, c in enumerate('abcdefghijklmnopqrst')}


def traces(ctx, cfg):
    """letters are fixed classes, S any class (of the first `alpha` letters, or any at all)"""
    hi = cfg['alpha'] - 1 if cfg.get('alpha') else 2 ** 64 - 1
    return [[ctx.int('x%d_%d' % (i, j), 0, hi) if c == 'S' else LET[c] for j, c in enumerate(t)] for i, t in enumerate(cfg['traces'])]


def split(flat, ws):
    out, i = [], 0
    for w in ws:
        out.append(flat[i:i + len(w)])
        i += len(w)
    return out


def subs_of(ctx, cfg, ws):
    """sub-arrays as (trace, start, length): all of them, a number of free ones, or a list"""
    s = cfg['subs']
    if s == 'all':
        return [(t, i, n) for t, w in enumerate(ws) for n in range(1, len(w) + 1) for i in range(len(w) - n + 1)]
    if isinstance(s, list):
        return [tuple(x) for x in s]
    out = []
    for k in range(s):
        t = ctx.index('st%d' % k, len(ws))
        i = ctx.index('ss%d' % k, len(ws[t]))
        out.append((t, i, 1 + ctx.index('sl%d' % k, len(ws[t]) - i)))
    return out


def flat(subs):
    return [len(subs)] + [x for s in subs for x in s]


def name(named, s):
    t, i, n = s
    return 'n%d_%d_%d' % (t, i, n) if not named else 'n%d_%d_%d' % (9 - t, 9 - i, n)


def classes(cl, s):
    t, i, n = s
    return frozenset(cl[t][i:i + n])


def distinct(cl, subs):
    """first sub-array of every set of classes, ordered"""
    seen = {}
    for s in subs:
        seen.setdefault(classes(cl, s), s)
    return sorted(seen.values())


class RTree:
    """the tree the driver answered; nodes are known by their sub-array"""

    def __init__(self, dump, cl):
        self.cl, self.kids, self.info, self.dup, self.roots = cl, {}, {}, False, []
        self.roots = [self.add(d) for d in dump]

    def add(self, d):
        s = tuple(d[:3])
        k = [self.add(c) for c in d[6]]
        if s in self.info and (self.info[s] != tuple(d[3:6]) or self.kids[s] != k):
            self.dup = True
        self.info[s], self.kids[s] = tuple(d[3:6]), k
        return s

    def classes(self, s):
        return classes(self.cl, s)

    def below(self, s):
        out, q = [], list(self.kids[s])
        while q:
            x = q.pop(0)
            if x not in out:
                out.append(x)
                q += self.kids[x]
        return out


def greedy(t, tree, named):
    """smallest activity (by size, then name) takes the first event; grows to the first not smaller one that fits"""
    order = sorted(tree.roots, key=lambda s: (len(tree.classes(s)), name(named, s)))
    out, i = [], 0
    while i < len(t):
        cur = next((n for n in order if t[i] in tree.classes(n)), None)
        if cur is None:
            i += 1
            continue
        st, have = i, {t[i]}
        i += 1
        while i < len(t):
            if t[i] not in tree.classes(cur):
                nxt = next((n for n in order if len(tree.classes(n)) >= len(tree.classes(cur)) and have | {t[i]} <= tree.classes(n)), None)
                if nxt is None:
                    break
                cur = nxt
            have.add(t[i])
            i += 1
        out.append((st, i - st, cur, frozenset(have)))
    return out


def expected(t, tree, named, kind, least, filt):
    """instances as (start, length, allowed activities)"""
    out = []
    for st, n, a, have in greedy(t, tree, named):
        may = {a}
        if kind >= 2:
            fit = [x for x in tree.below(a) if have <= tree.classes(x)]
            if fit:
                k = min(len(tree.classes(x)) for x in fit)
                may = {x for x in fit if len(tree.classes(x)) == k}
        size = len(tree.classes(next(iter(may))))
        if filt and (size < least or n <= size // 2):
            continue
        out.append((st, n, {name(named, x) for x in may}))
    return out


def compare(ctx, got, exp, what):
    ctx.check([tuple(g[:2]) for g in got] == [e[:2] for e in exp], '%s: instances %r, expected %r' % (what, got, exp))
    for g, e in zip(got, exp):
        ctx.check(g[2] in e[2], '%s: instance %r belongs to another activity, expected %r' % (what, g, e))
