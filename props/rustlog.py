"""helpers shared by the checks of the Rust event log"""
from symex.rustside import Driver, El, els, words

COMMON = ['Rust: stand-ins replace the crates that are not available (dates are milliseconds); the log is the backend\'s SimpleEventLog',
          'Rust: names are opaque in the symbolic build (comparing, ordering, hashing and printing compile), witnesses are replayed with real strings; names differ from the artificial ones',
          'Rust: standard hash maps iterate in the orders of the explored hash seeds (two or three in the symbolic runs, eight in the native replays), other orders are not explored']
HI = 2 ** 64 - 1


def driver(*prefixes):
    return Driver('log', list(prefixes) + ['event_log::simple', 'event_log::core'])


def shapes(total, most, least=0):
    def rec(left, k):
        if k == 0:
            yield ()
            return
        for n in range(left + 1):
            for r in rec(left - n, k - 1):
                yield (n,) + r
    return [s for k in range(least, most + 1) for s in rec(total, k)]


def log_cfgs(total, most, ab=()):
    """every shape with any names, and larger ones over a few names"""
    out = [{'name': 'log' + 'x'.join(map(str, s)), 'shape': list(s), 'ab': None} for s in shapes(total, most)]
    out += [{'name': 'ab%d-%s' % (k, 'x'.join(map(str, s))), 'shape': list(s), 'ab': k} for k, s in ab]
    for i, c in enumerate(out):
        c['seed'] = i % 2
    return out


class Log:
    """a log of symbolic names; more are names that may or may not occur in it"""

    def __init__(self, ctx, cfg, more=0, rust=None):
        hi = cfg['ab'] - 1 if cfg['ab'] else HI
        self.ws = [[ctx.int('x%d_%d' % (i, j), 0, hi) for j in range(n)] for i, n in enumerate(cfg['shape'])]
        self.more = [ctx.int('m%d' % i, 0, hi + 1 if cfg['ab'] else hi) for i in range(more)]
        self.rust, self.ctx, self.seed = rust, ctx, cfg['seed']
        self.vals = [x for w in self.ws for x in w] + self.more

    def call(self, cmd, args):
        return self.rust.call(self.ctx, cmd, args, self.seed)

    def classify(self):
        """after the calls: the code has already compared the names it needs"""
        self.cls = self.ctx.classes(self.vals)
        self.cl, i = [], 0
        for w in self.ws:
            self.cl.append(self.cls[i:i + len(w)])
            i += len(w)
        self.mc = self.cls[i:]
        return self.cl

    def id(self, name):
        return self.rust.known(name, self.vals, self.cls)

    def events(self, xs):
        return [(self.id(a), b) for a, b in xs]

    def numbered(self):
        out, k = [], 0
        for t in self.cl:
            out.append([])
            for c in t:
                k += 1
                out[-1].append((c, k))
        return out
