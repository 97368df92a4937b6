"""Harness contexts: the same harness source runs symbolically and concretely."""
from fractions import Fraction

ASCII = ((0x20, 0x7E),)


class Base:
    """API common to all modes."""
    symbolic = False

    def __init__(self):
        self._n = 0

    def _default(self, ranges):
        self._n += 1
        tot = sum(b - a + 1 for a, b in ranges)
        k = (self._n * 7 + 58) % tot if tot > 26 else (self._n - 1) % tot
        for a, b in ranges:
            if k <= b - a:
                return a + k
            k -= b - a + 1

    # derived helpers ------------------------------------------------
    def classes(self, names):
        """canonical class index of every name (forks on undecided equalities)"""
        reps, out = [], []
        for n in names:
            for i, r in enumerate(reps):
                if bool(n == r):
                    out.append(i)
                    break
            else:
                out.append(len(reps))
                reps.append(n)
        return out

    def fail(self, msg):
        self.check(False, msg)

    def choose(self, tag, options):
        return options[self.index(tag, len(options))]


class ConcreteHarness(Base):
    def __init__(self, assignment):
        super().__init__()
        self.assign = assignment
        self.used = {}
        self.failed = None
        self.notes = {}

    def _val(self, tag, default):
        v = self.assign.get(tag, default)
        self.used[tag] = v
        return v

    def char(self, tag, ranges=ASCII):
        d = self._default(ranges)
        return chr(int(self._val(tag, d)))

    def name(self, tag, length=1, ranges=ASCII):
        return ''.join(self.char('%s.%d' % (tag, i), ranges) for i in range(length))

    def const(self, s):
        return s

    def int(self, tag, lo=None, hi=None, default=None):
        if default is None:
            default = lo if lo is not None else 0
        return int(self._val(tag, default))

    def index(self, tag, n):
        return int(self._val(tag, 0))

    def bool(self, tag):
        return bool(int(self._val(tag, 0)))

    def real(self, tag, lo=None, hi=None, default=0):
        return float(Fraction(self._val(tag, Fraction(default))))

    def assume(self, c):
        from .core import PathAbort
        if not c:
            raise PathAbort()

    def check(self, c, msg):
        from .core import Violation
        if not c:
            raise Violation(msg)

    def all(self, bs):
        return all(bs)

    def any(self, bs):
        return any(bs)

    def not_(self, b):
        return not b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def code(self, c):
        return ord(c)


class SymHarness(Base):
    symbolic = True

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.notes = run.notes

    def _char(self, tag, ranges):
        lo, hi = min(a for a, _ in ranges), max(b for _, b in ranges)
        d = self._default(ranges)
        return self.run.new_int(tag, lo, hi, d, allowed=ranges if len(ranges) > 1 else None)

    def char(self, tag, ranges=ASCII):
        from .strs import SymStr
        return SymStr((self._char(tag, ranges),))

    def name(self, tag, length=1, ranges=ASCII):
        from .strs import SymStr
        return SymStr([self._char('%s.%d' % (tag, i), ranges) for i in range(length)])

    def const(self, s):
        from .strs import SymStr
        return SymStr.of(s)

    def int(self, tag, lo=None, hi=None, default=None):
        return self.run.new_int(tag, lo, hi, default)

    def index(self, tag, n):
        from .core import realize
        return realize(self.run.new_int(tag, 0, n - 1, 0))

    def bool(self, tag):
        return self.index(tag, 2) == 1

    def real(self, tag, lo=None, hi=None, default=0):
        return self.run.new_real(tag, lo, hi, default)

    def assume(self, c):
        self.run.assume(c)

    def check(self, c, msg):
        self.run.check(c, msg)

    def all(self, bs):
        from .core import all_
        return all_(list(bs))

    def any(self, bs):
        from .core import any_
        return any_(list(bs))

    def not_(self, b):
        from .core import not_
        return not_(b)

    def iff(self, a, b):
        from .core import iff_
        return iff_(a, b)

    def code(self, c):
        from .instrument import h_ord
        return h_ord(c)


class PatternHarness(SymHarness):
    """Fallback: equality pattern and order of inputs decided by the solver up front, plain values flow
    through the code.  Used only when code contains operations the proxies do not model."""

    def __init__(self, run):
        super().__init__(run)
        self._prev = []

    def _char(self, tag, ranges):
        v = super()._char(tag, ranges)
        for p in self._prev:
            if bool(v == p):
                break
        self._prev.append(v)
        return v

    def char(self, tag, ranges=ASCII):
        return chr(self._char(tag, ranges).val)

    def name(self, tag, length=1, ranges=ASCII):
        return ''.join(chr(self._char('%s.%d' % (tag, i), ranges).val) for i in range(length))

    def const(self, s):
        return s

    def int(self, tag, lo=None, hi=None, default=None):
        from .core import realize
        v = super().int(tag, lo, hi, default)
        return realize(v) if lo is not None and hi is not None and hi - lo < 50 else v.val

    def real(self, tag, lo=None, hi=None, default=0):
        return float(super().real(tag, lo, hi, default).val)
