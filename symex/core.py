"""Concolic symbolic execution core: linear integer terms, path condition, solver.

Every symbolic value carries (a) a symbolic term over the input variables and
(b) its concrete "shadow" value under the assignment driving the current run.
Control flow on a symbolic condition follows the shadow; the solver is asked
whether the other side is feasible under the path condition and, if so, hands
back an assignment with which the harness is re-executed later.  A config is
*complete* when no unexplored feasible alternative is left.
"""
import time
from fractions import Fraction

import z3

CONST_HASH = 7919


class PathAbort(BaseException):
    """The current run is infeasible / superseded (assumption not met)."""


class PathTimeout(BaseException):
    """The current run exceeded its wall-clock limit."""


class Divergence(BaseException):
    """A re-execution did not follow its recorded prefix (nondeterminism)."""


class Violation(Exception):
    """A harness assertion failed."""

    def __init__(self, msg, assignment=None):
        super().__init__(msg)
        self.msg = msg
        self.assignment = assignment


CUR = None          # the current RunCtx (symbolic mode only)


def set_cur(c):
    global CUR
    CUR = c


# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('key', 'z', 'lo', 'hi', 'uid')
    table = {}

    @classmethod
    def get(cls, key, mk, lo, hi):
        a = cls.table.get(key)
        if a is None:
            a = cls()
            a.key, a.lo, a.hi = key, lo, hi
            a.z = mk()
            a.uid = repr(key)
            cls.table[key] = a
        return a

    def __lt__(self, other):
        return self.uid < other.uid

    def __repr__(self):
        return self.uid


def _lin_z3(lin, const):
    t = None
    for a, c in lin:
        x = a.z if c == 1 else (-a.z if c == -1 else z3.IntVal(c) * a.z)
        t = x if t is None else t + x
    if t is None:
        return z3.IntVal(const)
    if const:
        t = t + z3.IntVal(const)
    return t


def _lin_bounds(lin, const):
    lo = hi = const
    for a, c in lin:
        if c > 0:
            lo = None if (lo is None or a.lo is None) else lo + c * a.lo
            hi = None if (hi is None or a.hi is None) else hi + c * a.hi
        else:
            nlo = None if (lo is None or a.hi is None) else lo + c * a.hi
            nhi = None if (hi is None or a.lo is None) else hi + c * a.lo
            lo, hi = nlo, nhi
    return lo, hi


def _merge(l1, l2, k):
    """l1 + k*l2 for sorted (atom, coef) tuples"""
    if not l2:
        return l1
    d = {a: c for a, c in l1}
    for a, c in l2:
        n = d.get(a, 0) + k * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].uid))


class SymBool:
    __slots__ = ('key', '_z', 'val')

    def __init__(self, key, zthunk, val):
        self.key = key
        self._z = zthunk
        self.val = val

    @property
    def z(self):
        if callable(self._z):
            self._z = self._z()
        return self._z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool) or type(o) is bool:
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    def __and__(self, o):
        return all_([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return any_([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __invert__(self):
        return not_(self)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return repr(self.val)

    def __str__(self):
        return str(self.val)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_symbool(x):
    return type(x) is SymBool


def not_(b):
    if is_symbool(b):
        if b.key[0] == 'not':
            return b.key[1]
        return SymBool(('not', b), lambda: z3.Not(b.z), not b.val)
    return not b


def all_(bs):
    keep = []
    for b in bs:
        if is_symbool(b):
            keep.append(b)
        elif not b:
            return False
    if not keep:
        return True
    if len(keep) == 1:
        return keep[0]
    return SymBool(('and',) + tuple(_k(b) for b in keep), lambda: z3.And([b.z for b in keep]),
                   all(b.val for b in keep))


def any_(bs):
    keep = []
    for b in bs:
        if is_symbool(b):
            keep.append(b)
        elif b:
            return True
    if not keep:
        return False
    if len(keep) == 1:
        return keep[0]
    return SymBool(('or',) + tuple(_k(b) for b in keep), lambda: z3.Or([b.z for b in keep]),
                   any(b.val for b in keep))


def implies_(a, b):
    return any_([not_(a), b])


def iff_(a, b):
    if not is_symbool(a) and not is_symbool(b):
        return bool(a) == bool(b)
    if not is_symbool(a):
        return b if a else not_(b)
    if not is_symbool(b):
        return a if b else not_(a)
    return SymBool(('iff', _k(a), _k(b)), lambda: a.z == b.z, a.val == b.val)


def _k(b):
    k = b.key
    return ('not', k[1].key) if k[0] == 'not' else k


def _cmp(lin, const, op, val):
    """SymBool / bool for  lin + const  op  0, shadow difference val."""
    if not lin:
        return {'eq': val == 0, 'lt': val < 0, 'le': val <= 0}[op]
    lo, hi = _lin_bounds(lin, const)
    if op == 'eq':
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lin[0][1] < 0:
            lin = tuple((a, -c) for a, c in lin)
            const = -const
        key = ('eq', lin, const)
        return SymBool(key, lambda: _lin_z3(lin, const) == 0, val == 0)
    if op == 'le':          # x <= 0  <=>  x - 1 < 0
        const = const - 1
        lo = None if lo is None else lo - 1
        hi = None if hi is None else hi - 1
        val = val - 1
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    # normalise sign so that  x<0  and  not(x<0) == (-x-1<0)  share a key
    if lin[0][1] < 0:
        l2 = tuple((a, -c) for a, c in lin)
        c2 = -const - 1
        pos = SymBool(('lt', l2, c2), lambda: _lin_z3(l2, c2) < 0, (-val - 1) < 0)
        return not_(pos)
    return SymBool(('lt', lin, const), lambda: _lin_z3(lin, const) < 0, val < 0)


class SymInt:
    __slots__ = ('lin', 'const', 'val')

    def __init__(self, lin, const, val):
        self.lin = lin
        self.const = const
        self.val = val

    @property
    def __class__(self):
        return int

    @property
    def z(self):
        return _lin_z3(self.lin, self.const)

    def bounds(self):
        return _lin_bounds(self.lin, self.const)

    def __hash__(self):
        return CONST_HASH

    # -- arithmetic
    def _lift(self, o):
        if type(o) is SymInt:
            return o
        if type(o) is int:
            return SymInt((), o, o)
        if type(o) is bool or type(o) is SymBool:
            v = int(bool(o))
            return SymInt((), v, v)
        return None

    def __add__(self, o):
        o2 = self._lift(o)
        if o2 is None:
            return self._realarith(o, '+')
        return SymInt(_merge(self.lin, o2.lin, 1), self.const + o2.const, self.val + o2.val)

    __radd__ = __add__

    def __sub__(self, o):
        o2 = self._lift(o)
        if o2 is None:
            return self._realarith(o, '-')
        return SymInt(_merge(self.lin, o2.lin, -1), self.const - o2.const, self.val - o2.val)

    def __rsub__(self, o):
        o2 = self._lift(o)
        if o2 is None:
            r = (-self)._realarith(o, '+')
            return o - realize(self) if r is NotImplemented else r
        return o2 - self

    def _realarith(self, o, op):
        if type(o) is SymReal or (type(o) is float and self.lin and o == o and abs(o) != float('inf')):
            return SymReal.of(self)._add(o, 1 if op == '+' else -1)
        if type(o) in (float, complex):
            v = realize(self)
            return v + o if op == '+' else v - o
        return NotImplemented

    def __neg__(self):
        return SymInt(tuple((a, -c) for a, c in self.lin), -self.const, -self.val)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __mul__(self, o):
        o2 = self._lift(o)
        if o2 is None:
            if type(o) is SymReal or (type(o) is float and self.lin and o == o and abs(o) != float('inf')):
                return SymReal.of(self) * o
            if type(o) is float:
                return realize(self) * o
            if isinstance(o, (str, list, tuple)):
                return o * realize(self)
            return NotImplemented
        if not o2.lin:
            k = o2.const
            if k == 0:
                return SymInt((), 0, 0)
            return SymInt(tuple((a, c * k) for a, c in self.lin), self.const * k, self.val * k)
        if not self.lin:
            return o2 * self.const
        key = ('mul', self.lin, self.const, o2.lin, o2.const)
        a, b = self, o2
        at = Atom.get(key, lambda: a.z * b.z, None, None)
        return SymInt(((at, 1),), 0, self.val * o2.val)

    __rmul__ = __mul__

    def __mod__(self, o):
        if type(o) is SymInt:
            if o.lin:
                o = realize(o)
            else:
                o = o.const
        if type(o) is not int:
            return NotImplemented
        if o <= 0:
            return realize(self) % o
        if not self.lin:
            v = self.const % o
            return SymInt((), v, v)
        lo, hi = self.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi < o:
            return self
        # reduce coefficients
        lin = tuple((a, c % o) for a, c in self.lin if c % o)
        const = self.const % o
        me = SymInt(lin, const, 0)
        lo, hi = me.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi < o:
            return SymInt(lin, const, self.val % o)
        key = ('mod', lin, const, o)
        at = Atom.get(key, lambda: me.z % o, 0, o - 1)
        return SymInt(((at, 1),), 0, self.val % o)

    def __rmod__(self, o):
        return o % realize(self)

    def __floordiv__(self, o):
        if type(o) is SymInt:
            o = realize(o)
        if type(o) is not int:
            return realize(self) // o
        if o <= 0:
            return realize(self) // o
        if not self.lin:
            v = self.const // o
            return SymInt((), v, v)
        lo, hi = self.bounds()
        if lo is not None and hi is not None and lo // o == hi // o:
            return SymInt((), lo // o, lo // o)
        me = self
        at = Atom.get(('div', self.lin, self.const, o), lambda: me.z / z3.IntVal(o),
                      None if lo is None else lo // o, None if hi is None else hi // o)
        return SymInt(((at, 1),), 0, self.val // o)

    def __rfloordiv__(self, o):
        return o // realize(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        o = realize_any(o)
        if self.lin and type(o) in (int, float) and o and o == o and abs(o) != float('inf'):
            return SymReal.of(self) / o
        return realize(self) / o

    def __rtruediv__(self, o):
        return o / realize(self)

    def __pow__(self, o, m=None):
        return pow(realize(self), realize_any(o), m)

    def __rpow__(self, o):
        return o ** realize(self)

    def __and__(self, o):
        return realize(self) & realize_any(o)

    __rand__ = __and__

    def __or__(self, o):
        return realize(self) | realize_any(o)

    __ror__ = __or__

    def __xor__(self, o):
        return realize(self) ^ realize_any(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** realize_any(o))

    def __rlshift__(self, o):
        return o << realize(self)

    def __rshift__(self, o):
        return self // (2 ** realize_any(o))

    def __rrshift__(self, o):
        return o >> realize(self)

    def __invert__(self):
        return -self - 1

    # -- comparison
    def _c(self, o, op, swap=False):
        o2 = self._lift(o)
        if o2 is None:
            if type(o) is float:
                return _cmp_float(self, o, op, swap)
            if type(o) is SymReal:
                return SymReal.of(self)._c(o, {'eq': 'eq', 'lt': 'gt', 'le': 'ge'}[op] if swap else op)
            return NotImplemented
        a, b = (o2, self) if swap else (self, o2)
        lin = _merge(a.lin, b.lin, -1)
        return _cmp(lin, a.const - b.const, op, a.val - b.val)

    def __eq__(self, o):
        if type(o) is SymHash:
            return False
        r = self._c(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __lt__(self, o):
        return self._c(o, 'lt')

    def __le__(self, o):
        return self._c(o, 'le')

    def __gt__(self, o):
        return self._c(o, 'lt', True)

    def __ge__(self, o):
        return self._c(o, 'le', True)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __index__(self):
        return realize(self)

    __int__ = __index__
    __trunc__ = __index__
    __floor__ = __index__
    __ceil__ = __index__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(realize(self))

    def bit_length(self):
        return realize(self).bit_length()

    def __repr__(self):
        return repr(self.val)

    def __str__(self):
        return str(self.val)

    def __format__(self, spec):
        return format(realize(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _cmp_float(si, f, op, swap):
    if f != f or f in (float('inf'), float('-inf')):
        v = realize(si)
        a, b = (f, v) if swap else (v, f)
        return {'eq': a == b, 'lt': a < b, 'le': a <= b}[op]
    fr = Fraction(f)
    if fr.denominator == 1:
        return si._c(int(fr), op, swap)
    if op == 'eq':
        return False
    fl = fr.numerator // fr.denominator     # si < f  <=> si <= floor(f)
    if not swap:
        return si <= fl
    return si >= fl + 1


class SymReal:
    """A symbolic real number, linear over real and integer unknowns (exact: rounding of the concrete code is not modelled;
    every witness is replayed with floats)."""
    __slots__ = ('lin', 'const', 'val')

    def __init__(self, lin, const, val):
        self.lin, self.const, self.val = lin, const, val

    @property
    def __class__(self):
        return float

    @staticmethod
    def var(name, z, val):
        a = Atom.get(('realvar', name), lambda: z, None, None)
        return SymReal(((a, Fraction(1)),), Fraction(0), val)

    @staticmethod
    def of(o):
        """SymReal of anything finite, None otherwise"""
        t = type(o)
        if t is SymReal:
            return o
        if t is SymInt:
            return SymReal(tuple((a, Fraction(c)) for a, c in o.lin), Fraction(o.const), Fraction(o.val))
        if t is SymBool:
            o = int(bool(o))
        try:
            f = Fraction(o) if isinstance(o, (int, Fraction)) else Fraction(float(o))
        except (TypeError, ValueError, OverflowError):
            return None
        return SymReal((), f, f)

    @property
    def z(self):
        t = z3.RealVal(str(self.const))
        for a, c in self.lin:
            x = a.z if a.z.is_real() else z3.ToReal(a.z)
            t = t + (x if c == 1 else z3.RealVal(str(c)) * x)
        return t

    def __hash__(self):
        return CONST_HASH

    def _c(self, o, op):
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False}[op] if o == o else False
        d = SymReal.of(o)
        if d is None:
            return NotImplemented
        d = self - d
        if type(d) is not SymReal:
            return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0}[op]
        # normalise the leading coefficient to 1
        k = d.lin[0][1]
        lin, const, val = tuple((a, c / k) for a, c in d.lin), d.const / k, d.val / k
        if k < 0:
            op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq'}[op]
        n = SymReal(lin, const, val)
        if op == 'le':
            return SymBool(('real', 'le', lin, const), lambda: n.z <= 0, val <= 0)
        if op == 'lt':
            return SymBool(('real', 'lt', lin, const), lambda: n.z < 0, val < 0)
        if op == 'ge':
            return not_(SymBool(('real', 'lt', lin, const), lambda: n.z < 0, val < 0))
        if op == 'gt':
            return not_(SymBool(('real', 'le', lin, const), lambda: n.z <= 0, val <= 0))
        return SymBool(('real', 'eq', lin, const), lambda: n.z == 0, val == 0)

    def __lt__(self, o):
        return self._c(o, 'lt')

    def __le__(self, o):
        return self._c(o, 'le')

    def __gt__(self, o):
        return self._c(o, 'gt')

    def __ge__(self, o):
        return self._c(o, 'ge')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c(o, 'eq')

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else not_(r)

    def __float__(self):
        for a, c in self.lin:
            if a.key[0] == 'realvar':
                if CUR is not None and 'real number fixed' not in CUR.incomplete:
                    CUR.incomplete.append('real number fixed')
                return float(self.val)
        import math
        m = math.lcm(self.const.denominator, *[c.denominator for _, c in self.lin])
        n = SymInt(tuple((a, int(c * m)) for a, c in self.lin), int(self.const * m), int(self.val * m))
        return float(Fraction(realize(n), m))

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return repr(float(self.val))

    def _mk(self, lin, const, val):
        return SymReal(lin, const, val) if lin else float(const)

    def __neg__(self):
        return SymReal(tuple((a, -c) for a, c in self.lin), -self.const, -self.val)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _add(self, o, k):
        d = SymReal.of(o)
        if d is None:
            return float(self) + k * o
        return self._mk(_merge(self.lin, d.lin, k), self.const + k * d.const, self.val + k * d.val)

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return (-self)._add(o, 1)

    def __mul__(self, o):
        d = SymReal.of(o)
        if d is None:
            return float(self) * o
        if d.lin and self.lin:
            d = Fraction(float(d))
        elif d.lin:
            return d * self.const
        else:
            d = d.const
        if d == 0:
            return 0.0
        return self._mk(tuple((a, c * d) for a, c in self.lin), self.const * d, self.val * d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = realize_any(o)
        if not isinstance(d, (int, float)) or d == 0 or d != d or d in (float('inf'), float('-inf')):
            return float(self) / d
        return self * (1 / Fraction(d))

    def __rtruediv__(self, o):
        return realize_any(o) / float(self)

    def __round__(self, n=None):
        return round(float(self), n) if n is not None else round(float(self))

    def __floor__(self):
        import math
        return math.floor(float(self))

    def __ceil__(self):
        import math
        return math.ceil(float(self))

    def __trunc__(self):
        return int(float(self))

    __int__ = __trunc__

    def __floordiv__(self, o):
        return float(self) // realize_any(o)

    def __mod__(self, o):
        return float(self) % realize_any(o)

    def __pow__(self, o):
        return float(self) ** realize_any(o)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymHash:
    """hash() of something symbolic that is not an int: opaque, injective."""
    __slots__ = ('parts', 'val')

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return CONST_HASH

    def __eq__(self, o):
        if type(o) is SymHash:
            if len(self.parts) != len(o.parts):
                return False
            return all_([a == b for a, b in zip(self.parts, o.parts)])
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        if type(o) is SymHash:
            return self.parts < o.parts
        return False

    def __index__(self):
        return hash(tuple(realize_any(p) for p in self.parts))

    __int__ = __index__

    def _n(self):
        return self.__index__()

    def __add__(self, o):
        return self._n() + realize_any(o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * realize_any(o)

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._n() % realize_any(o)

    def __repr__(self):
        return '<symhash>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def realize(x):
    """Concrete int of a SymInt; recorded as a decision of the path."""
    if type(x) is SymInt:
        if not x.lin:
            return x.const
        return CUR.realize(x)
    return x


def realize_any(x):
    t = type(x)
    if t is SymInt:
        return realize(x)
    if t is SymBool:
        return bool(x)
    if t is SymReal:
        return float(x)
    if t is SymHash:
        return x.__index__()
    from . import strs
    if t is strs.SymStr:
        return x.realize()
    return x


# ----------------------------------------------------------------- run context
class Stats:
    FIELDS = ('paths', 'aborted', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'assert_queries',
              'branches', 'realizations', 'unreproduced', 'timeouts', 'concrete_validated', 'divergences',
              'mode_fallbacks')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


_solver = None
_zvars = {}


def zvar(name, sort='int'):
    v = _zvars.get((name, sort))
    if v is None:
        v = z3.Int(name) if sort == 'int' else z3.Real(name)
        _zvars[(name, sort)] = v
    return v


def get_solver():
    global _solver
    if _solver is None:
        _solver = z3.Solver()
        _solver.set('timeout', 20000)
        _solver.set('random_seed', 1)
    return _solver


class RunCtx:
    """One symbolic run, driven by a prefix of decisions and an assignment."""
    symbolic = True
    REALIZE_LIMIT = 300

    def __init__(self, prefix, assignment, stats, dump=None):
        self.prefix = prefix
        self.assign = dict(assignment)
        self.trace = []
        self.cache = {}
        self.rcache = {}
        self.alts = []
        self.pc = []            # list of SymBool-like (z thunk, direction)
        self.asserted = 0
        self.vars = {}
        self.doms = []
        self.dom_asserted = 0
        self.stats = stats
        self.solver = get_solver()
        self.solver.push()
        self.incomplete = []
        self.dump = dump
        self.notes = {}

    def close(self):
        self.solver.pop()

    # -- variables
    def new_int(self, name, lo=None, hi=None, default=None, allowed=None):
        if name in self.vars:
            raise RuntimeError('duplicate variable ' + name)
        if name not in self.assign:
            if default is None:
                default = lo if lo is not None else 0
            self.assign[name] = default
        v = self.assign[name]
        z = zvar(name)
        at = Atom.get(('var', name, lo, hi), lambda: z, lo, hi)
        self.vars[name] = z
        if lo is not None:
            self.doms.append(z >= lo)
        if hi is not None:
            self.doms.append(z <= hi)
        if allowed is not None:
            ranges = list(allowed)
            self.doms.append(z3.Or([z3.And(z >= a, z <= b) for a, b in ranges]))
        return SymInt(((at, 1),), 0, v)

    def new_real(self, name, lo=None, hi=None, default=0):
        if name not in self.assign:
            self.assign[name] = Fraction(default)
        z = zvar(name, 'real')
        self.vars[name] = z
        if lo is not None:
            self.doms.append(z >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.doms.append(z <= z3.RealVal(str(Fraction(hi))))
        return SymReal.var(name, z, Fraction(self.assign[name]))

    # -- solver
    def _sync(self):
        s = self.solver
        while self.dom_asserted < len(self.doms):
            s.add(self.doms[self.dom_asserted])
            self.dom_asserted += 1
        while self.asserted < len(self.pc):
            s.add(self.pc[self.asserted]())
            self.asserted += 1

    def query(self, extra):
        """sat check of path condition + extra; returns 'sat'/'unsat'/'unknown', assignment"""
        self._sync()
        s = self.solver
        t = time.perf_counter()
        s.push()
        s.add(extra)
        r = s.check()
        m = None
        if r == z3.sat:
            model = s.model()
            m = dict(self.assign)
            for n, z in self.vars.items():
                v = model.eval(z, model_completion=True)
                m[n] = v.as_long() if z3.is_int_value(v) else Fraction(v.numerator_as_long(), v.denominator_as_long())
        if self.dump is not None:
            self.dump(s, r)
        s.pop()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return 'sat', m
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'unsat', None
        self.stats.unknown += 1
        self.incomplete.append('solver returned unknown')
        return 'unknown', None

    def branch(self, b):
        k = b.key
        if k[0] == 'not':
            return not self.branch(k[1])
        d = self.cache.get(k)
        if d is not None:
            return d
        i = len(self.trace)
        if i < len(self.prefix):
            e = self.prefix[i]
            if e[0] != 'b' or e[1] != b.val:
                raise Divergence('decision %d: recorded %r, now %r' % (i, e, b.val))
            d = e[1]
            implied = e[2]
        else:
            d = bool(b.val)
            self.stats.branches += 1
            z = b.z
            r, m = self.query(z3.Not(z) if d else z)
            implied = r == 'unsat'
            if r == 'sat':
                self.alts.append((self.trace + [('b', not d, False)], m))
        self.trace.append(('b', d, implied))
        if not implied:
            self.pc.append((lambda: b.z) if d else (lambda: z3.Not(b.z)))
        self.cache[k] = d
        return d

    def assume(self, b):
        if not is_symbool(b):
            if not b:
                self.stats.aborted += 1
                raise PathAbort()
            return
        if b.key[0] == 'not' and False:
            pass
        i = len(self.trace)
        if i < len(self.prefix):
            if not b.val:
                raise Divergence('assumption')
            self.trace.append(('a', True, False))
        else:
            if not b.val:
                r, m = self.query(b.z)
                if r == 'sat':
                    self.alts.append((self.trace + [('a', True, False)], m))
                self.stats.aborted += 1
                raise PathAbort()
            self.trace.append(('a', True, False))
        self.pc.append(lambda: b.z)
        if b.key[0] == 'not':
            self.cache[b.key[1].key] = False
        else:
            self.cache[b.key] = True

    def realize(self, x):
        k = (x.lin, x.const)
        v = self.rcache.get(k)
        if v is not None:
            return v
        lo, hi = x.bounds()
        if lo is not None and lo == hi:
            return lo
        i = len(self.trace)
        v = x.val
        excl = ()
        fresh = True
        if i < len(self.prefix):
            e = self.prefix[i]
            if e[0] == 'r=':
                if e[1] != v:
                    raise Divergence('realize')
                fresh = False
            elif e[0] == 'r':
                excl = e[1]
                if v in excl:
                    raise Divergence('realize excl')
            else:
                raise Divergence('realize kind %r' % (e,))
        if fresh:
            self.stats.realizations += 1
            zx = x.z
            ex = excl + (v,)
            if len(ex) > self.REALIZE_LIMIT:
                self.incomplete.append('realization limit')
            else:
                r, m = self.query(z3.And([zx != w for w in ex]))
                if r == 'sat':
                    self.alts.append((self.trace + [('r', ex)], m))
        self.trace.append(('r=', v))
        self.pc.append(lambda: x.z == v)
        self.rcache[k] = v
        return v

    # -- property assertion: one solver query over everything on this path
    def check(self, cond, msg):
        self.stats.asserts += 1
        if is_symbool(cond):
            self.stats.assert_queries += 1
            z = cond.z
            r, m = self.query(z3.Not(z))
            if r == 'sat':
                raise Violation(msg, m)
            return
        if not cond:
            raise Violation(msg, None)
