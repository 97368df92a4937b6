"""Symbolic strings: fixed length, each position a literal char or a symbolic code point.

The native content of a SymStr (it is a str subclass) is its concrete shadow, so code we
do not intercept still computes a correct concrete result for the current run.
"""
import z3
from . import core
from .core import SymInt, SymBool, all_, any_, not_, CONST_HASH

WS = ' \t\n\r\x0b\x0c'


class IntTok:
    """the decimal text of a symbolic int (variable length)"""
    __slots__ = ('sym',)

    def __init__(self, sym):
        self.sym = sym


def _item_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        return b == ord(a)
    if type(b) is str:
        return a == ord(b)
    return a == b


def code(a):
    if type(a) is str:
        return SymInt((), ord(a), ord(a))
    return a


def _skips_numbers(sep):
    """a concrete text that cannot occur in (or overlap with) the decimal text of an int"""
    return sep is not None and len(sep) > 0 and (type(sep) is not SymStr or sep.is_concrete()) and not any(ch in '0123456789-' for ch in str.__str__(sep))


def _match(part, sub):
    for x in part:
        if type(x) is IntTok:
            return False
    return all_([_item_eq(x, y) for x, y in zip(part, sub)])


class SymStr(str):
    def __new__(cls, items):
        norm = []
        sh = []
        for it in items:
            if type(it) is SymInt:
                if not it.lin:
                    it = chr(it.const)
                    sh.append(it)
                else:
                    sh.append(chr(it.val))
            elif type(it) is IntTok:
                if not it.sym.lin:
                    it = str(it.sym.const)
                    norm.extend(it)
                    sh.append(it)
                    continue
                sh.append(str(it.sym.val))
            else:
                sh.append(it)
            norm.append(it)
        o = str.__new__(cls, ''.join(sh))
        o.items = tuple(norm)
        return o

    @staticmethod
    def of(s):
        if type(s) is SymStr:
            return s
        return SymStr(tuple(str(s)))

    # ---- helpers
    @property
    def has_tok(self):
        for i in self.items:
            if type(i) is IntTok:
                return True
        return False

    def chars(self):
        """items, with int tokens realised"""
        if not self.has_tok:
            return self.items
        out = []
        for i in self.items:
            if type(i) is IntTok:
                out.extend(str(core.realize(i.sym)))
            else:
                out.append(i)
        return tuple(out)

    def is_concrete(self):
        for i in self.items:
            if type(i) is not str:
                return False
        return True

    def realize(self):
        return ''.join(c if type(c) is str else chr(core.realize(c)) for c in self.chars())

    def sole_tok(self):
        return self.items[0].sym if len(self.items) == 1 and type(self.items[0]) is IntTok else None

    # ---- comparison
    def __hash__(self):
        return CONST_HASH

    def _eq(self, o):
        if not isinstance(o, str):
            return False
        if type(o) is SymStr:
            oi = o.items
        else:
            oi = tuple(o)
        if self.has_tok or (type(o) is SymStr and o.has_tok):
            a = self.sole_tok()
            b = o.sole_tok() if type(o) is SymStr else None
            if a is not None and b is not None:
                return a == b
            t, other = (a, o) if a is not None else (b, self)
            if t is not None and (type(other) is str or other.is_concrete()):
                s = str.__str__(other)
                try:
                    n = int(s)
                except ValueError:
                    return False
                return (t == n) if str(n) == s else False
            if t is not None and not other.has_tok:
                c = [code(x) for x in other.items]

                def number(ds, neg):
                    if not ds:
                        return False
                    v = ds[-1] - 48
                    for i, d in enumerate(ds[-2::-1]):
                        v = v + (d - 48) * 10 ** (i + 1)
                    lead = [core.not_(ds[0] == 48)] if len(ds) > 1 or neg else []
                    return all_([d >= 48 for d in ds] + [d <= 57 for d in ds] + lead + [t == (-v if neg else v)])
                return core.any_([number(c, False), all_([c[0] == 45, number(c[1:], True)]) if len(c) > 1 else False])
            if type(o) is SymStr and len(o.items) == len(self.items) and \
                    all((type(x) is IntTok) == (type(y) is IntTok) for x, y in zip(self.items, o.items)) and \
                    not _digit_next(self.items) and not _digit_next(o.items):
                return all_([(x.sym == y.sym) if type(x) is IntTok else _item_eq(x, y)
                             for x, y in zip(self.items, o.items)])
            si, oi = self.chars(), (o.chars() if type(o) is SymStr else oi)
        else:
            si = self.items
        if len(si) != len(oi):
            return False
        if si is oi:
            return True
        return all_([_item_eq(x, y) for x, y in zip(si, oi)])

    def __eq__(self, o):
        if self is o:
            return True
        return self._eq(o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _lt(self, o, orq):
        if not isinstance(o, str):
            return NotImplemented
        a = self.chars()
        b = o.chars() if type(o) is SymStr else tuple(o)
        n = min(len(a), len(b))
        # built from the back: lt(i) = a[i]<b[i] or (a[i]==b[i] and lt(i+1))
        if len(a) < len(b):
            r = True
        elif len(a) > len(b):
            r = False
        else:
            r = orq
        for i in range(n - 1, -1, -1):
            if type(a[i]) is str and type(b[i]) is str:
                if a[i] != b[i]:
                    r = a[i] < b[i]
                continue
            x, y = code(a[i]), code(b[i])
            r = any_([x < y, all_([x == y, r])])
        return r

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return len(self) > 0

    def __len__(self):
        n = 0
        for i in self.items:
            if type(i) is IntTok:
                v = i.sym
                if bool(v < 0):
                    n += 1
                    v = -v
                d = 1
                while not bool(v < 10 ** d):
                    d += 1
                n += d
            else:
                n += 1
        return n

    # ---- building
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(self.items + (o.items if type(o) is SymStr else tuple(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(tuple(o) + self.items)

    def __mul__(self, n):
        n = core.realize_any(n)
        return SymStr(self.items * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return fmt_percent(self, args)

    def __rmod__(self, o):
        return fmt_percent(o, self)

    def __getitem__(self, k):
        c = self.chars()
        if isinstance(k, slice):
            k = slice(*(None if x is None else core.realize_any(x) for x in (k.start, k.stop, k.step)))
            return SymStr(c[k])
        return SymStr((c[core.realize_any(k)],))

    def __iter__(self):
        for c in self.chars():
            yield SymStr((c,))

    def __reversed__(self):
        for c in reversed(self.chars()):
            yield SymStr((c,))

    # ---- searching
    def _at(self, i, sub):
        c = self.chars()
        if i < 0 or i + len(sub) > len(c):
            return False
        return all_([_item_eq(x, y) for x, y in zip(c[i:i + len(sub)], sub)])

    def _find(self, sub, start=0, end=None, rev=False):
        sub = SymStr.of(sub).chars()
        n = len(self.chars())
        s, e, _ = slice(start, end).indices(n)
        rng = range(s, e - len(sub) + 1)
        for i in (reversed(rng) if rev else rng):
            if bool(self._at(i, sub)):
                return i
        return -1

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand")
        c = self.items if _skips_numbers(sub) else self.chars()
        sub = SymStr.of(sub).chars()
        return bool(any_([_match(c[i:i + len(sub)], sub) for i in range(0, len(c) - len(sub) + 1)]))

    def find(self, sub, start=0, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=0, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=0, end=None):
        r = self._find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=0, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        sub = SymStr.of(sub).chars()
        n = len(self.chars())
        s, e, _ = slice(start, end).indices(n)
        if len(sub) == 0:
            return e - s + 1
        i, c = s, 0
        while i + len(sub) <= e:
            if bool(self._at(i, sub)):
                c += 1
                i += len(sub)
            else:
                i += 1
        return c

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        t = self[start:end] if (start or end is not None) else self
        return bool(t._at(0, SymStr.of(p).chars()))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        t = self[start:end] if (start or end is not None) else self
        p = SymStr.of(p).chars()
        return bool(t._at(len(t.chars()) - len(p), p))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def _in_set(self, c, chars):
        if type(c) is str:
            return any_([_item_eq(c, x) for x in SymStr.of(chars).chars()])
        return any_([_item_eq(c, x) for x in SymStr.of(chars).chars()])

    def lstrip(self, chars=None):
        chars = WS if chars is None else chars
        c = self.chars()
        i = 0
        while i < len(c) and bool(self._in_set(c[i], chars)):
            i += 1
        return SymStr(c[i:])

    def rstrip(self, chars=None):
        chars = WS if chars is None else chars
        c = self.chars()
        i = len(c)
        while i > 0 and bool(self._in_set(c[i - 1], chars)):
            i -= 1
        return SymStr(c[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        c = self.items if _skips_numbers(sep) else self.chars()
        if sep is None:
            out, cur, k = [], [], 0
            for idx, x in enumerate(c):
                if bool(self._in_set(x, WS)):
                    if cur:
                        out.append(SymStr(cur))
                        cur = []
                        k += 1
                        if maxsplit >= 0 and k >= maxsplit:
                            rest = SymStr(c[idx:]).lstrip()
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    cur.append(x)
            if cur:
                out.append(SymStr(cur))
            return out
        s = SymStr.of(sep).chars()
        if not s:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        while i + len(s) <= len(c):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(_match(c[i:i + len(s)], s)):
                out.append(SymStr(c[last:i]))
                i += len(s)
                last = i
            else:
                i += 1
        out.append(SymStr(c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return [SymStr.of(x) for x in self.realize().rsplit(None, maxsplit)]
        out = []
        t = self
        while len(out) < maxsplit:
            i = t.rfind(sep)
            if i < 0:
                break
            out.append(t[i + len(sep):])
            t = t[:i]
        out.append(t)
        return out[::-1]

    def partition(self, sep):
        if self.has_tok and _skips_numbers(sep):
            p = self.split(sep, 1)
            return (p[0], SymStr.of(sep), p[1]) if len(p) == 2 else (self, SymStr(()), SymStr(()))
        i = self.find(sep)
        if i < 0:
            return (self, SymStr(()), SymStr(()))
        return (self[:i], SymStr.of(sep), self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (SymStr(()), SymStr(()), self)
        return (self[:i], SymStr.of(sep), self[i + len(sep):])

    def replace(self, old, new, count=-1):
        old = SymStr.of(old)
        if len(old) == 0:
            return SymStr.of(self.realize().replace('', core.realize_any(new), count))
        parts = self.split(old, count)
        return join(SymStr.of(new), parts)

    def join(self, parts):
        return join(self, parts)

    def _range(self, c, lo, hi):
        """SymBool: code point within [lo,hi]"""
        x = code(c)
        return all_([x >= ord(lo), x <= ord(hi)])

    def lower(self):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.append(c.lower())
            elif bool(self._range(c, 'A', 'Z')):
                out.append(c + 32)
            elif bool(c < 128):
                out.append(c)
            else:
                out.append(chr(core.realize(c)).lower())
        return SymStr([y for x in out for y in (x if type(x) is str else (x,))])

    casefold = lower

    def upper(self):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.append(c.upper())
            elif bool(self._range(c, 'a', 'z')):
                out.append(c - 32)
            elif bool(c < 128):
                out.append(c)
            else:
                out.append(chr(core.realize(c)).upper())
        return SymStr([y for x in out for y in (x if type(x) is str else (x,))])

    def isdigit(self):
        c = self.chars()
        return bool(all_([self._range(x, '0', '9') for x in c])) if c else False

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        c = self.chars()
        return bool(all_([any_([self._range(x, 'a', 'z'), self._range(x, 'A', 'Z')]) for x in c])) if c else False

    def isalnum(self):
        c = self.chars()
        return bool(all_([any_([self._range(x, 'a', 'z'), self._range(x, 'A', 'Z'), self._range(x, '0', '9')])
                          for x in c])) if c else False

    def isspace(self):
        c = self.chars()
        return bool(all_([self._in_set(x, WS) for x in c])) if c else False

    def isupper(self):
        return self.realize().isupper()

    def islower(self):
        return self.realize().islower()

    def isascii(self):
        return bool(all_([code(x) < 128 for x in self.chars()]))

    def splitlines(self, keepends=False):
        if self.is_concrete() or not bool(any_([self._in_set(c, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
                                                for c in self.chars()])):
            if self.is_concrete():
                return [SymStr.of(x) for x in str.__str__(self).splitlines(keepends)]
            return [self] if len(self) else []
        return [SymStr.of(x) for x in self.realize().splitlines(keepends)]

    def encode(self, *a, **k):
        return self.realize().encode(*a, **k)

    def format(self, *a, **k):
        return fmt_format(self, a, k)

    def __format__(self, spec):
        if spec == '' or spec == 's':
            return str.__str__(self)
        return format(self.realize(), spec)

    def __repr__(self):
        return repr(str.__str__(self))

    def __str__(self):
        return str.__str__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (str.__str__(self),))

    def __getnewargs__(self):
        return (str.__str__(self),)


def _digit_next(items):
    for a, b in zip(items, items[1:]):
        if type(a) is IntTok or type(b) is IntTok:
            o = b if type(a) is IntTok else a
            if type(o) is not str or o in '0123456789-':
                return True
    return False


def _mk(name):
    def m(self, *a, **k):
        r = getattr(self.realize(), name)(*[core.realize_any(x) for x in a], **k)
        if isinstance(r, str):
            return SymStr.of(r)
        return r
    m.__name__ = name
    return m


for _n in ('capitalize', 'title', 'swapcase', 'center', 'ljust', 'rjust', 'zfill', 'expandtabs', 'translate',
           'format_map', 'istitle', 'isidentifier', 'isprintable'):
    setattr(SymStr, _n, _mk(_n))


def join(sep, parts):
    out = []
    si = SymStr.of(sep).items
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
        if i:
            out.extend(si)
        out.extend(p.items if type(p) is SymStr else p)
    return SymStr(out)


def to_sym_str(x):
    """str(x) keeping symbolic content"""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr((IntTok(x),))
    if t is SymBool:
        return SymStr.of(str(bool(x)))
    return None


def fmt_parts(parts):
    """f-string: list of literal str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
            continue
        v, conv, spec = p
        if conv == -1 and (spec is None or spec == ''):
            s = to_sym_str(v)
            if s is None:
                from .instrument import sstr
                s = sstr(v)
            out.extend(s.items if type(s) is SymStr else s)
            continue
        if conv == ord('r') and not spec:
            from .instrument import srepr
            s = srepr(v)
            out.extend(s.items if type(s) is SymStr else s)
            continue
        if conv == ord('s') and not spec:
            from .instrument import sstr
            s = sstr(v)
            out.extend(s.items if type(s) is SymStr else s)
            continue
        elif conv == ord('s'):
            v = str(core.realize_any(v))
        elif conv == ord('r'):
            v = repr(v)
        elif conv == ord('a'):
            v = ascii(core.realize_any(v))
        out.extend(format(core.realize_any(v), core.realize_any(spec) if spec else ''))
    for o in out:
        if type(o) is not str:
            return SymStr(out)
    return ''.join(out)


def _has_sym(x):
    t = type(x)
    if t is SymStr or t is SymInt or t is SymBool:
        return True
    if t in (tuple, list):
        return any(_has_sym(y) for y in x)
    if t is dict:
        return any(_has_sym(y) for y in x.values())
    return False


def fmt_percent(f, args):
    if not _has_sym(f) and not _has_sym(args):
        return str.__mod__(str.__str__(f), args)
    fs = f.realize() if type(f) is SymStr else f
    if isinstance(args, dict):
        return SymStr.of(fs % {k: core.realize_any(v) for k, v in args.items()})
    a = args if type(args) is tuple else (args,)
    import re
    out = []
    pos = 0
    idx = 0
    for m in re.finditer(r'%(%|[#0\- +]*\d*(?:\.\d+)?[a-zA-Z])', fs):
        out.extend(fs[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        v = a[idx]
        idx += 1
        if m.group(1) in ('s', 'd') and _has_sym(v):
            s = to_sym_str(v)
            if s is not None:
                out.extend(s.items)
                continue
        if m.group(1) == '02X' and type(v) is SymInt and v.lin:
            lo, hi = v.bounds()
            if lo is not None and lo >= 0 and hi is not None and hi <= 255:
                out.append(hexdigit(v // 16))
                out.append(hexdigit(v % 16))
                continue
        out.extend(('%' + m.group(1)) % (core.realize_any(v),))
    if idx != len(a):
        raise TypeError('not all arguments converted during string formatting')
    out.extend(fs[pos:])
    return SymStr(out)


def hexdigit(d):
    """code point of an upper-case hex digit as a symbolic int (ite)"""
    if not d.lin:
        return '0123456789ABCDEF'[d.const]
    from .core import Atom
    key = ('hexd', d.lin, d.const)
    at = Atom.get(key, lambda: z3.If(d.z <= 9, d.z + 48, d.z + 55), 48, 70)
    return SymInt(((at, 1),), 0, ord('0123456789ABCDEF'[d.val]))


def fmt_format(f, a, k):
    fs = f.realize() if type(f) is SymStr else f
    if not _has_sym(tuple(a)) and not _has_sym(k):
        r = fs.format(*a, **k)
        return SymStr.of(r) if type(f) is SymStr else r
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fs):
        out.extend(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return SymStr.of(fs.format(*[core.realize_any(x) for x in a],
                                       **{x: core.realize_any(y) for x, y in k.items()}))
        s = to_sym_str(v) if not spec and not conv else None
        if s is not None:
            out.extend(s.items)
        else:
            out.extend(format(str(core.realize_any(v)) if conv == 's' else core.realize_any(v), spec or ''))
    return SymStr(out)
