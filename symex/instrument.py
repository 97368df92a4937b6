"""Import hook: loads ficus.* from /repo's current source with call/format/membership operations routed
through the symbolic runtime.  The rewrite is purely structural (no knowledge of Ficus), so the encoding
is regenerated from whatever the source says today."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core, strs
from .core import SymInt, SymBool, SymReal, SymHash, CONST_HASH
from .strs import SymStr

SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src/python')
PKG = 'ficus'
ENCODED = {}            # module -> {qualname: source sha}
EXECUTED = set()        # (module, function) reached during runs

SYMT = (SymInt, SymBool, SymReal, SymHash, SymStr)
_symset = frozenset(SYMT)


def has_sym(x, depth=2):
    t = type(x)
    if t in _symset:
        return True
    if depth and t in (tuple, list):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    return False


# ------------------------------------------------------------------ handlers
def h_hash(x):
    t = type(x)
    if t is SymInt or t is SymHash:
        return x
    if t is SymBool:
        return hash(bool(x))
    if t is SymStr:
        if x.is_concrete():
            return SymHash(('s',) + (x,))
        return SymHash(('s', x))
    if t is tuple:
        if has_sym(x, 3):
            return SymHash(('t', len(x)) + tuple(h_hash(y) if type(y) is not int else y for y in x))
        return hash(x)
    m = getattr(t, '__hash__', None)
    raw = getattr(m, '_symex_raw', None)
    if raw is not None:
        return raw(x)
    return hash(x)


def h_ord(c):
    if type(c) is SymStr:
        ch = c.chars()
        if len(ch) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(ch))
        return strs.code(ch[0])
    return ord(c)


def h_chr(i):
    if type(i) is SymInt:
        return SymStr((i,))
    return chr(i)


def _dataclass_repr(x):
    """the generated repr of a data class with symbolic content, otherwise None"""
    t = type(x)
    f = getattr(t, '__dataclass_fields__', None)
    if f is None or not hasattr(t.__repr__, '__wrapped__'):
        return None
    v = [(n, getattr(x, n)) for n, d in f.items() if d.repr and d._field_type.name == '_FIELD']
    if not any(has_sym_deep(y) for _, y in v):
        return None
    return SymStr.of(t.__qualname__ + '(') + strs.join(', ', [SymStr.of(n + '=') + srepr(y) for n, y in v]) + ')'


def sstr(x):
    s = strs.to_sym_str(x)
    if s is not None:
        return s
    m = type(x).__str__
    if m is object.__str__:
        s = _dataclass_repr(x)
        if s is not None:
            return s
    if isinstance(m, types.FunctionType) and getattr(m, '__module__', '').startswith(PKG):
        return m(x)
    if isinstance(m, types.FunctionType):
        return str(x)
    if type(x) in (list, tuple, set, dict) and has_sym_deep(x):
        return srepr(x)
    return str(x)


def has_sym_deep(x, d=4):
    t = type(x)
    if t in _symset:
        return True
    if d and t in (list, tuple, set, frozenset):
        return any(has_sym_deep(y, d - 1) for y in x)
    if d and t is dict:
        return any(has_sym_deep(a, d - 1) or has_sym_deep(b, d - 1) for a, b in x.items())
    return False


def srepr(x):
    """repr of containers keeping symbolic content (no quote escaping: quotes/backslashes are realised)"""
    t = type(x)
    if t is SymStr:
        c = x.chars()
        special = core.any_([strs._item_eq(y, z) for y in c for z in "'\\\n\r\t"])
        if bool(special):
            return SymStr.of(repr(x.realize()))
        nonp = core.any_([core.not_(core.all_([strs.code(y) >= 32, strs.code(y) <= 126])) for y in c])
        if bool(nonp):
            return SymStr.of(repr(x.realize()))
        return SymStr(("'",) + c + ("'",))
    if t is SymInt:
        return SymStr((strs.IntTok(x),))
    if t is SymBool:
        return repr(bool(x))
    if t in (list, tuple, set, frozenset) and has_sym_deep(x):
        o, c = {list: '[]', tuple: '()', set: '{}'}.get(t, ('frozenset({', '})'))
        body = strs.join(', ', [srepr(y) for y in x])
        if t is tuple and len(x) == 1:
            body = body + ','
        return SymStr.of(o) + body + c
    if t is dict and has_sym_deep(x):
        return SymStr.of('{') + strs.join(', ', [SymStr.of(srepr(a)) + ': ' + srepr(b) for a, b in x.items()]) + '}'
    s = _dataclass_repr(x)
    if s is not None:
        return s
    m = type(x).__repr__
    if isinstance(m, types.FunctionType) and getattr(m, '__module__', '').startswith(PKG):
        return m(x)
    return repr(x)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        return sstr(a[0])
    return str(*a, **k)


def h_repr(x):
    return srepr(x)


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymStr:
            s = x.sole_tok()
            if s is not None:
                return s
            return int(x.realize())
        if t in _symset:
            return int(core.realize_any(x))
    return int(*[core.realize_any(y) for y in a], **k)


def h_float(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymReal:
            return x
        if type(x) in _symset:
            return float(core.realize_any(x))
    return float(*a)


def h_bool(*a):
    if len(a) == 1 and type(a[0]) is SymBool:
        return a[0]
    return bool(*a)


def h_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in _symset:
            return {SymInt: int, SymBool: bool, SymReal: float, SymHash: int, SymStr: str}[t]
        return t
    return type(*a)


def h_print(*a, **k):
    return None


def h_format(v, spec=''):
    return strs.fmt_parts([(v, -1, spec)])


def h_round(x, n=None):
    if type(x) is SymInt:
        return x
    return round(x, n) if n is not None else round(x)


def h_ascii(x):
    return ascii(core.realize_any(x))


HANDLERS = {
    hash: h_hash, ord: h_ord, chr: h_chr, str: h_str, repr: h_repr, int: h_int, float: h_float, bool: h_bool,
    type: h_type, print: h_print, format: h_format, round: h_round, ascii: h_ascii,
}

# class -> str-method names for plain str receivers with symbolic arguments
_STR_METHODS = {'join', 'split', 'rsplit', 'replace', 'startswith', 'endswith', 'find', 'rfind', 'index', 'rindex',
                'count', 'strip', 'lstrip', 'rstrip', 'partition', 'rpartition', 'format', 'removeprefix',
                'removesuffix', '__contains__', '__eq__', '__add__', '__mod__', '__lt__', '__ne__'}

BUILTIN = types.BuiltinFunctionType
METHODDESC = type(str.join)
WRITE_HOOKS = []            # callables(obj, text SymStr) -> str or None
RESULT_HOOK = None          # callable(str) -> str / SymStr


def call(f, /, *args, **kw):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        h = HANDLERS.get(f) if tf is types.FunctionType else None
        r = h(*args, **kw) if h is not None else f(*args, **kw)
    elif tf is BUILTIN:
        s = f.__self__
        ts = type(s)
        if ts is str:
            if f.__name__ in _STR_METHODS:
                if args and (has_sym(args[0]) or f.__name__ in ('join', 'format')):
                    if f.__name__ == 'join':
                        parts = list(args[0])
                        if any(type(p) is SymStr for p in parts):
                            return strs.join(s, parts)
                        return s.join(parts)
                    if f.__name__ == 'format':
                        return strs.fmt_format(s, args, kw)
                    return getattr(SymStr.of(s), f.__name__)(*args, **kw)
            return f(*args, **kw)
        if ts is types.ModuleType or s is None:
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            r = f(*args, **kw)
        else:
            if f.__name__ == 'write' and args and type(args[0]) is SymStr and WRITE_HOOKS:
                for wh in WRITE_HOOKS:
                    t = wh(s, args[0])
                    if t is not None:
                        return f(t)
            if args and f.__name__ in _KEYED and isinstance(s, (dict, set)):
                args = (key(s, args[0]),) + args[1:]
            r = f(*args, **kw)
    else:
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            r = h(*args, **kw)
        elif tf is METHODDESC and f.__objclass__ is str and args and (has_sym(args[0]) or has_sym(args[1:])):
            r = getattr(SymStr.of(args[0]), f.__name__)(*args[1:], **kw)
        else:
            r = f(*args, **kw)
    if RESULT_HOOK is not None and type(r) is str:
        return RESULT_HOOK(r)
    return r


def contains(a, b):
    """a in b"""
    tb = type(b)
    if tb is str:
        if type(a) is SymStr:
            return SymStr.of(b).__contains__(a)
        return a in b
    if tb in (dict, set, frozenset) or tb is _dict_keys:
        if a in b:
            return True
        ta = type(a)
        if ta is SymStr or ta is SymInt:
            lit = str if ta is SymStr else int
            for k in b:
                if type(k) is lit and bool(a == k):
                    return True
        elif ta is str or ta is int:
            sy = SymStr if ta is str else SymInt
            for k in b:
                if type(k) is sy and bool(k == a):
                    return True
        return False
    return a in b


_dict_keys = type({}.keys())
_KEYED = {'get', 'pop', 'setdefault', 'add', 'discard', 'remove', '__getitem__', '__setitem__', '__contains__', '__delitem__'}
_FLIP = {SymStr: str, SymInt: int, str: SymStr, int: SymInt}


def key(b, a):
    """the key of the dict / set b that is equal to a, when one side is symbolic and the other a plain value (their native hashes
    differ, so the container itself would not find it); otherwise a"""
    ta = type(a)
    if (ta is SymStr or ta is SymInt or ta is str) and isinstance(b, (dict, set)) and a not in b:
        o = _FLIP[ta]
        for k in b:
            if type(k) is o and bool(a == k):
                return k
    return a


def fmt(*parts):
    return strs.fmt_parts(parts)


def mod(a, b):
    if type(a) is str or type(a) is SymStr:
        return strs.fmt_percent(a, b)
    return a % b


def hashwrap(fn):
    def __hash__(self):
        r = fn(self)
        if type(r) in _symset:
            return CONST_HASH
        return r
    __hash__._symex_raw = fn
    return __hash__


class Runtime:
    call = staticmethod(call)
    contains = staticmethod(contains)
    key = staticmethod(key)
    fmt = staticmethod(fmt)
    mod = staticmethod(mod)
    hashwrap = staticmethod(hashwrap)


NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


def _pure(n):
    """evaluating n twice has no effect"""
    if isinstance(n, ast.Name):
        return True
    if isinstance(n, ast.Attribute):
        return _pure(n.value)
    if isinstance(n, ast.Subscript):
        return _pure(n.value) and isinstance(n.slice, (ast.Name, ast.Constant, ast.Attribute)) and (not isinstance(n.slice, ast.Attribute) or _pure(n.slice))
    return False


class Rewriter(ast.NodeTransformer):
    def _rt(self, name, node):
        return ast.copy_location(
            ast.Attribute(value=ast.Name(id='_symex_', ctx=ast.Load()), attr=name, ctx=ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        return ast.copy_location(
            ast.Call(func=self._rt('call', node), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(value=None)
                if v.format_spec is not None:
                    spec = self.visit_JoinedStr(v.format_spec)
                args.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=self._rt('fmt', node), args=args, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(func=self._rt('mod', node), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.copy_location(
                ast.Call(func=self._rt('contains', node), args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_Subscript(self, node):
        pure = _pure(node.value)
        const = isinstance(node.slice, (ast.Slice, ast.Tuple)) or (isinstance(node.slice, (ast.Constant, ast.UnaryOp)) and not (
            isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str)))
        import copy
        base = ast.copy_location(copy.deepcopy(node.value), node.value) if pure and not const else None
        self.generic_visit(node)
        if base is not None:
            for x in ast.walk(base):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            node.slice = ast.copy_location(ast.Call(func=self._rt('key', node), args=[base, node.slice], keywords=[]), node.slice)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name == '__hash__':
            node.decorator_list.append(self._rt('hashwrap', node))
        return node

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value is not None else None
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node


def _collect(tree, module, src):
    import hashlib
    out = {}

    def rec(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = pre + c.name
                out[q] = (c.lineno, hashlib.sha256(ast.dump(c).encode()).hexdigest()[:12])
                rec(c, q + '.')
            elif isinstance(c, ast.ClassDef):
                rec(c, pre + c.name + '.')
            else:
                rec(c, pre)
    rec(tree, '')
    ENCODED[module] = out


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if '_pb2' not in self.name:
            _collect(tree, self.name, src)
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
            module.__dict__['_symex_'] = Runtime
        exec(compile(tree, self.path, 'exec', dont_inherit=True), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        base = os.path.join(SRC, *fullname.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if os.path.exists(init):
                spec = importlib.util.spec_from_file_location(
                    fullname, init, loader=Loader(fullname, init, True), submodule_search_locations=[base])
                return spec
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=Loader(fullname, base + '.py', False))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
