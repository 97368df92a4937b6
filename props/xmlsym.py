"""Carries symbolic text through xml.etree and files.

Symbolic characters leave Python-level code (escaping) as private-use characters that stand for them, after the solver has separated the
characters XML or an encoding treats specially; the parser's result is mapped back.  The XML library itself is trusted."""
import xml.etree.ElementTree as ET

BASE, LIMIT = 0xE000, 0xF8FF
TEXT = ((9, 10), (13, 13), (0x20, 0x7E), (0xA0, 0xD7FF), (0xF900, 0xFFFD), (0x10000, 0x10FFFF))
_table = []
_index = {}
SPECIAL = '&<>"\'\t\n\r '


def reset():
    _table.clear()
    _index.clear()


def to_native(s):
    from symex import core, strs
    if type(s) is not strs.SymStr:
        return s
    out = []
    for it in s.items:
        if type(it) is str:
            out.append(it)
            continue
        if type(it) is strs.IntTok:
            key = ('i', it.sym.lin, it.sym.const)
        else:
            done = False
            for ch in SPECIAL:
                if bool(it == ord(ch)):
                    out.append(ch)
                    done = True
                    break
            if done:
                continue
            for lim in (0x80, 0x100, 0x10000):
                if bool(it < lim):
                    break
            if not it.lin:
                out.append(chr(it.const))
                continue
            key = ('c', it.lin, it.const)
        if key not in _index:
            _index[key] = len(_table)
            _table.append(it)
            assert BASE + len(_table) < LIMIT
        out.append(chr(BASE + _index[key]))
    return ''.join(out)


def from_native(s):
    from symex.strs import SymStr
    if type(s) is not str:
        return s
    for c in s:
        if BASE <= ord(c) <= LIMIT:
            return SymStr([_table[ord(x) - BASE] if BASE <= ord(x) <= LIMIT and ord(x) - BASE < len(_table) else x for x in s])
    return s


def _fix(e):
    for k in list(e.attrib):
        v = from_native(e.attrib[k])
        if type(v) is not str:
            e.attrib[k] = v
    if e.text is not None:
        e.text = from_native(e.text)


def _walk(e):
    for x in e.iter():
        _fix(x)
    return e


def install(symbolic):
    if not symbolic:
        return
    from symex import instrument
    for nm in ('_escape_attrib', '_escape_cdata'):
        real = getattr(ET, nm)

        def esc(text, _real=real):
            from symex.strs import SymStr
            if type(text) is SymStr and text.sole_tok() is not None:
                return to_native(text)
            return to_native(_real(text))
        setattr(ET, nm, esc)
    rparse, rfs, rxml, rit = ET.parse, ET.fromstring, ET.XML, ET.iterparse

    def parse(*a, **k):
        t = rparse(*a, **k)
        _walk(t.getroot())
        return t

    def fromstring(text, *a, **k):
        return _walk(rfs(to_native(text), *a, **k))

    def iterparse(*a, **k):
        for ev, el in rit(*a, **k):
            if hasattr(el, 'attrib'):
                _fix(el)
            yield ev, el
    instrument.HANDLERS[rparse] = parse
    instrument.HANDLERS[rfs] = fromstring
    instrument.HANDLERS[rxml] = fromstring
    instrument.HANDLERS[rit] = iterparse
    instrument.WRITE_HOOKS.append(lambda obj, text: to_native(text))


def quote(ctx, s):
    """an attribute value as it has to be written by hand"""
    from xml.sax.saxutils import quoteattr
    if not ctx.symbolic:
        return quoteattr(s)
    from symex.strs import SymStr
    t = SymStr.of(s)
    n = to_native(t)
    return quoteattr(n)
