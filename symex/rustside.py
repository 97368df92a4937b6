"""Runs jobs of a driver on the real Rust code.  In the symbolic build every comparison of elements comes here and is decided by the
solver; in the native build (replays, and the fallback when the symbolic build is impossible) elements are plain numbers."""
import ast
import os
import re
import select
import subprocess

from . import rustbuild
from .core import PathTimeout


class RustPanic(Exception):
    pass


class Driver:
    """driver NAME; prefixes: the modules whose functions are listed in the evidence; fresh: every call in a process of its own, for
    code whose results depend on the calls before (ids that are counted on)"""

    def __init__(self, name, prefixes, fresh=False):
        self.name, self.prefixes, self.fresh = name, prefixes, fresh
        self.exe = {}
        self.proc = None
        self.fallback = False

    def setup(self, symbolic):
        self.exe = rustbuild.build(self.name)
        if self.exe['native'] is None:
            raise RuntimeError('the Rust code does not build\n' + self.exe['log'])
        self.fallback = self.exe['sym'] is None
        if symbolic:
            self.functions()

    def functions(self):
        from . import instrument
        exe = self.exe['sym'] or self.exe['native']
        out = subprocess.run(['nm', '-C', exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        for line in out.splitlines():
            s = line.split(' ', 2)[-1]
            for p in self.prefixes:
                k = s.find('ficus_backend::' + p)
                if k >= 0 and 'sym::' not in s and 'drop_in_place' not in s:
                    f = s[k + 15:].split('::{')[0].split('::h')[0]
                    f = f.split('>')[0].split('<')[0].rstrip(':') if f[:1] != '<' else f
                    instrument.EXECUTED.add(('rust/ficus_backend/src/' + p.replace('::', '/'), f.split(' ')[0]))

    def stop(self):
        if self.proc is not None:
            p, self.proc = self.proc, None
            p[1].kill()
            p[1].wait()
            p[1].stdin.close()
            p[1].stdout.close()

    def start(self, kind):
        if self.proc is not None and self.proc[0] == (os.getpid(), kind):
            return self.proc[1]
        if self.proc is not None and self.proc[0][0] == os.getpid():
            self.stop()
        p = subprocess.Popen([self.exe[kind]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.proc = ((os.getpid(), kind), p)
        self.buf = b''
        return p

    def line(self, p):
        while b'\n' not in self.buf:
            r, _, _ = select.select([p.stdout], [], [], 20.0)
            if not r:
                raise PathTimeout()
            x = os.read(p.stdout.fileno(), 1 << 16)
            if not x:
                raise RustPanic('the process ended')
            self.buf += x
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()

    def call(self, ctx, cmd, args, seed=0):
        """args: numbers and names are passed on; El(value) is an element; returns the literal the driver answers"""
        els = [a.v for a in args if isinstance(a, El)]
        sym = ctx.symbolic and any(type(v) is not int for v in els)
        self.back = None
        if sym and self.fallback:
            vals, els, sym = els, ranks(els), False
            self.back = {r: v for r, v in zip(els, vals)}
        toks, k = [cmd, str(seed)], 0
        for a in args:
            if isinstance(a, El):
                toks.append(str(k if sym else els[k]))
                k += 1
            else:
                toks.append(str(a))
        ok = False
        if self.fresh:
            self.stop()
        try:
            p = self.start('sym' if sym else 'native')
            p.stdin.write((' '.join(toks) + '\n').encode())
            reps = []
            if sym:
                self.back = reps
            while True:
                l = self.line(p)
                c = l[0]
                if c == '=':
                    ok = True
                    return ast.literal_eval(l[2:])
                if c == '!':
                    ok = True
                    raise RustPanic(l[2:])
                _, a, b = l.split()
                a, b = els[int(a)], els[int(b)]
                if c == 'e':
                    r = 1 if bool(a == b) else 0
                elif c == 'l':
                    r = 0 if bool(a == b) else (-1 if bool(a < b) else 1)
                else:
                    for r, x in enumerate(reps):
                        if bool(a == x):
                            break
                    else:
                        r = len(reps)
                        reps.append(a)
                p.stdin.write(b'%d\n' % r)
        finally:
            if not ok:
                self.stop()


    def known(self, name, values, classes):
        """the class of an answered name: that of the value it stands for, or the text itself"""
        m = re.fullmatch('\u00a7(\\d+)\u00a7|n(\\d{20})', name)
        if not m:
            return name
        v = self.back[int(m[1])] if m[1] else int(m[2]) if self.back is None else self.back[int(m[2])]
        for x, c in zip(values, classes):
            if bool(x == v):
                return c
        return name


class El:
    def __init__(self, v):
        self.v = v


def els(xs):
    return [len(xs)] + [El(x) for x in xs]


def words(ws):
    out = [len(ws)]
    for w in ws:
        out += els(w)
    return out


def ranks(xs):
    order = []
    for x in xs:
        for i, y in enumerate(order):
            if bool(x == y):
                break
            if bool(x < y):
                order.insert(i, x)
                break
        else:
            order.append(x)
    return [next(i for i, y in enumerate(order) if bool(x == y)) for x in xs]
