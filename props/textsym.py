"""Printed text and written text files: recorded with their symbolic content in a symbolic run, real ones otherwise."""
import contextlib
import io
import os
import shutil
import sys
import tempfile


class _File:
    def __init__(self, store, key, mode):
        self.store, self.key, self.mode, self.closed, self.pos = store, key, mode, False, 0
        if 'w' in mode or 'x' in mode:
            store[key] = []
        elif 'a' in mode:
            store.setdefault(key, [])
        elif key not in store:
            raise FileNotFoundError(key)

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str, not ' + type(text).__name__)
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.store[self.key].append(text)
        return 0

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self):
        return _join(self.store[self.key])

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _join(parts):
    from symex import strs
    return strs.join('', parts)


class Capture:
    def __init__(self, symbolic):
        self.symbolic, self.files, self.out = symbolic, {}, []

    def printed(self):
        return _join(self.out) if self.symbolic else self.out.getvalue()

    def exists(self, path):
        return os.path.normpath(path) in self.files if self.symbolic else os.path.isfile(path)

    def file(self, path):
        if self.symbolic:
            return _join(self.files[os.path.normpath(path)])
        with open(path, encoding='utf-8', newline='') as f:
            return f.read()

    def names(self):
        if self.symbolic:
            return sorted(self.files)
        return sorted(os.path.relpath(os.path.join(d, f), '.') for d, _, fs in os.walk('.') for f in fs)


class _Stdout:
    def __init__(self, out):
        self.out = out

    def write(self, text):
        self.out.append(text)
        return len(text)

    def flush(self):
        pass


@contextlib.contextmanager
def capture(ctx):
    """inside: a scratch working directory; what the library prints and writes is recorded"""
    old, cwd = sys.stdout, os.getcwd()
    c = Capture(ctx.symbolic)
    d = tempfile.mkdtemp(prefix='verif_text_', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    os.chdir(d)
    H = None
    try:
        if ctx.symbolic:
            from symex import instrument
            H = instrument.HANDLERS
            keep = {k: H.get(k) for k in (open, print)}

            def _open(path, mode='r', *a, **k):
                if 'b' in mode or type(path) is int:
                    return open(path, mode, *a, **k)
                if k.get('encoding') not in (None, 'utf-8', 'UTF-8', 'utf8', 'utf_8'):
                    raise ValueError('encoding')
                return _File(c.files, os.path.normpath(str(path)), mode)

            def _print(*a, sep=' ', end='\n', file=None, flush=False):
                text = instrument.strs.join(' ' if sep is None else sep, [instrument.sstr(x) for x in a])
                (sys.stdout if file is None else file).write(instrument.strs.join('', [text, '\n' if end is None else end]))
            H[open], H[print] = _open, _print
            sys.stdout = _Stdout(c.out)
        else:
            c.out = io.StringIO()
            sys.stdout = c.out
        yield c
    finally:
        sys.stdout = old
        if H is not None:
            for k, v in keep.items():
                if v is None:
                    H.pop(k, None)
                else:
                    H[k] = v
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
