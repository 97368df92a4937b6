"""Behaviour-preserving rewrites of functions of the product, applied to a scratch copy: every check has to stay quiet.

    python3 refac.py            all rewrites at once, stable tests, then every check
    python3 refac.py C08 C13    only these checks
    python3 refac.py -2 | -3 ... the second or third set of rewrites
    python3 refac.py --each C08 rewrite by rewrite (to find the one a check objects to)
"""
import ast
import json
import os
import shutil
import subprocess
import sys

REWRITES = []
L = 'src/python/ficus/legacy/'
G = 'src/python/ficus/grpc_pipelines/'


def R(path, name, source):
    REWRITES.append((path, name, source))


def apply(root, rewrites):
    by_file = {}
    for path, name, source in rewrites:
        by_file.setdefault(path, []).append((name, source))
    for path, edits in by_file.items():
        full = os.path.join(root, path)
        data = open(full, newline='').read()
        crlf = '\r\n' in data
        for name, source in edits:
            text = data.replace('\r\n', '\n')
            lines = text.split('\n')
            node = find(ast.parse(text), name.split('.'))
            start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
            new = source.strip('\n').split('\n')
            indent = ' ' * node.col_offset
            lines[start:node.end_lineno] = [indent + l if l else l for l in new]
            data = '\n'.join(lines)
        ast.parse(data)
        open(full, 'w', newline='').write(data.replace('\n', '\r\n') if crlf else data)


def find(tree, names):
    for node in tree.body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name == names[0]:
            return node if len(names) == 1 else find(node, names[1:])
    raise KeyError(names)


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import refac
    import importlib
    importlib.import_module('refac_cases2' if '-2' in sys.argv else 'refac_cases3' if '-3' in sys.argv else 'refac_cases')     # fills refac.REWRITES
    from seed import tests
    args = sys.argv[1:]
    each = '--each' in args
    props = [a for a in args if a.startswith('C')] or [
        c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    groups = [[r] for r in refac.REWRITES] if each else [refac.REWRITES]
    for rewrites in groups:
        w = '/tmp/refac_w'
        shutil.rmtree('/tmp/refac_w', ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        try:
            apply(w, rewrites)
            bad = tests(w)
            print('tests', bad, [r[1] for r in rewrites] if each else len(rewrites), flush=True)
            if bad:
                continue
            for p in props:
                env = dict(os.environ, VERIF_REPO_SRC=w + '/src/python', VERIF_OUT='/tmp/ev_refac', VERIF_SEED='1')
                r = subprocess.run(['/verif/run.sh', p, 'quick'], env=env, capture_output=True, text=True)
                if r.returncode != 0 or not each:
                    print(p, 'quiet' if r.returncode == 0 else 'ALARM %d' % r.returncode,
                          '' if r.returncode == 0 else (r.stdout + r.stderr)[-700:], flush=True)
        finally:
            shutil.rmtree('/tmp/refac_w', ignore_errors=True)


if __name__ == '__main__':
    main()
