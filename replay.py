#!/opt/venv/bin/python
"""Replay a recorded counterexample on the unmodified code of /repo.  exit 1: reproduced, 0: property held."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex.runner import setup_paths, load_prop, limit_memory
limit_memory()
setup_paths(True)
with open(sys.argv[1]) as f:
    r = json.load(f)
mod = load_prop(r['property'])
real = sys.stdout
sys.stdout = open(os.devnull, 'w')
if hasattr(mod, 'setup'):
    mod.setup(False)
from symex.explore import run_concrete, dec
st, msg = run_concrete(mod, r['config'], dec(r['assignment']), float(os.environ.get('REPLAY_TIMEOUT', '20')))
sys.stdout = real
print(st, msg)
print('input:', r['config'], r['assignment'])
sys.exit(1 if st == 'violation' else 0)
