"""prof.py PROP: run each config of PROP alone (serially, concrete validation off) and print paths/time of the slowest"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import runner
runner.setup_paths(True)
from symex import instrument
instrument.install()
pid = sys.argv[1]
mod = runner.load_prop(pid)
mod.setup(True)
from symex.core import Stats
from symex.explore import Explorer
out = []
so = sys.stdout
for c in mod.configs('quick'):
    if len(sys.argv) > 2 and sys.argv[2] not in c['name']:
        continue
    ex = Explorer(mod, lambda cfg, a: ('ok', ''), 20.0, 0.0)
    st = Stats()
    sys.stdout = open(os.devnull, 'w')
    t = time.time()
    left, viol, unrep, inc, smp = ex.explore(c, [([], {})], 'symbolic', 20.0, st)
    sys.stdout = so
    out.append((time.time() - t, st.paths, c['name'], len(left), unrep[:1]))
out.sort(reverse=True, key=lambda x: x[0])
print('total', sum(o[0] for o in out))
for o in out[:25]:
    print('%.2fs %d paths %s left=%d %s' % o)
