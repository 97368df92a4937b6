"""builds the part of the Rust backend that needs no missing crate and main.rs on top of it; build.py OUTDIR, from the repository"""
import os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(os.getcwd(), 'src/rust/ficus_backend/src')
O = sys.argv[1]
DROP = ('event_log/bxes', 'event_log/xes', 'features/clustering', 'features/discovery/petri_net/pnml_serialization.rs', 'utils/colors.rs',
        'utils/dataset', 'utils/distance', 'utils/performance', 'utils/xml_utils.rs')
# the XML modules only for what uses them
with open(os.path.join(H, 'main.rs')) as f:
    m = f.read()
XML = 'ficus_backend::event_log::xes' in m or 'pnml_serialization' in m
if XML:
    DROP = tuple(x for x in DROP if x != 'event_log/xes' and 'pnml' not in x and 'xml' not in x)
STUBS = (('quick_xml',) if XML else ()) + ('chrono', 'uuid', 'fancy_regex', 'once_cell', 'lazycell')
F = ['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'debuginfo=0', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '--out-dir', O]
D = O + '/src'
for top in ('utils', 'event_log', 'features'):
    for d, _, fs in os.walk(os.path.join(S, top)):
        rel = os.path.relpath(d, S)
        if any(rel == x or rel.startswith(x + '/') for x in DROP):
            continue
        os.makedirs(os.path.join(D, rel))
        for f in fs:
            if f.endswith('.rs') and os.path.join(rel, f) not in DROP:
                t = open(os.path.join(d, f), encoding='utf-8').read()
                if f == 'mod.rs':
                    for x in DROP:
                        if os.path.dirname(x) == rel:
                            t = re.sub(r'(?m)^\s*(pub(\([a-z]+\))?\s+)?mod\s+%s\s*;' % re.escape(os.path.basename(x).removesuffix('.rs')), '', t)
                open(os.path.join(D, rel, f), 'w', encoding='utf-8').write(t)
os.makedirs(D + '/pipelines')
open(D + '/pipelines/mod.rs', 'w').write('pub mod aliases;\n')
open(D + '/pipelines/aliases.rs', 'w').write('''use crate::features::analysis::patterns::{activity_instances::ActivityInTraceInfo, repeat_sets::ActivityNode};
use std::{cell::RefCell, rc::Rc};
pub type TracesActivities = Vec<Vec<ActivityInTraceInfo>>;
pub type Activities = Vec<Rc<RefCell<ActivityNode>>>;
''')
open(D + '/lib.rs', 'w').write('pub mod event_log;\npub mod features;\npub mod pipelines;\npub mod utils;\n')
ps = [subprocess.Popen(F + ['--crate-type', 'rlib', '--crate-name', s, os.path.join(H, s + '.rs')]) for s in STUBS]
if any([p.wait() for p in ps]):
    sys.exit(2)
E = [a for s in STUBS for a in ('--extern', '%s=%s/lib%s.rlib' % (s, O, s))]
if subprocess.run(F + E + ['-L', O, '--crate-type', 'rlib', '--crate-name', 'ficus_backend', D + '/lib.rs']).returncode:
    sys.exit(2)
sys.exit(2 * bool(subprocess.run(F + E + ['-L', O, '--extern', 'ficus_backend=%s/libficus_backend.rlib' % O, '--crate-name', 'demo', os.path.join(H, 'main.rs')]).returncode))
