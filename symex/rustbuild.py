"""Builds the part of the Rust backend that needs no missing crate, from /repo's current source."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

from .runner import SRC

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rust')
RSRC = os.path.join(os.path.dirname(os.path.abspath(SRC)), 'rust', 'ficus_backend', 'src')
# not built: modules on crates that are not available (quick-xml, linfa, ndarray, rand, stopwatch, tonic, prost, bxes)
TOP = ('utils', 'event_log', 'features')
DROP = ('event_log/bxes', 'event_log/xes', 'features/clustering', 'features/discovery/petri_net/pnml_serialization.rs', 'utils/colors.rs',
        'utils/dataset', 'utils/distance', 'utils/performance', 'utils/xml_utils.rs')
# the XML modules are built for the drivers that use them
XML = ('event_log/xes', 'features/discovery/petri_net/pnml_serialization.rs', 'utils/xml_utils.rs')
XML_DRIVERS = ('xml',)
STUBS = ('quick_xml', 'chrono', 'uuid', 'fancy_regex', 'once_cell', 'lazycell')
ALIASES = '''use crate::features::analysis::patterns::{activity_instances::ActivityInTraceInfo, repeat_sets::ActivityNode};
use std::{cell::RefCell, rc::Rc};
pub type TracesActivities = Vec<Vec<ActivityInTraceInfo>>;
pub type Activities = Vec<Rc<RefCell<ActivityNode>>>;
'''
FLAGS = ['--edition', '2021', '-A', 'warnings', '-C', 'opt-level=1', '-C', 'debuginfo=0', '-C', 'codegen-units=8', '-C', 'overflow-checks=on',
         '-C', 'debug-assertions=on']


def symbolic(rel, t, names):
    """names (String) become symbolic everywhere, event classes (u64) in the pattern modules"""
    head = ''
    if names:
        head, t = symbolic_names(t)
    if rel == 'features/analysis/patterns':
        head += 'use crate::sym::Sym as u64;\n'
    return head + t


def symbolic_names(t):
    t = re.sub(r'(?m)^\s*use std::string::(ToString|String);', '', t)
    t = t.replace('.to_string()', '.to_name()').replace('.to_owned()', '.own()').replace('.to_rfc3339()', '.to_rfc3339().to_name()')
    t = re.sub(r'\bfn to_string\(', 'fn to_name(', t)
    t = re.sub(r'\bToString\b', 'ToName', t)
    t = re.sub(r'(?<!std::)\bformat!', 'crate::format_name!', t)
    head = 'use crate::sym::{Name as String, Own as _, ToName, JoinNames as _};\n'
    return head, t


def tree(dst, sym, names=True, xml=False):
    """copies the modules; with sym, event classes (u64 in the pattern modules) become symbolic elements"""
    drop = [x for x in DROP if not (xml and x in XML)]
    for top in TOP:
        for d, _, fs in os.walk(os.path.join(RSRC, top)):
            rel = os.path.relpath(d, RSRC)
            if any(rel == x or rel.startswith(x + '/') for x in drop):
                continue
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in fs:
                r = os.path.join(rel, f)
                if not f.endswith('.rs') or r in drop:
                    continue
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    t = h.read()
                if f == 'mod.rs':
                    for x in drop:
                        if os.path.dirname(x) == rel:
                            t = re.sub(r'(?m)^\s*(pub(\([a-z]+\))?\s+)?mod\s+%s\s*;' % re.escape(os.path.basename(x).removesuffix('.rs')), '', t)
                elif sym:
                    t = symbolic(rel, t, names)
                with open(os.path.join(dst, r), 'w', encoding='utf-8') as h:
                    h.write(t)
    os.makedirs(os.path.join(dst, 'pipelines'), exist_ok=True)
    for n, t in (('pipelines/mod.rs', 'pub mod aliases;\n'), ('pipelines/aliases.rs', ALIASES),
                 ('lib.rs', 'pub mod event_log;\npub mod features;\npub mod pipelines;\npub mod sym;\npub mod utils;\n')):
        with open(os.path.join(dst, n), 'w') as h:
            h.write(t)
    shutil.copy(os.path.join(HERE, 'sym.rs'), os.path.join(dst, 'sym.rs'))


def digest():
    h = hashlib.sha256()
    for root in (RSRC, HERE):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.rs'):
                    h.update(os.path.join(d, f).encode())
                    with open(os.path.join(d, f), 'rb') as s:
                        h.update(s.read())
    with open(os.path.abspath(__file__), 'rb') as s:
        h.update(s.read())
    return h.hexdigest()[:16]


def rustc(args, cwd):
    p = subprocess.run(['rustc'] + FLAGS + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(driver):
    """{'sym': path or None, 'native': path or None, 'log': text}; built once per source state"""
    base = os.path.join(tempfile.gettempdir(), 'verif-rust-%d' % os.getuid())
    os.makedirs(base, exist_ok=True)
    d = digest()
    out = os.path.join(base, d)
    with open(os.path.join(base, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'stubs.done')):
            for x in os.listdir(base):
                if x != 'lock':
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            ps = [subprocess.Popen(['rustc'] + FLAGS + ['--crate-type', 'rlib', '--crate-name', s, '--out-dir', out, os.path.join(HERE, 'stubs', s + '.rs')])
                  for s in STUBS]
            if any([p.wait() for p in ps]):
                raise RuntimeError('the stand-in crates do not build')
            open(os.path.join(out, 'stubs.done'), 'w').close()
        ext = [a for s in STUBS for a in ('--extern', '%s=%s/lib%s.rlib' % (s, out, s))]
        res = {'log': ''}
        xml = driver in XML_DRIVERS
        more = '_xml' if xml else ''
        kinds = [k for k in ('sym', 'native') if not os.path.exists(os.path.join(out, k + more + '.lib'))]
        ps = []
        for k in kinds:
            tree(os.path.join(out, 'src_' + k + more), k == 'sym', xml=xml)
            os.makedirs(os.path.join(out, k + more), exist_ok=True)
            ps.append((k, subprocess.Popen(['rustc'] + FLAGS + ext + ['--crate-type', 'rlib', '--crate-name', 'ficus_backend', '--out-dir', os.path.join(out, k + more),
                                           os.path.join(out, 'src_' + k + more, 'lib.rs')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for k, p in ps:
            log = p.communicate()[0]
            names = p.returncode == 0
            if k == 'sym' and not names:
                # without symbolic names
                tree(os.path.join(out, 'src_sym' + more), True, False, xml)
                p = subprocess.run(p.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                log = 'names are not symbolic: ' + log[-1500:] + p.stdout
            if k == 'sym' and names:
                open(os.path.join(out, 'names' + more), 'w').close()
            with open(os.path.join(out, k + more + '.lib'), 'w') as h:
                h.write('%d\n%s' % (p.returncode, log))
        ps = []
        res['names'] = os.path.exists(os.path.join(out, 'names' + more))
        for k in ('sym', 'native'):
            with open(os.path.join(out, k + more + '.lib')) as h:
                rc, log = h.read().split('\n', 1)
            exe = os.path.join(out, '%s_%s' % (driver, k))
            res[k] = None
            if int(rc):
                res['log'] += '%s: %s\n' % (k, log[-3000:])
            elif os.path.exists(exe):
                res[k] = exe
            elif not os.path.exists(exe + '.failed'):
                ps.append((k, exe, subprocess.Popen(['rustc'] + FLAGS + ext + ['-L', out, '--extern', 'ficus_backend=%s/libficus_backend.rlib' % os.path.join(out, k + more),
                                                    '--crate-type', 'bin', '--crate-name', driver] + (['--cfg', 'symbolic'] + (['--cfg', 'names'] if res['names'] else []) if k == 'sym' else [])
                                                    + ['-o', exe, os.path.join(HERE, 'drivers', driver + '.rs')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for k, exe, p in ps:
            log = p.communicate()[0]
            if p.returncode == 0:
                res[k] = exe
            else:
                open(exe + '.failed', 'w').close()
                res['log'] += '%s driver: %s\n' % (k, log[-3000:])
    return res
