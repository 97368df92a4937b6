#!/usr/bin/env python3
"""seed.py [-k] [ID...]: (re)build /verif/seeded/<id> from tools/seeds.py, confirm it in a scratch copy, and run the
property's check on that copy.  -k: keep going over all seeds in parallel scratch copies."""
import json, os, threading, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
R = os.environ.get('SEED_REPO', '/repo')
LOCK = threading.Lock()
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONPATH="$PWD/src/python"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
IGN = ['alpha_discovery', 'alpha_plus_discovery', 'alpha_plus_plus_discovery', 'alpha_plus_plus_nfc_discovery', 'clustering',
       'dfg_discovery', 'filtering_pipelines', 'grpc_pipelines', 'heuristic_discovery', 'patterns_pipelines']


PRELUDE = '''#![allow(unused_imports, static_mut_refs)]
use ficus_backend::event_log::core::{event::event::Event, event_log::EventLog, trace::trace::Trace};
use ficus_backend::event_log::simple::simple_event_log::*;
use std::{cell::RefCell, collections::*, rc::Rc};

fn set(x: &[&str]) -> HashSet<String> {
    x.iter().map(|s| s.to_string()).collect()
}

fn log(t: &[&str]) -> SimpleEventLog {
    SimpleEventLog::new(&t.iter().map(|s| s.split_whitespace().collect()).collect())
}

'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests(w, limit=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig')
    x = w + '/junit.xml'
    sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + w + '/src/python', '--timeout=300',
       '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x,
       *['--ignore=tests/grpc_pipelines/test_%s.py' % m for m in IGN], 'tests', cwd=w + '/src/python', env=env, timeout=limit)
    sh('python3', '/opt/vp/results.py', w + '/o.json', 'junit:' + x)
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open(w + '/o.json'))
    return sorted(set(b['stable']) - set(o['passed']))


def apply(w, edits):
    for fn, old, new in edits:
        p = w + '/src/python/ficus/' + fn
        if fn.startswith('rust:'):
            p = w + '/src/rust/ficus_backend/src/' + fn[5:]
        t = open(p, newline='').read()
        crlf = '\r\n' in t
        if crlf:
            t = t.replace('\r\n', '\n')
        assert t.count(old) == 1, (fn, t.count(old), old)
        t = t.replace(old, new)
        open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)


def record(sid, prop, rc):
    with LOCK:
        p = os.path.join(HERE, 'seed_results.json')
        d = json.load(open(p)) if os.path.exists(p) else {}
        d.setdefault(sid, {})[prop] = {0: 'missed', 1: 'caught'}.get(rc, 'error')
        json.dump(d, open(p, 'w'), indent=1, sort_keys=True)


def run(sid, s, build=True, nw=4):
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        os.makedirs(w + '/src')
        shutil.copytree(R + '/src/python', w + '/src/python')
        shutil.copytree(R + '/src/rust', w + '/src/rust', ignore=shutil.ignore_patterns('target'))
        d = os.path.join(V, 'seeded', sid)
        msg = []
        ok = True
        rust = s['edits'][0][0].startswith('rust:')
        if build:
            os.makedirs(d, exist_ok=True)
            if rust:
                for f in [HERE + '/rustdemo/' + n for n in ('build.py', 'demo.sh')] + [V + '/rust/stubs/' + n for n in os.listdir(V + '/rust/stubs') if n != 'quick_xml.rs' or 'xes::' in s['demo'] or 'pnml' in s['demo']]:
                    shutil.copy(f, d)
                open(d + '/main.rs', 'w').write(PRELUDE + s['demo'].lstrip('\n'))
            else:
                open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('bash', d + '/demo.sh', cwd=w)
        sh('git', 'init', '-q', cwd=w)
        sh('git', 'config', 'core.autocrlf', 'false', cwd=w)
        sh('git', 'add', '-A', cwd=w)
        sh('git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x', cwd=w)
        apply(w, s['edits'])
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True).stdout
        if build:
            open(d + '/patch.diff', 'wb').write(diff)
            r1 = sh('bash', d + '/demo.sh', cwd=w)
            ok = r0.returncode == 0 and r1.returncode != 0
            msg.append('demo clean=%d bug=%d' % (r0.returncode, r1.returncode))
            if not ok:
                msg.append((r0.stderr + r1.stderr)[-600:])
        bad = tests(w)
        ok = ok and not bad
        msg.append('tests %s' % bad[:3])
        caught = None
        for p in [s['property']] + s.get('also', []):
            out = w + '/ev'
            os.makedirs(out, exist_ok=True)
            c = sh('./run.sh', p, 'quick', cwd=V, env=dict(os.environ, VERIF_REPO_SRC=w + '/src/python', VERIF_OUT=out, TMPDIR=w, VERIF_WORKERS=str(nw)))
            if caught is None:
                caught = c.returncode
            record(sid, p, c.returncode)
            msg.append('%s:%d %s' % (p, c.returncode, [l for l in c.stdout.splitlines() if l.startswith('violation')][:1]))
            if c.returncode not in (0, 1):
                msg.append(c.stdout[-500:] + c.stderr[-800:])
        return sid, ok, caught, msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    from seeds import SEEDS
    import seeds2, seeds3, seeds4, seeds5
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(SEEDS)
    with ThreadPoolExecutor(2 if len(ids) > 1 else 1) as ex:
        for sid, ok, caught, msg in ex.map(lambda i: run(i, SEEDS[i]), ids):
            print(sid, 'VALID' if ok else 'INVALID', {0: 'MISSED', 1: 'caught'}.get(caught, 'ERROR %s' % caught), *msg, flush=True)


if __name__ == '__main__':
    main()
