"""Drives one property check: forks workers, distributes configs, replays, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src/python')
OUT = os.environ.get('VERIF_OUT', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'))


def setup_paths(symbolic):
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if symbolic and Z3PATH not in sys.path:
        sys.path.append(Z3PATH)


def quiet():
    import builtins
    builtins.print_real = builtins.print


def load_prop(pid):
    return importlib.import_module('props.' + pid)


# --------------------------------------------------------------- concrete side
def concrete_server(pid, conns, timeout):
    """One process per worker, forked from here, running the unmodified code."""
    setup_paths(True)
    sys.stdout = open(os.devnull, 'w')
    mod = load_prop(pid)
    if hasattr(mod, 'setup'):
        mod.setup(False)
    from symex.explore import run_concrete, dec
    kids = []
    for c in conns:
        k = os.fork()
        if k == 0:
            try:
                while True:
                    try:
                        m = c.recv()
                    except EOFError:
                        break
                    cfg, a = m
                    r = run_concrete(mod, cfg, a, timeout)
                    c.send(r)
            finally:
                os._exit(0)
        kids.append(k)
    for c in conns:
        c.close()
    for k in kids:
        os.waitpid(k, 0)
    os._exit(0)


# --------------------------------------------------------------- symbolic workers
def worker(pid, mod, conn, cconn, opts):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from symex.core import Stats
    from symex.explore import Explorer
    from symex import instrument

    def concrete(cfg, a):
        cconn.send((cfg, a))
        return cconn.recv()
    track_start()
    dump = None
    if opts.get('dump_dir'):
        dump = make_dump(opts['dump_dir'], opts.get('dump_every', 50))
    ex = Explorer(mod, concrete, opts['path_timeout'], opts['validate'], dump)
    while True:
        try:
            t = conn.recv()
        except EOFError:
            break
        if t is None:
            break
        idx, cfg, stack, mode, sl = t
        st = Stats()
        try:
            r = ex.explore(cfg, stack, mode, sl, st)
        except BaseException as e:
            import traceback
            conn.send((idx, mode, 'crash', traceback.format_exc(), st.as_dict()))
            continue
        conn.send((idx, mode, 'ok', r, st.as_dict()))
    conn.send(('funcs', sorted(instrument.EXECUTED)))
    conn.close()
    os._exit(0)


def make_dump(d, every):
    os.makedirs(d, exist_ok=True)
    state = {'n': 0}

    def dump(solver, result):
        state['n'] += 1
        if state['n'] % every == 1:
            fn = os.path.join(d, '%d_%d.smt2' % (os.getpid(), state['n']))
            with open(fn, 'w') as f:
                f.write('; expected %s\n(set-logic ALL)\n' % result)
                f.write(solver.to_smt2())
    return dump


def track_start():
    """record which ficus functions are entered (sys.monitoring, one event per code object)"""
    from symex import instrument
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_start(code, _off):
        fn = code.co_filename
        if fn.startswith(SRC + '/ficus'):
            if not code.co_name.startswith('<module'):
                instrument.EXECUTED.add((fn[len(SRC) + 1:], code.co_qualname.replace('.<locals>', '')))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.nw = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)

    def main(self):
        t0 = time.time()
        setup_paths(True)
        import z3  # noqa
        # third-party imports are shared; ficus itself is loaded per side
        pairs = [mp.Pipe() for _ in range(self.nw)]
        limits = self.limits()
        server = os.fork()
        if server == 0:
            try:
                for a, _ in pairs:
                    a.close()
                concrete_server(self.pid, [b for _, b in pairs], limits['concrete_timeout'])
            except BaseException:
                import traceback
                traceback.print_exc()
            os._exit(3)
        for _, b in pairs:
            b.close()
        from symex import instrument
        instrument.install()
        stdout = sys.stdout
        mod = load_prop(self.pid)
        try:
            if hasattr(mod, 'setup'):
                mod.setup(True)
        except Exception:
            # the code does not even import: let the concrete side decide
            import traceback
            traceback.print_exc()
            print('ERROR: cannot load the code under check')
            return 2
        cfgs = mod.configs(self.tier)
        t_load = time.time() - t0
        budget = limits['budget']
        wp = []
        for i in range(self.nw):
            a, b = mp.Pipe()
            k = os.fork()
            if k == 0:
                try:
                    a.close()
                    for x, _ in wp:
                        x.close()
                    for j, (c, _) in enumerate(pairs):
                        if j != i:
                            c.close()
                    sys.stdout = open(os.devnull, 'w')
                    worker(self.pid, mod, b, pairs[i][0], limits)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                os._exit(3)
            b.close()
            wp.append((a, k))
        for c, _ in pairs:
            c.close()
        try:
            return self.drive(mod, cfgs, wp, t0, t_load, budget, limits)
        finally:
            for a, k in wp:
                try:
                    os.kill(k, 9)
                except OSError:
                    pass
            try:
                os.kill(server, 9)
            except OSError:
                pass
            for a, k in wp:
                try:
                    os.waitpid(k, 0)
                except OSError:
                    pass
            try:
                os.waitpid(server, 0)
            except OSError:
                pass

    def limits(self):
        q = self.tier == 'quick'
        d = {'budget': 120.0 if q else 780.0, 'path_timeout': 10.0 if q else 30.0, 'concrete_timeout': 10.0 if q else 30.0,
             'validate': 1.0}
        b = os.environ.get('VERIF_BUDGET')
        if b:
            d['budget'] = float(b)
        if os.environ.get('VERIF_DUMP'):
            d['dump_dir'] = os.environ['VERIF_DUMP']
        return d

    def drive(self, mod, cfgs, wp, t0, t_load, budget, limits):
        from collections import deque
        lim = getattr(mod, 'BUDGET', {}).get(self.tier)
        if lim and not os.environ.get('VERIF_BUDGET'):
            budget = lim
        deadline = t0 + budget
        tasks = deque((i, c, [([], {})], 'symbolic') for i, c in enumerate(cfgs))
        outstanding = {i: 1 for i in range(len(cfgs))}
        info = {i: {'paths': 0, 'incomplete': set(), 'mode': 'symbolic', 'unrep': [], 'fallback': False, 'dropped': False}
                for i in range(len(cfgs))}
        tot = {}
        samples = []
        idle = [a for a, _ in wp]
        busy = {}
        viol = None
        crash = []
        while (tasks or busy) and viol is None:
            now = time.time()
            while tasks and idle and now < deadline:
                t = tasks.popleft()
                a = idle.pop()
                a.send(t + (1.5 if len(tasks) < 2 * self.nw else 2.5,))
                busy[a] = t
            if not busy:
                break
            ready = wait(list(busy), timeout=2.0)
            if not ready and time.time() > deadline + 60:
                break
            for a in ready:
                try:
                    idx, mode, status, r, st = a.recv()
                except EOFError:
                    crash.append(('worker died', busy.pop(a)[1].get('name')))
                    continue
                busy.pop(a)
                idle.append(a)
                for k, v in st.items():
                    tot[k] = tot.get(k, 0) + v
                inf = info[idx]
                inf['paths'] += st['paths']
                outstanding[idx] -= 1
                if status == 'crash':
                    crash.append((cfgs[idx].get('name'), r))
                    inf['dropped'] = True
                    continue
                left, vs, unrep, inc, smp = r
                samples.extend(smp[:1] if len(samples) < 40 else [])
                inf['incomplete'].update(inc)
                if vs:
                    viol = (cfgs[idx], mode) + vs[0]
                    break
                inf['unrep'].extend(unrep[:3])
                if unrep and mode == 'symbolic' and not inf['fallback']:
                    inf['fallback'] = True
                    inf['mode'] = 'pattern'
                    tot['mode_fallbacks'] = tot.get('mode_fallbacks', 0) + 1
                    tasks.append((idx, cfgs[idx], [([], {})], 'pattern'))
                    outstanding[idx] += 1
                if left and not (inf['fallback'] and mode == 'symbolic'):
                    n = max(1, min(self.nw, len(left)))
                    for j in range(n):
                        part = left[j::n]
                        if part:
                            tasks.append((idx, cfgs[idx], part, mode))
                            outstanding[idx] += 1
        rest = set(t[0] for t in tasks) | set(t[0] for t in busy.values())
        funcs = set()
        if viol is None:
            for a in list(idle):
                try:
                    a.send(None)
                    m = a.recv()
                    if m[0] == 'funcs':
                        funcs.update(tuple(x) for x in m[1])
                except (EOFError, OSError):
                    pass
        return self.finish(mod, cfgs, info, rest, tot, samples, viol, crash, t0, t_load, funcs, limits)

    def finish(self, mod, cfgs, info, rest, tot, samples, viol, crash, t0, t_load, funcs, limits):
        from symex import instrument
        pid = self.pid
        known = load_known(pid)
        rc = 0
        violations = 0
        lines = []
        if viol is not None:
            cfg, mode, assign, msg = viol
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, 'replay_%s.json' % pid)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'config': cfg, 'assignment': assign, 'message': msg, 'found_in': mode}, f,
                          indent=1)
            ok, out = confirm(path, limits['concrete_timeout'])
            if ok:
                lines.append('violation: %s' % msg)
                lines.append('VIOLATION property=%s replay=%s' % (pid, path))
                rc = 1
                violations = 1
            else:
                lines.append('ERROR: counterexample did not reproduce in a fresh process: %s / %s' % (msg, out))
                rc = 2
        if crash and rc == 0:
            for c in crash[:3]:
                lines.append('ERROR: %s' % (c,))
            rc = 2
        for k in known:
            if k.get('status') == 'open':
                if mod.reproduce(k):
                    lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                else:
                    lines.append('note: known finding no longer reproduces: %s' % k['what'])
        complete = [c['name'] for i, c in enumerate(cfgs) if i not in rest and not info[i]['incomplete']
                    and not info[i]['dropped']]
        partial = [{'config': c['name'], 'paths': info[i]['paths'],
                    'why': sorted(info[i]['incomplete']) or ['time budget']}
                   for i, c in enumerate(cfgs) if c['name'] not in complete]
        fb = [{'config': c['name'], 'mode': info[i]['mode'], 'reasons': info[i]['unrep'][:2]}
              for i, c in enumerate(cfgs) if info[i]['fallback']]
        src = {}
        for rel, q in funcs:
            src.setdefault(rel, []).append(q)
        cov = {
            'explanation': 'Concolic symbolic execution of the real Python source (AST-instrumented from /repo at run '
                           'time) with z3 deciding the feasibility of every alternative branch and every assertion; a '
                           'configuration is complete when the solver has no feasible unexplored path left, i.e. the '
                           'assertions hold for every value of its symbolic inputs. Each path witness is also '
                           'executed on the unmodified code.',
            'exhaustive': len(complete) == len(cfgs),
            'configurations': len(cfgs),
            'configurations_complete': len(complete),
            'configurations_partial': partial[:40],
            'fallback_configs': fb[:20],
            'bounds': getattr(mod, 'BOUNDS', {}).get(self.tier) or getattr(mod, 'BOUNDS_TEXT', ''),
            'paths': tot.get('paths', 0),
            'paths_aborted_by_assumption': tot.get('aborted', 0),
            'symbolic_branch_decisions': tot.get('branches', 0),
            'queries_discharged': tot.get('queries', 0),
            'queries_sat': tot.get('sat', 0),
            'queries_unsat': tot.get('unsat', 0),
            'queries_unknown': tot.get('unknown', 0),
            'assertions_checked': tot.get('asserts', 0),
            'assertion_solver_queries': tot.get('assert_queries', 0),
            'realizations': tot.get('realizations', 0),
            'solver_s': round(tot.get('solver_s', 0.0), 3),
            'path_witnesses_replayed_on_unmodified_code': tot.get('concrete_validated', 0),
            'counterexamples_not_reproduced': tot.get('unreproduced', 0),
            'divergences': tot.get('divergences', 0),
            'functions_encoded': {k: sorted(v) for k, v in sorted(src.items())},
            'functions_encoded_count': sum(len(v) for v in src.values()),
            'load_s': round(t_load, 2),
            'samples': samples[:8],
        }
        ev = {'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              'wall_s': round(time.time() - t0, 2), 'violations': violations}
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s [%s]: %d/%d configurations complete, %d paths, %d queries (%.1fs solver), %d assertions, %d witnesses '
              'replayed, fallback %d, unreproduced %d, %.1fs' %
              (pid, self.tier, len(complete), len(cfgs), tot.get('paths', 0), tot.get('queries', 0),
               tot.get('solver_s', 0.0), tot.get('asserts', 0), tot.get('concrete_validated', 0), len(fb),
               tot.get('unreproduced', 0), time.time() - t0))
        for p in partial[:6]:
            print('  partial: %s' % p)
        for x in fb[:4]:
            print('  fallback: %s' % x)
        for ln in lines:
            print(ln)
        sys.stdout.flush()
        return rc


COMMON_ASSUMPTIONS = [
    'shapes (numbers and lengths of traces) are enumerated per configuration; values inside a shape are symbolic',
    'set iteration order in a symbolic run is one fixed order; witnesses are replayed with PYTHONHASHSEED=0',
    'print output is ignored',
]


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def confirm(path, timeout):
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path], env=env, capture_output=True,
                           text=True, timeout=6 * timeout + 60)
    except subprocess.TimeoutExpired:
        return True, 'timeout'
    return p.returncode == 1, (p.stdout + p.stderr)[-400:]


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.setrecursionlimit(3000)
    limit_memory()
    rc = Check(a.property, tier, seed).main()
    sys.stdout.flush()
    os._exit(rc)
