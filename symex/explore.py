"""Path exploration (symbolic side) and concrete replay (real, uninstrumented code)."""
import json
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import core
from .core import RunCtx, Violation, PathAbort, PathTimeout, Divergence, Stats
from .harness import SymHarness, PatternHarness, ConcreteHarness


def _alarm(_s, _f):
    raise PathTimeout()


def with_timeout(seconds, fn):
    """limits the processor time (a slow machine is no failure), and the waiting time to six times as much"""
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 6 * seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


def enc(assign):
    return {k: (v if isinstance(v, int) else 'q:%s' % Fraction(v)) for k, v in assign.items()}


def dec(assign):
    return {k: (Fraction(v[2:]) if isinstance(v, str) else v) for k, v in assign.items()}


SEEDS = 8


def run_concrete(mod, cfg, assign, timeout):
    """('ok'|'violation'|'skip', message)"""
    if '#seed' in assign:
        # another order of the hash maps of the Rust code
        cfg = dict(cfg, seed=assign['#seed'])
        assign = {k: v for k, v in assign.items() if k != '#seed'}
    h = ConcreteHarness(assign)
    if hasattr(mod, 'reset'):
        mod.reset()

    def go():
        mod.harness(h, cfg)
    try:
        with_timeout(timeout, go)
    except Violation as v:
        return 'violation', v.msg
    except PathAbort:
        return 'skip', ''
    except PathTimeout:
        return 'violation', 'did not terminate within %gs' % timeout
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        return 'violation', 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:200], where)
    return 'ok', ''


class Explorer:
    def __init__(self, mod, concrete, path_timeout=10.0, validate=1.0, dump=None):
        self.mod = mod
        self.concrete = concrete            # callable(cfg, assign) -> (status, msg)
        self.path_timeout = path_timeout
        self.validate = validate
        self.dump = dump
        self.replays = 0

    def explore(self, cfg, stack, mode, slice_s, stats):
        """Explore until the stack is empty or the slice is over.
        returns leftover stack, candidate violations, unreproduced, incomplete reasons, samples"""
        t0 = time.time()
        viol, unrep, incomplete, samples = [], [], [], []
        acc = 0.0
        while stack and (time.time() - t0 < slice_s):
            prefix, assign = stack.pop()
            run = RunCtx(prefix, assign, stats, self.dump)
            core.set_cur(run)
            if hasattr(self.mod, 'reset'):
                self.mod.reset()
            h = (PatternHarness if mode == 'pattern' else SymHarness)(run)
            cand = None
            ok = False
            try:
                with_timeout(self.path_timeout, lambda: self.mod.harness(h, cfg))
                ok = True
            except Violation as v:
                cand = (v.assignment or run.assign, v.msg)
            except PathAbort:
                pass
            except PathTimeout:
                stats.timeouts += 1
                cand = (run.assign, 'did not terminate')
            except Divergence as d:
                stats.divergences += 1
                unrep.append(('divergence', str(d), enc(run.assign)))
                cand = (run.assign, 'divergence')
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
                cand = (run.assign, 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:200], where))
            finally:
                run.close()
            if ok or cand:
                stats.paths += 1
            stack.extend(run.alts)
            incomplete.extend(run.incomplete)
            if ok:
                if len(samples) < 2:
                    samples.append({'config': cfg.get('name'), 'assignment': pretty(run.assign, run.vars),
                                    'decisions': len(run.trace)})
                acc += self.validate
                if acc >= 1.0:
                    acc -= 1.0
                    self.replays += 1
                    a = dict(run.assign, **{'#seed': self.replays % SEEDS}) if 'seed' in cfg else run.assign
                    st, msg = self.concrete(cfg, a)
                    if st == 'violation':
                        viol.append((enc(a), 'on the unmodified code: ' + msg))
                    else:
                        stats.concrete_validated += 1
            if cand is not None:
                for s in [None] + (list(range(SEEDS)) if 'seed' in cfg else []):
                    a = cand[0] if s is None else dict(cand[0], **{'#seed': s})
                    st, msg = self.concrete(cfg, a)
                    if st == 'violation':
                        break
                if st == 'violation':
                    viol.append((enc(a), msg))
                else:
                    stats.unreproduced += 1
                    unrep.append(('candidate', cand[1], enc(cand[0])))
            if viol:
                break
        return stack, viol, unrep, incomplete, samples


def pretty(assign, only=None):
    out = {}
    for k, v in assign.items():
        if only is not None and k not in only:
            continue
        if isinstance(v, int) and 0x20 <= v <= 0x7e and '.' in k:
            out[k] = chr(v)
        else:
            out[k] = v if isinstance(v, int) else str(v)
    return out
