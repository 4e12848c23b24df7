"""Path exploration (worker side) and concrete replay"""
import os
import signal
import sys
import time
import traceback
from time import monotonic, process_time      # harnesses may replace those of the module

from . import core, terms
from .api import SymbolicS, ConcreteS, Skip, ConcreteViolation

FUNCTIONS = set()
_mon_started = False


def start_function_coverage(root=os.environ.get('VERIF_REPO', '/repo') + '/satella/'):
    """records which functions of the implementation were executed (PY_START, then disabled per
    code object: negligible cost)"""
    global _mon_started
    if _mon_started:
        return
    _mon_started = True
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'verif-cov')

    def on_start(code, offset):
        if code.co_filename.startswith(root):
            FUNCTIONS.add('%s:%s' % (code.co_filename[len(root) - len('satella/'):], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


NO_END = 'does not terminate'


class _Alarm:
    """
    Stops what has used that much processor time (a busy sandbox is no reason to give up), or what waits for several
    times that
    """
    PATIENCE = 4

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        cpu, wall = process_time(), monotonic()

        def onalarm(signum, frame):
            if process_time() - cpu < .8 * self.seconds and \
                    monotonic() - wall < self.PATIENCE * self.seconds:
                signal.setitimer(signal.ITIMER_REAL, self.seconds / 4)
                return
            raise core.PathHang()

        signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def run_concrete(h, params, witness, hang_s=10.0, distinct=False):
    """Replays on the real code with plain Python values - or, if distinct, with integers none of which is
    the same object as another one (small integers of the interpreter are).
    Returns ('ok'|'skip'|'violation', message, labels)"""
    S = ConcreteS(witness, distinct)
    assert core.CURRENT is None
    try:
        with _Alarm(hang_s):
            h.fn(S, **params)
        if S.violation is None and S.skipped:
            return 'skip', '', S.labels
    except Skip:
        return 'skip', '', S.labels
    except ConcreteViolation as e:
        return 'violation', str(e), S.labels
    except core.PathHang:
        return 'violation', NO_END + ' (%.0f s limit)' % (hang_s,), S.labels
    except RecursionError as e:
        return 'violation', 'unbounded recursion: %r' % (e,), S.labels
    except Exception as e:
        return 'violation', 'unexpected exception %r\n%s' % (e, _short_tb(e)), S.labels
    if S.violation is not None:
        return 'violation', S.violation, S.labels
    return 'ok', '', S.labels


def _short_tb(e):
    return ''.join(traceback.format_tb(e.__traceback__)[-4:])


class PathResult:
    __slots__ = ('outcome', 'message', 'witness', 'labels', 'alternatives', 'trace_len', 'undecided')


def run_path(h, params, prefix, stats):
    ctx = core.Ctx(prefix, h.max_decisions, stats)
    S = SymbolicS(ctx)
    res = PathResult()
    res.message, res.witness = '', None
    core.CURRENT = ctx
    try:
        with _Alarm(h.hang_s):
            h.fn(S, **params)
        if ctx.aborted is not None:
            raise ctx.aborted           # was swallowed by the code under test
        res.outcome = 'ok'
    except core.Infeasible:
        res.outcome = 'infeasible'
    except core.Truncated:
        res.outcome = 'truncated'
    except core.Nondeterminism:
        res.outcome = 'nondet'
    except core.PathHang:
        res.outcome, res.message = 'candidate', 'path does not terminate'
    except core.Violation as v:
        res.outcome, res.message, res.witness = 'candidate', v.message, S.violation_witness
    except RecursionError as e:
        res.outcome, res.message = 'candidate', 'unbounded recursion: %r' % (e,)
    except Exception as e:
        res.outcome = 'candidate'
        res.message = 'unexpected exception %r\n%s' % (e, _short_tb(e))
    finally:
        core.CURRENT = None
    if res.witness is None and res.outcome in ('ok', 'candidate', 'truncated'):
        m = ctx.get_model()
        if m is None:
            if res.outcome == 'candidate':
                res.outcome = 'infeasible'
        else:
            res.witness = ctx.witness(m)
    res.labels = S.labels
    res.alternatives = ctx.alternatives
    res.trace_len = len(ctx.trace)
    res.undecided = S.undecided
    return res


def explore_slice(h, params, prefixes, slice_s, max_paths, validate=True):
    """DFS from the given prefixes, for up to slice_s seconds.  Returns a picklable dict."""
    start_function_coverage()
    t0 = time.monotonic()
    stats = core.Stats()
    terms.reset_if_large()
    core.reset_solver()
    frontier = list(prefixes)
    labels = set()
    out = {'violation': None, 'gaps': [], 'transitions': 0, 'validated': 0, 'undecided': 0,
           'nondet': 0, 'samples': []}
    while frontier and time.monotonic() - t0 < slice_s and stats.paths < max_paths:
        prefix = frontier.pop()
        res = run_path(h, params, prefix, stats)
        stats.paths += 1
        frontier.extend(res.alternatives)
        out['transitions'] += max(0, res.trace_len - len(prefix)) + 1
        out['undecided'] += res.undecided
        if res.outcome == 'infeasible':
            stats.infeasible += 1
            continue
        if res.outcome == 'nondet':
            out['nondet'] += 1
            continue
        if res.outcome == 'truncated':
            stats.truncated += 1
        elif res.outcome == 'ok':
            stats.ok += 1
            labels |= res.labels
        if res.witness is None:
            continue
        if res.outcome == 'candidate' or validate:
            status, msg, clabels = run_concrete(h, params, res.witness)
            if status == 'violation' and msg.startswith(NO_END):        # to be sure that it was not just slow
                status, msg, clabels = run_concrete(h, params, res.witness)
            distinct = False
            if status == 'ok' and res.outcome == 'candidate':       # may depend on the identity of equal values
                distinct = True
                status, msg, clabels = run_concrete(h, params, res.witness, distinct=True)
            if status == 'violation':
                out['violation'] = {'message': msg, 'symbolic_message': res.message,
                                    'witness': res.witness, 'distinct': distinct}
                break
            if res.outcome == 'candidate':
                stats.gaps += 1
                if len(out['gaps']) < 5:
                    out['gaps'].append({'message': res.message[:1500], 'witness': res.witness,
                                        'replay': status})
            elif status == 'ok':
                out['validated'] += 1
                if len(out['samples']) < 1:
                    out['samples'].append(res.witness)
    out['frontier'] = frontier
    out['labels'] = sorted(labels)
    out['stats'] = stats.as_dict()
    out['functions'] = sorted(FUNCTIONS)
    return out
