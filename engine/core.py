"""
Dynamic symbolic execution of real Python code over Z3.

The code under test is the real, unmodified implementation imported from /repo.  Inputs are proxy
objects (engine.values) whose comparisons/arithmetics build terms.  Whenever the implementation
(or a C routine it calls: dict lookup, heapq, bisect, sorted...) needs a concrete truth value, the
proxy asks ``Ctx.fork``: the solver decides which outcomes are feasible under the path condition and
every feasible outcome is explored (depth first, by re-execution).  Assertions are solver queries
``path condition AND NOT assertion``; a model is a counterexample.
"""
import time
from fractions import Fraction

import z3
from . import terms as T

SOLVER_TIMEOUT_MS = 20000


class Steering(BaseException):
    """Base of exceptions that steer exploration; never to be swallowed by code under test"""


class Infeasible(Steering):
    pass


class Truncated(Steering):
    """the path hit a bound (number of decisions)"""


class PathHang(Steering):
    """wall-clock limit on a single path"""


class Nondeterminism(Steering):
    pass


class Violation(Steering):
    def __init__(self, message):
        super().__init__(message)
        self.message = message


CURRENT = None          # the active Ctx (symbolic mode), or None


class Stats:
    FIELDS = ('paths', 'ok', 'infeasible', 'truncated', 'queries', 'solver_s', 'assertions',
              'sat', 'unsat', 'unknown', 'forks', 'gaps')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (other[f] if isinstance(other, dict)
                                                 else getattr(other, f)))

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class IncrementalSolver:
    """One Z3 solver per process; assertion stack kept in step with the path condition"""

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', SOLVER_TIMEOUT_MS)
        self.levels = []        # list of lists of terms
        self.flat = []

    def sync(self, pc):
        n = 0
        lim = min(len(pc), len(self.flat))
        flat = self.flat
        while n < lim and flat[n] is pc[n]:
            n += 1
        while len(self.flat) > n:
            lvl = self.levels.pop()
            del self.flat[len(self.flat) - len(lvl):]
            self.solver.pop()
        n = len(self.flat)
        if len(pc) > n:
            new = pc[n:]
            self.solver.push()
            for t in new:
                self.solver.add(T.z_bool(t))
            self.levels.append(new)
            self.flat.extend(new)

    def check(self, pc, extra):
        self.sync(pc)
        if extra is None:
            return self.solver.check()
        self.solver.push()
        try:
            self.solver.add(T.z_bool(extra))
            r = self.solver.check()
            self.last = self.solver.model() if r == z3.sat else None
            return r
        finally:
            self.solver.pop()


_SOLVER = None


def get_solver():
    global _SOLVER
    if _SOLVER is None:
        _SOLVER = IncrementalSolver()
    return _SOLVER


def reset_solver():
    global _SOLVER
    _SOLVER = None


class Ctx:
    """One symbolic path.  prefix: tuple of (decision, condition id, tag) to replay."""

    def __init__(self, prefix=(), max_decisions=2000, stats=None):
        self.prefix = prefix
        self.trace = []
        self.max_decisions = max_decisions
        self.stats = stats if stats is not None else Stats()
        self.pc = []
        self.lits = set()
        self.model = None       # dict name -> value satisfying pc, or None
        self.vars = {}          # name -> kind
        self.names = {}
        self.alternatives = []  # prefixes to explore later
        self.aborted = None

    # -------------------------------------------------------------- variables
    def fresh_name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def declare(self, name, kind):
        name = self.fresh_name(name)
        self.vars[name] = kind
        if kind == 'bool':
            return T.bvar(name)
        return T.var(name, True)

    # -------------------------------------------------------------- solver
    def _query(self, extra):
        self.stats.queries += 1
        s = get_solver()
        t = time.perf_counter()
        r = s.check(self.pc, extra)
        if r == z3.sat:
            self.stats.sat += 1
            zm = s.last if extra is not None else s.solver.model()
            m = {}
            for d in zm.decls():
                v = zm[d]
                if z3.is_int_value(v):
                    m[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    m[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_true(v) or z3.is_false(v):
                    m[d.name()] = z3.is_true(v)
            self.stats.solver_s += time.perf_counter() - t
            return True, m
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unsat:
            self.stats.unsat += 1
            return False, None
        self.stats.unknown += 1
        return None, None

    def _push(self, cond):
        if cond in self.lits:
            return
        if cond.op == 'and':
            for c in cond.args:
                self._push(c)
            return
        self.pc.append(cond)
        self.lits.add(cond)
        if self.model is not None:
            try:
                ok = T.ev(cond, self.model)
            except ZeroDivisionError:
                ok = False
            if not ok:
                self.model = None

    def _quick(self, cond):
        if cond is T.TRUE or cond in self.lits:
            return True
        if cond is T.FALSE or T.neg(cond) in self.lits:
            return False
        return None

    def _under_model(self, cond):
        if self.model is None:
            return None
        try:
            return T.ev(cond, self.model)
        except ZeroDivisionError:
            return None

    def feasible(self):
        if self.model is not None:
            return True
        r, m = self._query(None)
        if r:
            self.model = m
        return r is not False

    def _abort(self, exc):
        self.aborted = exc
        raise exc

    def assume(self, cond):
        """restrict the path to cond (a boolean term)"""
        q = self._quick(cond)
        if q is True:
            return
        if q is False:
            self._abort(Infeasible())
        self._push(cond)
        if len(self.trace) >= len(self.prefix):
            if not self.feasible():
                self._abort(Infeasible())

    def fork(self, cond, tag=None):
        q = self._quick(cond)
        if q is not None and tag is None:
            return q
        pos = len(self.trace)
        if pos < len(self.prefix):
            e = self.prefix[pos]
            if e[1] != cond.sid:
                self._abort(Nondeterminism('%s' % (cond.op,)))
            self.trace.append(e)
            self._push(cond if e[0] else T.neg(cond))
            return e[0]
        if pos >= self.max_decisions:
            self._abort(Truncated())
        ncond = T.neg(cond)
        under = self._under_model(cond)
        # the side of the current model, if there is one, is known to be feasible
        t_m = f_m = None
        if under is True:
            t_ok, t_m = True, self.model
        else:
            t_ok, t_m = self._query(cond)
        if t_ok is False:
            self.trace.append((False, cond.sid, tag))
            self._push(ncond)
            return False
        if under is False:
            f_ok, f_m = True, self.model
        else:
            f_ok, f_m = self._query(ncond)
        if f_ok is False:
            self.trace.append((True, cond.sid, tag))
            self._push(cond)
            if self.model is None:
                self.model = t_m
            return True
        self.stats.forks += 1
        self.alternatives.append(tuple(self.trace) + ((False, cond.sid, tag),))
        self.trace.append((True, cond.sid, tag))
        self._push(cond)
        self.model = t_m
        return True

    def holds(self, cond):
        """(True, None) if cond is implied by the path condition, else (False, model);
        (None, None) for unknown"""
        self.stats.assertions += 1
        q = self._quick(cond)
        if q is True:
            return True, None
        if q is False:
            if not self.feasible():
                self._abort(Infeasible())
            return False, self.model
        if len(self.trace) < len(self.prefix):
            # already decided when the prefix was explored for the first time: every prefix
            # extends a path on which this very assertion was found to hold
            return True, None
        if self._under_model(cond) is False:
            return False, self.model
        r, m = self._query(T.neg(cond))
        if r is False:
            return True, None
        if r:
            return False, m
        return None, None

    def get_model(self):
        if self.model is None:
            if not self.feasible() or self.model is None:
                return None
        return self.model

    def witness(self, model):
        return {name: (bool(model.get(name, False)) if kind == 'bool' else int(model.get(name, 0)))
                for name, kind in self.vars.items()}
