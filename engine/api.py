"""The interface a harness sees.  A harness is a function h(S); it is run symbolically (S is
SymbolicS: values are proxies) and, to validate every verdict, concretely (S is ConcreteS: values
are plain Python values taken from a solver model)."""
from . import core
from . import terms as T
from .values import SymInt, SymBool, SymReal, to_bool_expr, is_symbolic, _norm, _real, concretize


class Skip(Exception):
    """concrete mode: an assumption does not hold"""


class ConcreteViolation(BaseException):
    pass


def _flatten_eq(a, b, acc):
    """structural equality without forking. appends z3 conditions to acc; returns False when
    definitely different"""
    if is_symbolic(a) or is_symbolic(b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        r = (a == b)
        if r is NotImplemented or r is False:
            return False
        if r is True:
            return True
        acc.append(r._e)
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return all(_flatten_eq(x, y, acc) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b:
                return False
            if not _flatten_eq(a[k], b[k], acc):
                return False
        return True
    return bool(a == b)


class BaseS:
    symbolic = False

    def pick(self, name, options):
        """one of the options; which one is a symbolic variable"""
        return options[self.choice(name, len(options))]

    def times(self, name, n, lo=0, hi=None):
        """n non-decreasing symbolic timestamps"""
        out = []
        prev = None
        for i in range(n):
            t = self.int('%s%d' % (name, i), lo, hi)
            if prev is not None:
                self.assume(t >= prev)
            prev = t
            out.append(t)
        return out

    def raises(self, exc, fn, *args, **kwargs):
        """call; return (True, exception) if exc is raised, (False, value) otherwise"""
        try:
            v = fn(*args, **kwargs)
        except exc as e:
            return True, e
        return False, v

    def check_eq(self, a, b, msg=''):
        self.check(self.eq(a, b), lambda: '%s: got %s, expected %s' % (msg, _r(a), _r(b)))

    def expect_raises(self, exc, fn, *args, msg='', **kwargs):
        r, v = self.raises(exc, fn, *args, **kwargs)
        if not r:
            self.fail('%s: expected %s, got a return of %s' % (msg, exc, _r(v)))
        return v


def _r(x):
    try:
        s = repr(x)
    except Exception as e:      # noqa
        s = '<unprintable %s>' % (type(x),)
    return s[:200]


class SymbolicS(BaseS):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.labels = set()
        self.violation_witness = None
        self.undecided = 0

    def int(self, name, lo=None, hi=None, hash='conc'):
        c = self._declare(name, lo, hi)
        return SymInt(c, hash)

    def _declare(self, name, lo, hi):
        c = self.ctx.declare(name, 'int')
        if lo is not None:
            self.ctx.assume(T.le(T.num(lo) if type(lo) is int else lo._e, c))
        if hi is not None:
            self.ctx.assume(T.le(c, T.num(hi) if type(hi) is int else hi._e))
        return c

    def key(self, name, lo=None, hi=None):
        return self.int(name, lo, hi, hash='token')

    def lit(self, v):
        """a constant usable together with token keys"""
        return SymInt(T.num(v), 'token')

    def bool(self, name):
        return SymBool(self.ctx.declare(name, 'bool'))

    def real(self, name, lo=None, hi=None, denom=4):
        """dyadic rational (exactly representable by a float): k/denom"""
        c = self._declare(name, None if lo is None else lo * denom,
                          None if hi is None else hi * denom)
        return SymReal(T.realdiv(c, T.num(denom)))

    def choice(self, name, n):
        c = self._declare(name, 0, n - 1)
        for i in range(n - 1):
            if self.ctx.fork(T.eq(c, T.num(i))):
                return i
        self.ctx.assume(T.eq(c, T.num(n - 1)))
        return n - 1

    def flag(self, name):
        return bool(self.choice(name, 2))

    def conc(self, x):
        if type(x) is SymInt:
            return concretize(x._e)
        if type(x) is SymBool:
            return bool(x)
        return x

    def assume(self, cond):
        e = to_bool_expr(cond)
        self.ctx.assume(e if e is not None else T.boolval(bool(cond)))

    def check(self, cond, msg=''):
        e = to_bool_expr(cond)
        if e is None:
            e = T.boolval(bool(cond))
        ok, model = self.ctx.holds(e)
        if ok:
            return
        if ok is None:
            self.undecided += 1
            self.ctx.assume(e)
            return
        self.violation_witness = self.ctx.witness(model) if model is not None else None
        self.ctx._abort(core.Violation(msg() if callable(msg) else msg))

    def fail(self, msg=''):
        self.check(False, msg)

    def reach(self, label):
        self.labels.add(label)

    def eq(self, a, b):
        acc = []
        if not _flatten_eq(a, b, acc):
            return False
        if not acc:
            return True
        return SymBool(T.and_(*acc))

    def And(self, *xs):
        return SymBool(T.and_(*[to_bool_expr(_tb(x)) for x in xs]))

    def Or(self, *xs):
        return SymBool(T.or_(*[to_bool_expr(_tb(x)) for x in xs]))

    def Not(self, x):
        return SymBool(T.neg(to_bool_expr(_tb(x))))

    def Implies(self, a, b):
        return SymBool(T.or_(T.neg(to_bool_expr(_tb(a))), to_bool_expr(_tb(b))))

    def Ite(self, c, a, b):
        """numeric if-then-else, no fork"""
        c = to_bool_expr(_tb(c))
        k1, e1 = _norm(a)
        k2, e2 = _norm(b)
        r = T.ite(c, e1, e2)
        return SymInt(r) if r.is_int else SymReal(r)

    def Sum(self, xs):
        r = 0
        for x in xs:
            r = r + (x._int() if type(x) is SymBool else x)
        return r


def _tb(x):
    if type(x) in (bool, SymBool):
        return x
    return bool(x)


class Int(int):
    """an integer that is not the same object as any other"""
    __slots__ = ()


class ConcreteS(BaseS):
    def __init__(self, witness, distinct=False):
        self.w = witness
        self.distinct = distinct
        self.violation = None
        self.skipped = False
        self.names = {}
        self.labels = set()

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        return self.w.get(name, default)

    def int(self, name, lo=None, hi=None, hash='conc'):
        v = self._get(name, None)
        if v is None:
            v = lo if lo is not None else (min(hi, 0) if hi is not None else 0)
        if lo is not None and v < lo:
            self.skip()
        if hi is not None and v > hi:
            self.skip()
        return Int(v) if self.distinct else v

    def skip(self):
        self.skipped = True
        raise Skip()

    def key(self, name, lo=None, hi=None):
        return self.int(name, lo, hi)

    def lit(self, v):
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None, denom=4):
        return self.int(name, None if lo is None else lo * denom,
                        None if hi is None else hi * denom) / denom

    def choice(self, name, n):
        v = self._get(name, 0)
        if not 0 <= v < n:
            self.skip()
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def conc(self, x):
        return x

    def assume(self, cond):
        if not cond:
            self.skip()

    def check(self, cond, msg=''):
        if not cond:
            self.fail(msg() if callable(msg) else msg)

    def fail(self, msg=''):
        if self.violation is None:
            self.violation = msg    # the exception may get swallowed by the code under test
        raise ConcreteViolation(msg)

    def reach(self, label):
        self.labels.add(label)

    def eq(self, a, b):
        return bool(_flatten_eq(a, b, []))

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def Sum(self, xs):
        return sum(xs)
