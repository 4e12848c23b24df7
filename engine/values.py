"""Symbolic proxies.  They never subclass int/float/bool (a C routine could then silently read a
bogus concrete value); ``__class__`` lies instead, so isinstance() in the code under test agrees."""
import math
import operator
from fractions import Fraction
from . import core
from . import terms as T

TOKEN_HASH = 0x5eed5eed
MAX_CONCRETIZATIONS = 300


def _ctx():
    c = core.CURRENT
    if c is None:
        raise core.Nondeterminism('symbolic value used outside of a symbolic run')
    return c


def concretize(e):
    """Solver-driven, exhaustive concretization: forks over every feasible value"""
    ctx = _ctx()
    if T.is_const(e):
        v = e.const
        return v if e.is_int else float(v)
    for i in range(MAX_CONCRETIZATIONS):
        # the candidate value is stored in the trace (tag), so re-execution proposes the same one
        pos = len(ctx.trace)
        if pos < len(ctx.prefix):
            v = ctx.prefix[pos][2]
            if v is None:
                ctx._abort(core.Nondeterminism())
        else:
            m = ctx.get_model()
            if m is None:
                ctx._abort(core.Infeasible())
            v = T.ev_num(e, m)
            v = int(v) if e.is_int else Fraction(v)
        if ctx.fork(T.eq(e, T.num(v)), tag=v):
            return v if e.is_int else float(v)
    ctx._abort(core.Truncated())


class SymBool:
    __slots__ = ('_e',)

    def __init__(self, e):
        self._e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return _ctx().fork(self._e)

    def __eq__(self, other):
        o = to_bool_expr(other)
        if o is None:
            if isinstance(other, (int, SymInt, float)):
                return self._int() == other
            return NotImplemented
        return SymBool(T.iff(self._e, o))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else SymBool(T.neg(to_bool_expr(r)))

    def __and__(self, o):
        e = to_bool_expr(o)
        return NotImplemented if e is None else SymBool(T.and_(self._e, e))

    __rand__ = __and__

    def __or__(self, o):
        e = to_bool_expr(o)
        return NotImplemented if e is None else SymBool(T.or_(self._e, e))

    __ror__ = __or__

    def __xor__(self, o):
        e = to_bool_expr(o)
        return NotImplemented if e is None else SymBool(T.neg(T.iff(self._e, e)))

    __rxor__ = __xor__

    def _int(self):
        return SymInt(T.b2i(self._e))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return '<SymBool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_symbolic(x):
    return type(x) in (SymInt, SymReal, SymBool)


def to_bool_expr(x):
    if type(x) is SymBool:
        return x._e
    if type(x) is bool:
        return T.boolval(x)
    return None


def _norm(other):
    """returns ('i', expr) | ('r', expr) | ('inf', +-1) | None"""
    t = type(other)
    if t is SymInt:
        return 'i', other._e
    if t is SymReal:
        return 'r', other._e
    if t is SymBool:
        return 'i', other._int()._e
    if t is int:
        return 'i', T.num(other)
    if t is bool:
        return 'i', T.num(int(other))
    if t is float:
        if math.isinf(other):
            return 'inf', 1 if other > 0 else -1
        if math.isnan(other):
            return 'nan', 0
        return 'r', T.num(Fraction(other))
    if isinstance(other, int) and t.__mro__ and int in t.__mro__:     # IntEnum and so on
        return 'i', T.num(int(other))
    return None


def _hm(a, b):
    """hash mode of a derived value"""
    if type(b) is SymInt or type(b) is SymReal:
        if b._h == 'conc' or a._h == 'conc':
            return 'conc'
        return 'token'
    return a._h


def _real(kind, e):
    return T.to_real(e)


def _arith(name):
    def op(self, other):
        return _binop(name, self, other, False)

    def rop(self, other):
        return _binop(name, self, other, True)

    return op, rop


_INF_ERR = object()


def _binop(name, self, other, swap):
    n = _norm(other)
    if n is None:
        return NotImplemented
    k2, e2 = n
    k1, e1 = self._kind, self._e
    h = _hm(self, other)
    if k2 == 'nan':
        return math.nan
    if k2 == 'inf':
        v = math.inf * e2
        if name == 'add':
            return v
        if name == 'sub':
            return v if swap else -v
        if name == 'truediv' and not swap:
            return 0.0
        if name == 'mul':
            if self == 0:
                return math.nan
            return v if self > 0 else -v
        return NotImplemented
    if swap:
        k1, e1, k2, e2 = k2, e2, k1, e1
    both_int = k1 == 'i' and k2 == 'i'
    if name in ('add', 'sub', 'mul'):
        if not both_int:
            e1, e2 = T.to_real(e1), T.to_real(e2)
        if name == 'add':
            r = T.add(e1, e2)
        elif name == 'sub':
            r = T.add(e1, e2, -1)
        else:
            r = T.mul(e1, e2)
        return SymInt(r, h) if both_int else SymReal(r, h)
    # divisions
    if _ctx().fork(T.eq(e2, T.num(0))):
        raise ZeroDivisionError('division by zero')
    if name == 'truediv':
        return SymReal(T.realdiv(e1, e2), h)
    if both_int:
        # python floor division out of the euclidean one
        if _ctx().fork(T.lt(T.num(0), e2)):
            q = T.intdiv(e1, e2)
        else:
            q = T.intdiv(T.scale(e1, -1), T.scale(e2, -1))
        if name == 'floordiv':
            return SymInt(q, h)
        return SymInt(T.add(e1, T.mul(q, e2), -1), h)
    e1, e2 = T.to_real(e1), T.to_real(e2)
    q = T.floor(T.realdiv(e1, e2))
    if name == 'floordiv':
        return SymReal(T.to_real(q), h)
    return SymReal(T.add(e1, T.mul(T.to_real(q), e2), -1), h)


def mk_cmp(name, e1, e2):
    if name == 'lt':
        return T.lt(e1, e2)
    if name == 'le':
        return T.le(e1, e2)
    if name == 'gt':
        return T.lt(e2, e1)
    if name == 'ge':
        return T.le(e2, e1)
    if name == 'eq':
        return T.eq(e1, e2)
    return T.neg(T.eq(e1, e2))


def _cmp(name):
    fn = getattr(operator, name)

    def op(self, other):
        if self is other:
            return name in ('le', 'ge', 'eq')
        n = _norm(other)
        if n is None:
            return NotImplemented
        k2, e2 = n
        if k2 == 'nan':
            return name == 'ne'
        if k2 == 'inf':
            return fn(0.0, math.inf * e2)
        return SymBool(mk_cmp(name, self._e, e2))

    return op


class _Num:
    __slots__ = ()
    __add__, __radd__ = _arith('add')
    __sub__, __rsub__ = _arith('sub')
    __mul__, __rmul__ = _arith('mul')
    __truediv__, __rtruediv__ = _arith('truediv')
    __floordiv__, __rfloordiv__ = _arith('floordiv')
    __mod__, __rmod__ = _arith('mod')
    __lt__, __le__, __gt__, __ge__ = _cmp('lt'), _cmp('le'), _cmp('gt'), _cmp('ge')
    __eq__, __ne__ = _cmp('eq'), _cmp('ne')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __bool__(self):
        return _ctx().fork(T.neg(T.eq(self._e, T.num(0))))

    def __hash__(self):
        if self._h == 'token':
            return TOKEN_HASH
        return hash(self._concrete())

    def __neg__(self):
        return type(self)(T.scale(self._e, -1), self._h)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(T.ite(T.le(T.num(0), self._e), self._e, T.scale(self._e, -1)), self._h)

    def __int__(self):
        return int(self._concrete())

    def __float__(self):
        return float(self._concrete())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return '<sym %s>' % (T.show(self._e),)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __pow__(self, p, m=None):
        if m is not None:
            return NotImplemented
        if type(p) is int and 0 <= p <= 6:
            r = 1
            for _ in range(p):
                r = r * self
            return r
        return self._concrete() ** (p._concrete() if is_symbolic(p) else p)

    def __rpow__(self, b):
        return b ** self._concrete()


class SymInt(_Num):
    __slots__ = ('_e', '_h')
    _kind = 'i'
    __class__ = property(lambda self: int)

    def __init__(self, e, h='conc'):
        self._e = e
        self._h = h

    def _concrete(self):
        return concretize(self._e)

    def __index__(self):
        return concretize(self._e)

    def __round__(self, n=0):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        return concretize(self._e).bit_length()

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    @property
    def real(self):
        return self

    def __lshift__(self, o):
        if type(o) is int:
            return self * (2 ** o)
        return concretize(self._e) << operator.index(o)

    def __rlshift__(self, o):
        return o << concretize(self._e)

    def __rshift__(self, o):
        if type(o) is int:
            return self // (2 ** o)
        return concretize(self._e) >> operator.index(o)

    def __rrshift__(self, o):
        return o >> concretize(self._e)

    def __and__(self, o):
        return concretize(self._e) & operator.index(o)

    __rand__ = __and__

    def __or__(self, o):
        return concretize(self._e) | operator.index(o)

    __ror__ = __or__

    def __xor__(self, o):
        return concretize(self._e) ^ operator.index(o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def to_bytes(self, *a, **k):
        return concretize(self._e).to_bytes(*a, **k)


class SymReal(_Num):
    __slots__ = ('_e', '_h')
    _kind = 'r'
    __class__ = property(lambda self: float)

    def __init__(self, e, h='conc'):
        self._e = e
        self._h = h

    def _concrete(self):
        return concretize(self._e)

    def __floor__(self):
        return SymInt(T.floor(self._e), self._h)

    def __ceil__(self):
        return SymInt(T.scale(T.floor(T.scale(self._e, -1)), -1), self._h)

    def __trunc__(self):
        return math.floor(self) if self >= 0 else math.ceil(self)

    def is_integer(self):
        return SymBool(T.eq(T.to_real(T.floor(self._e)), self._e))

    def __round__(self, n=None):
        return round(self._concrete(), n)
