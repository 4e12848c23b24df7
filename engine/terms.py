"""
Interned terms over integers/reals/booleans with linear normalisation.  They exist because building
Z3 ASTs through ctypes for every comparison is far slower than solving the queries: terms are built
and evaluated in Python, converted to Z3 once (cached) and only when a query has to be made.

Numeric term: Lin(coeffs=((atom, coeff), ...) sorted by atom id, const, is_int)
Boolean term: B(op, args), op in true false var le lt eq not and or
   le: lin <= 0, lt (reals only): lin < 0, eq: lin == 0
"""
import math
from fractions import Fraction
import z3

_ATOMS = {}
_LINS = {}
_BOOLS = {}
_next = [0]


def reset_if_large(limit=400000):
    if len(_LINS) + len(_BOOLS) + len(_ATOMS) > limit:
        _ATOMS.clear()
        _LINS.clear()
        _BOOLS.clear()
        _init_consts()


class Atom:
    __slots__ = ('op', 'args', 'is_int', 'id', '_z', 'sid')

    def __init__(self, op, args, is_int, sid):
        self.op, self.args, self.is_int = op, args, is_int
        self.id = _next[0]
        _next[0] += 1
        self._z = None
        self.sid = sid


def mk_atom(op, args, is_int):
    key = (op, args, is_int)
    a = _ATOMS.get(key)
    if a is None:
        sid = hash((op, tuple(x if isinstance(x, (str, int)) else x.sid for x in args), is_int))
        a = _ATOMS[key] = Atom(op, args, is_int, sid)
    return a


class Lin:
    __slots__ = ('coeffs', 'const', 'is_int', '_z', 'sid')

    def __init__(self, coeffs, const, is_int):
        self.coeffs, self.const, self.is_int = coeffs, const, is_int
        self._z = None
        self.sid = hash((frozenset((a.sid, c) for a, c in coeffs), const, is_int))


def mk_lin(coeffs, const, is_int):
    key = (coeffs, const, is_int)
    t = _LINS.get(key)
    if t is None:
        t = _LINS[key] = Lin(coeffs, const, is_int)
    return t


def _canon(d, const, is_int):
    return mk_lin(tuple(sorted(((a, c) for a, c in d.items() if c != 0), key=lambda p: p[0].sid)),
                  const, is_int)


def num(v):
    if type(v) is int:
        return mk_lin((), v, True)
    return mk_lin((), Fraction(v), False)


def of_atom(a):
    return mk_lin(((a, 1),), 0, a.is_int)


def var(name, is_int=True):
    return of_atom(mk_atom('var', (name,), is_int))


def is_const(t):
    return not t.coeffs


def add(a, b, k=1):
    """a + k*b"""
    if not b.coeffs and not a.coeffs:
        return mk_lin((), a.const + k * b.const, a.is_int and b.is_int)
    d = dict(a.coeffs)
    for at, c in b.coeffs:
        d[at] = d.get(at, 0) + k * c
    return _canon(d, a.const + k * b.const, a.is_int and b.is_int)


def scale(a, k, is_int=None):
    if is_int is None:
        is_int = a.is_int and type(k) is int
    return _canon({at: c * k for at, c in a.coeffs}, a.const * k, is_int)


def to_real(a):
    return a if not a.is_int else mk_lin(a.coeffs, Fraction(a.const), False)


def mul(a, b):
    if is_const(a):
        return scale(b, a.const, a.is_int and b.is_int)
    if is_const(b):
        return scale(a, b.const, a.is_int and b.is_int)
    if a.sid > b.sid:
        a, b = b, a
    return of_atom(mk_atom('mul', (a, b), a.is_int and b.is_int))


def realdiv(a, b):
    if is_const(b):
        return scale(to_real(a), Fraction(1) / Fraction(b.const), False)
    return of_atom(mk_atom('rdiv', (to_real(a), to_real(b)), False))


def intdiv(a, b):
    """euclidean division as in SMT-LIB; b known to be nonzero"""
    if is_const(a) and is_const(b):
        q = a.const // b.const if b.const > 0 else -(a.const // -b.const)
        return num(q)
    return of_atom(mk_atom('idiv', (a, b), True))


def floor(a):
    if a.is_int:
        return a
    if is_const(a):
        return num(math.floor(a.const))
    return of_atom(mk_atom('floor', (a,), True))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.is_int != b.is_int:
        a, b = to_real(a), to_real(b)
    return of_atom(mk_atom('ite', (c, a, b), a.is_int))


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'args', '_z', 'sid', '_neg')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._z = None
        self._neg = None
        if op in ('and', 'or'):
            self.sid = hash((op, frozenset(x.sid for x in args)))
        else:
            self.sid = hash((op, tuple(x if isinstance(x, str) else x.sid for x in args)))


def _mkb(op, args):
    key = (op, args)
    t = _BOOLS.get(key)
    if t is None:
        t = _BOOLS[key] = B(op, args)
    return t


def _init_consts():
    global TRUE, FALSE
    TRUE = B('true', ())
    FALSE = B('false', ())
    TRUE._neg, FALSE._neg = FALSE, TRUE
    _BOOLS[('true', ())] = TRUE
    _BOOLS[('false', ())] = FALSE


_init_consts()


def bvar(name):
    return _mkb('var', (name,))


def boolval(v):
    return TRUE if v else FALSE


def _le0(t):
    """t <= 0"""
    if not t.coeffs:
        return boolval(t.const <= 0)
    if t.is_int:
        g = 0
        for _, c in t.coeffs:
            g = math.gcd(g, c)
        if g > 1:
            # sum(c/g x) <= floor(-const/g)
            t = mk_lin(tuple((a, c // g) for a, c in t.coeffs), -((-t.const) // g), True)
    else:
        c0 = abs(Fraction(t.coeffs[0][1]))
        if c0 != 1:
            t = scale(t, 1 / c0, False)
    return _mkb('le', (t,))


def le(a, b):
    return _le0(add(a, b, -1))


def lt(a, b):
    d = add(a, b, -1)
    if d.is_int:
        return _le0(mk_lin(d.coeffs, d.const + 1, True))
    if not d.coeffs:
        return boolval(d.const < 0)
    c0 = abs(Fraction(d.coeffs[0][1]))
    if c0 != 1:
        d = scale(d, 1 / c0, False)
    return _mkb('lt', (d,))


def eq(a, b):
    d = add(a, b, -1)
    if not d.coeffs:
        return boolval(d.const == 0)
    if d.is_int:
        g = 0
        for _, c in d.coeffs:
            g = math.gcd(g, c)
        if d.const % g:
            return FALSE
        if d.coeffs[0][1] < 0:
            g = -g
        if g != 1:
            d = mk_lin(tuple((x, c // g) for x, c in d.coeffs), d.const // g, True)
    else:
        c0 = Fraction(d.coeffs[0][1])
        if c0 != 1:
            d = scale(d, 1 / c0, False)
    return _mkb('eq', (d,))


def neg(b):
    if b._neg is not None:
        return b._neg
    if b.op == 'le':
        t = b.args[0]
        if t.is_int:
            r = _le0(mk_lin(tuple((a, -c) for a, c in t.coeffs), -t.const + 1, True))
        else:
            r = _mkb('lt', (scale(t, -1, False),))
    elif b.op == 'lt':
        r = _mkb('le', (scale(b.args[0], -1, False),))
    elif b.op == 'not':
        r = b.args[0]
    elif b.op == 'and':
        r = or_(*[neg(x) for x in b.args])
    elif b.op == 'or':
        r = and_(*[neg(x) for x in b.args])
    else:
        r = _mkb('not', (b,))
    b._neg = r
    return r


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE or x in seen:
            continue
        if x is FALSE or neg(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkb('and', tuple(out))


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE or x in seen:
            continue
        if x is TRUE or neg(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mkb('or', tuple(out))


def iff(a, b):
    return or_(and_(a, b), and_(neg(a), neg(b)))


def b2i(b):
    if b is TRUE:
        return num(1)
    if b is FALSE:
        return num(0)
    return ite(b, num(1), num(0))


# ------------------------------------------------------------------ evaluation under a model
def ev_num(t, m):
    r = t.const
    for a, c in t.coeffs:
        r = r + c * ev_atom(a, m)
    return r


def ev_atom(a, m):
    op = a.op
    if op == 'var':
        return m.get(a.args[0], 0)
    if op == 'ite':
        c, x, y = a.args
        return ev_num(x, m) if ev(c, m) else ev_num(y, m)
    if op == 'mul':
        return ev_num(a.args[0], m) * ev_num(a.args[1], m)
    if op == 'idiv':
        x, y = ev_num(a.args[0], m), ev_num(a.args[1], m)
        if y == 0:
            raise ZeroDivisionError
        return x // y if y > 0 else -(x // -y)
    if op == 'rdiv':
        return Fraction(ev_num(a.args[0], m)) / Fraction(ev_num(a.args[1], m))
    if op == 'floor':
        return math.floor(ev_num(a.args[0], m))
    raise AssertionError(op)


def ev(b, m):
    op = b.op
    if op == 'le':
        return ev_num(b.args[0], m) <= 0
    if op == 'eq':
        return ev_num(b.args[0], m) == 0
    if op == 'lt':
        return ev_num(b.args[0], m) < 0
    if op == 'and':
        return all(ev(x, m) for x in b.args)
    if op == 'or':
        return any(ev(x, m) for x in b.args)
    if op == 'not':
        return not ev(b.args[0], m)
    if op == 'var':
        return bool(m.get(b.args[0], False))
    return op == 'true'


# ------------------------------------------------------------------ conversion to Z3
def z_num(t):
    z = t._z
    if z is None:
        parts = []
        for a, c in t.coeffs:
            x = z_atom(a)
            if a.is_int and not t.is_int:
                x = z3.ToReal(x)
            if c == 1:
                parts.append(x)
            elif t.is_int:
                parts.append(z3.IntVal(c) * x)
            else:
                c = Fraction(c)
                parts.append(z3.Q(c.numerator, c.denominator) * x)
        if t.const != 0 or not parts:
            if t.is_int:
                parts.append(z3.IntVal(t.const))
            else:
                c = Fraction(t.const)
                parts.append(z3.Q(c.numerator, c.denominator))
        z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        t._z = z
    return z


def z_atom(a):
    z = a._z
    if z is None:
        op = a.op
        if op == 'var':
            z = z3.Int(a.args[0]) if a.is_int else z3.Real(a.args[0])
        elif op == 'ite':
            z = z3.If(z_bool(a.args[0]), z_num(a.args[1]), z_num(a.args[2]))
        elif op == 'mul':
            x, y = z_num(a.args[0]), z_num(a.args[1])
            if not a.is_int:
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            z = x * y
        elif op == 'idiv':
            z = z_num(a.args[0]) / z_num(a.args[1])
        elif op == 'rdiv':
            z = z_num(a.args[0]) / z_num(a.args[1])
        elif op == 'floor':
            z = z3.ToInt(z_num(a.args[0]))
        else:
            raise AssertionError(op)
        a._z = z
    return z


def _zero(t):
    return z3.IntVal(0) if t.is_int else z3.RealVal(0)


def z_bool(b):
    z = b._z
    if z is None:
        op = b.op
        if op == 'le':
            z = z_num(b.args[0]) <= _zero(b.args[0])
        elif op == 'lt':
            z = z_num(b.args[0]) < _zero(b.args[0])
        elif op == 'eq':
            z = z_num(b.args[0]) == _zero(b.args[0])
        elif op == 'and':
            z = z3.And(*[z_bool(x) for x in b.args])
        elif op == 'or':
            z = z3.Or(*[z_bool(x) for x in b.args])
        elif op == 'not':
            z = z3.Not(z_bool(b.args[0]))
        elif op == 'var':
            z = z3.Bool(b.args[0])
        else:
            z = z3.BoolVal(op == 'true')
        b._z = z
    return z


def variables(b, acc):
    """names of variables occurring"""
    if isinstance(b, Lin):
        for a, _ in b.coeffs:
            variables(a, acc)
    elif isinstance(b, Atom) or isinstance(b, B):
        if b.op == 'var':
            acc.add(b.args[0])
        else:
            for x in b.args:
                variables(x, acc)


def show(t):
    if isinstance(t, Lin):
        parts = ['%s%s' % ('' if c == 1 else '%s*' % (c,), show(a)) for a, c in t.coeffs]
        if t.const or not parts:
            parts.append(str(t.const))
        return '+'.join(parts)
    if isinstance(t, str):
        return t
    if t.op == 'var':
        return t.args[0]
    return '%s(%s)' % (t.op, ','.join(show(x) for x in t.args))
