import math
import operator
from engine.harness import Registry
from satella.coding.structures import Proxy, HashableWrapper
from satella.coding.optionals import Optional, extract_optional, iterate_if_nnone, call_if_nnone
from satella.coding.predicates import x, build_structure, PredicateClass

R = Registry('C35', assumptions=['the wrapped objects implement the operations as pure functions'])

BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and_', 'or_', 'xor', 'lshift', 'rshift']
UN = ['neg', 'pos', 'invert', 'abs']
CMP = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']


class Rec:
    """implements every operation by describing it"""

    def __init__(self, v):
        self.v = v
        self.log = []

    def __getitem__(self, i):
        return 'getitem', self.v, i

    def __setitem__(self, i, v):
        self.log.append(('set', i, v))

    def __delitem__(self, i):
        self.log.append(('del', i))

    def __contains__(self, i):
        return bool(i == self.v)

    def __call__(self, *a, **kw):
        return 'call', self.v, a, kw

    def __concat__(self, o):
        return 'concat', self.v, o

    def __iconcat__(self, o):
        self.log.append(('iconcat', o))

    def __length_hint__(self):
        return 9

    def __iter__(self):
        return iter([self.v, 2])

    def __reversed__(self):
        return iter([2, self.v])

    def __len__(self):
        return 7

    def __next__(self):
        return 'next', self.v

    def __enter__(self):
        self.log.append('enter')
        return self.v

    def __exit__(self, *a):
        self.log.append(('exit', a[0]))
        return True

    def __hash__(self):
        return 77

    def __bool__(self):
        return bool(self.v > 0)

    def __int__(self):
        return 5

    __index__ = __int__

    def __float__(self):
        return 5.5

    def __complex__(self):
        return 5j

    def __str__(self):
        return 'Str'

    def __repr__(self):
        return 'Repr'

    def __format__(self, spec):
        return 'Fmt' + spec

    def __dir__(self):
        return ['v', 'zzz']

    def __divmod__(self, o):
        return 'divmod', self.v, o

    def __rdivmod__(self, o):
        return 'rdivmod', self.v, o

    def __await__(self):
        self.log.append('awaited')
        return 3
        yield

    def __round__(self, n=None):
        return 'round', self.v, n

    def __trunc__(self):
        return 'trunc', self.v

    def __floor__(self):
        return 'floor', self.v

    def __ceil__(self):
        return 'ceil', self.v

    async def __aenter__(self):
        return 'aenter', self.v

    async def __aexit__(self, *a):
        self.log.append('aexit')

    def __aiter__(self):
        return self

    async def __anext__(self):
        return 'anext'


def _mk(name, rname):
    dunder = name.strip('_')

    def op(self, o):
        return dunder, self.v, o

    def rop(self, o):
        return 'r' + dunder, self.v, o

    def iop(self, o):
        self.log.append(('i' + dunder, o))
        return self
    return op, rop, iop


for _n in BIN:
    _op, _rop, _iop = _mk(_n, _n)
    setattr(Rec, '__%s__' % _n.strip('_'), _op)
    setattr(Rec, '__r%s__' % _n.strip('_'), _rop)
    setattr(Rec, '__i%s__' % _n.strip('_'), _iop)
for _n in CMP:
    setattr(Rec, '__%s__' % _n, (lambda n: lambda self, o: (n, self.v, o))(_n))
for _n in UN:
    setattr(Rec, '__%s__' % _n, (lambda n: lambda self: (n, self.v))(_n))
Rec.__hash__ = lambda self: 77


def call(fn, *a):
    try:
        return 'ok', fn(*a)
    except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
        return 'raises', type(e)


@R.harness(labels=['binary', 'reflected', 'inplace', 'unary', 'compare', 'container', 'conversion', 'attribute',
                   'callable', 'context', 'rounding', 'wrapped', 'await', 'number', 'plain object'],
           bounds='every operation on an object implementing it and on one that does not, arbitrary values')
def proxying(S):
    v, w = S.int('v'), S.int('w')
    wrap = S.flag('wrap')
    rec, ref = Rec(v), Rec(v)
    p = Proxy(rec, wrap)
    kind = S.pick('kind', ['binary', 'reflected', 'inplace', 'unary', 'compare', 'container', 'conversion',
                           'attribute', 'callable', 'context', 'rounding', 'await', 'number', 'plain object'])
    S.reach(kind)

    def result(got, exp, wrapped=True):
        if wrap and wrapped:
            S.check(type(got) is Proxy, 'result is wrapped')
            got = got._get_object()
            S.reach('wrapped')
        S.check_eq(got, exp, kind)

    if kind == 'binary':
        op = getattr(operator, S.pick('op', BIN))
        result(op(p, w), op(ref, w))
        S.check_eq(divmod(p, w), ('divmod', v, w), 'divmod')
        result(p.__concat__(w), ('concat', v, w))
        S.check(p.__length_hint__() == 9, 'length hint')
        S.check(operator.length_hint(Proxy(iter([v, w]))) == 2, 'length hint')
    elif kind == 'reflected':
        op = getattr(operator, S.pick('op', BIN))
        o = object()        # (does not implement anything)
        result(op(o, p), op(o, ref))
        S.check_eq(divmod(o, p), ('rdivmod', v, o), 'rdivmod')
    elif kind == 'inplace':
        name = S.pick('op', BIN)
        op = getattr(operator, 'i' + name.strip('_'))
        q = op(p, w)
        S.check(q is p, 'the proxy itself')
        S.check_eq(rec.log, [('i' + name.strip('_'), w)], 'on the object')
        S.check(p.__iconcat__(w) is p, 'the proxy itself')
        S.check_eq(rec.log[1:], [('iconcat', w)], 'on the object')
        n = Proxy(10)
        n += 5
        S.check(type(n) is Proxy and n._get_object() == 15, 'immutable object')
    elif kind == 'unary':
        op = getattr(operator, S.pick('op', UN))
        result(op(p), op(ref))
    elif kind == 'compare':
        op = getattr(operator, S.pick('op', CMP))
        S.check_eq(op(p, w), op(ref, w), kind)
    elif kind == 'container':
        S.check_eq(p[w], ref[w], 'getitem')
        p[w] = 5
        del p[v]
        S.check_eq(rec.log, [('set', w, 5), ('del', v)], 'changes go to the object')
        S.check((w in p) == (w in ref), 'in')
        S.check_eq(list(p), [v, 2], 'iter')
        S.check_eq(list(reversed(p)), [2, v], 'reversed')
        S.check(len(p) == 7, 'len')
        S.check_eq(next(p), ('next', v), 'next')
        S.check(hash(p) == 77, 'hash')
        S.check(bool(p) == bool(v > 0), 'bool')
    elif kind == 'conversion':
        for f, e in [(int, 5), (float, 5.5), (complex, 5j), (str, 'Str'), (repr, 'Repr'), (hex, '0x5'), (oct, '0o5'),
                     (operator.index, 5), (lambda y: format(y, '>3'), 'Fmt>3'), (dir, ['v', 'zzz'])]:
            S.check(f(p) == e, 'conversion')
    elif kind == 'attribute':
        S.check_eq(p.v, v, 'attribute')
        p.v = w
        S.check_eq(rec.v, w, 'set')
        p.new = 5
        S.check(rec.new == 5, 'set')
        del p.new
        S.check(not hasattr(rec, 'new') and not hasattr(p, 'new'), 'deleted')
    elif kind == 'callable':
        S.check_eq(p(w, k=v), ('call', v, (w,), {'k': v}), 'call')
    elif kind == 'context':
        with p as q:
            S.check_eq(q, v, 'entered')
            if S.flag('raise'):
                raise KeyError()
        S.check(len(rec.log) == 2, 'entered and exited')

        async def co():
            async with p as r:
                S.check_eq(r, ('aenter', v), 'async entered')
            async for y in p:
                S.check(y == 'anext', 'async iteration')
                break
        run(co())
        S.check(rec.log[2:] == ['aexit'], 'async exited')
    elif kind == 'rounding':
        name = S.pick('f', ['round', 'round0', 'floor', 'ceil', 'trunc'])
        f = {'round': lambda y: round(y, 3), 'round0': round, 'floor': math.floor, 'ceil': math.ceil,
             'trunc': math.trunc}[name]
        result(f(p), f(ref))
        z = S.pick('num', [2.5, -1.5, 7, 0.75])
        result(f(Proxy(z, wrap)), f(z))
    elif kind == 'await':
        async def co():
            return await p
        S.check(run(co()) == 3, 'awaited')
        S.check(rec.log == ['awaited'], 'awaited')
    elif kind == 'number':
        op = getattr(operator, S.pick('op', ['add', 'sub', 'mul']))
        result(op(Proxy(v, wrap), w), op(v, w))
        result(op(w, Proxy(v, wrap)), op(w, v))
        S.check_eq(op(Proxy(v), Proxy(w)), op(v, w), 'both')
        op = getattr(operator, S.pick('cmp', CMP))
        S.check_eq(op(Proxy(v, wrap), w), op(v, w), 'compare')
    else:
        o = object()
        f = S.pick('f', [lambda y: y + 1, lambda y: 1 + y, len, iter, lambda y: y[0], lambda y: y(), lambda y: y < 1,
                         lambda y: y.attr, lambda y: -y, int, float, complex, math.floor, round, lambda y: 1 in y,
                         next, math.trunc, lambda y: 5 % y])
        got = call(f, Proxy(o, wrap))
        exp = call(f, o)
        S.check(got[0] == exp[0] == 'raises', lambda: 'operation not supported %r' % (got,))
        S.check(got == exp, lambda: 'exception %r, expected %r' % (got, exp))


def run(co):
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError('suspended')


@R.harness(labels=['present', 'absent', 'chain', 'nested'], bounds='every operation on a present and an absent object')
def optional(S):
    v, w = S.int('v'), S.int('w')
    present = S.flag('present')
    rec = Rec(v)
    o = Optional(rec if present else None)
    S.reach('present' if present else 'absent')
    S.check(extract_optional(o) is (rec if present else None), 'extracted')
    S.check(extract_optional(rec) is rec and extract_optional(None) is None, 'not an optional')
    op = S.pick('op', ['get', 'call', 'attr', 'in', 'bool', 'set', 'len', 'cmp', 'helpers'])
    empty = lambda e: isinstance(e, Optional) and extract_optional(e) is None
    if op == 'get':
        S.check(S.eq(o[w], ('getitem', v, w)) if present else empty(o[w]), op)
    elif op == 'call':
        S.check(S.eq(o(w, k=v), ('call', v, (w,), {'k': v})) if present else empty(o(w, k=v)), op)
    elif op == 'attr':
        S.check(S.eq(o.v, v) if present else empty(o.v), op)
        if not present:
            S.check(empty(o.method(w).result()[w].x), 'chain')
            S.reach('chain')
    elif op == 'in':
        S.check((w in o) == (present and bool(v == w)), op)
    elif op == 'bool':
        S.check(bool(o) == (present and bool(v > 0)), op)
    elif op == 'set':
        o[w] = v
        del o[v]
        S.check_eq(rec.log, [('set', w, v), ('del', v)] if present else [], op)
    elif op == 'len':
        S.check(len(o) == (7 if present else 0), op)
    elif op == 'cmp':
        c = getattr(operator, S.pick('cmp', ['eq', 'lt', 'le', 'gt', 'ge']))
        n = Optional(v if present else None)
        S.check_eq(bool(c(n, w)), bool(c(v, w)) if present else False, 'comparison')
        S.reach('nested')
    else:
        S.check_eq(list(iterate_if_nnone(rec if present else None)), [v, 2] if present else [], 'iterate')
        S.check_eq(call_if_nnone(rec if present else None, w, k=v),
                   ('call', v, (w,), {'k': v}) if present else None, 'call_if_nnone')


@R.harness(labels=['hashable', 'by identity', 'in dict', 'forwarded'], bounds='hashable and unhashable objects')
def hashable(S):
    v = S.int('v')
    objs = [[v], [v], {1: v}, {1: v}, (1,), (1,), 'abc']
    a, b = S.pick('a', objs), S.pick('b', objs)
    wa, wb = HashableWrapper(a), HashableWrapper(b)
    S.check((wa == wb) == (a is b) and (wa == b) == (a is b), 'compared by identity')
    S.reach('by identity')
    if a is b:
        S.check(hash(wa) == hash(wb), 'equal objects have equal hashes')
    if isinstance(a, (tuple, str)):
        S.check(hash(wa) == hash(a), 'own hash')
        S.reach('hashable')
    d = {wa: 1}
    d[HashableWrapper(b)] = 2
    S.check(len(d) == (1 if a is b else 2) and d[wa] == (2 if a is b else 1), 'as a key')
    S.reach('in dict')
    S.check(len(wa) == len(a), 'forwarded')
    S.reach('forwarded')


ARITH = ['add', 'sub', 'mul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne']


def expr(S, d, v, w):
    """(predicate or constant, its value)"""
    kind = S.choice('kind', 3 if d else 2)
    if kind == 0:
        return x, v
    if kind == 1:
        return w, w
    op = getattr(operator, S.pick('op', ['add', 'sub', 'mul'] if d > 1 else ARITH[:4]))
    a, va = expr(S, d - 1, v, w)
    b, vb = expr(S, d - 1 if not isinstance(a, PredicateClass) else 0, v, w)
    return op(a, b), op(va, vb)


@R.harness(quick=[dict(d=2)], thorough=[dict(d=3)], labels=['expression', 'constant'],
           bounds='expressions up to depth d over arbitrary constants and arguments')
def expressions(S, d):
    v, w = S.int('v'), S.int('w')
    op = getattr(operator, S.pick('top', ARITH))
    a, va = expr(S, d - 1, v, w)
    b, vb = expr(S, d - 1, v, w)
    p = op(a, b)
    if isinstance(a, PredicateClass) or isinstance(b, PredicateClass):
        S.check_eq(p(v), op(va, vb), 'value of the expression')
        u = S.int('u')
        S.assume(u == v + 1)
        S.check_eq(p(v), op(va, vb), 'repeatedly')
        S.reach('expression')
    else:
        S.reach('constant')


@R.harness(labels=['binary', 'unary', 'one_of', 'has_keys', 'inside', 'has', 'types', 'attribute', 'schema', 'calls',
                   'identity', 'length'],
           bounds='every predicate, arbitrary values')
def predicates(S):
    v, w, u = S.int('v'), S.int('w'), S.int('u')
    rec = Rec(v)
    kind = S.pick('kind', ['binary', 'unary', 'one_of', 'has_keys', 'inside', 'has', 'types', 'attribute', 'calls',
                           'identity', 'length', 'schema'])
    S.reach(kind)
    if kind == 'binary':
        name = S.pick('op', BIN)
        op = getattr(operator, name)
        o = object()
        S.check_eq(op(x, w)(rec), op(rec, w), 'right constant')
        S.check_eq(op(o, x)(rec), op(o, rec), 'left constant')
        S.check_eq(op(x, x)(rec), op(rec, rec), 'both')
        S.check_eq(op(x, x.v)(rec), op(rec, v), 'expressions')
    elif kind == 'unary':
        S.check_eq((-x)(v), -v, 'neg')
        S.check_eq((-(x + w))(v), -(v + w), 'neg')
        S.check_eq(abs(x)(rec), ('abs', v), 'abs')
        S.check_eq((~x)(rec), ('invert', v), 'invert')
        S.check((x > w).false()(v) == (not bool(v > w)), 'false')
        S.check(x.str()(rec) == 'Str' and x.int()(rec) == 5 and x.float()(rec) == 5.5, 'conversions')
    elif kind == 'one_of':
        S.check(x.one_of(w, u)(v) == bool(S.Or(v == w, v == u)), kind)
        S.check(x.one_of()(v) is False, kind)
    elif kind == 'has_keys':
        d = {k: 1 for k in 'abc' if S.flag('has_' + k)}
        S.check(x.has_keys('a', 'c')(d) == ('a' in d and 'c' in d), kind)
    elif kind == 'inside':
        S.check(x.inside(v)([w, u]) == bool(S.Or(v == w, v == u)), kind)
    elif kind == 'has':
        n = S.choice('n', 4)
        lst = [S.int('e') for _ in range(n)]
        S.check(x.has(x > w)(lst) == bool(S.Or(False, *[e > w for e in lst])), kind)
        S.check(x.has_p(x > w)(lst) == bool(S.Or(False, *[e > w for e in lst])), kind)
    elif kind == 'types':
        o = S.pick('o', [3, 'x', [1], None])
        S.check(x.type()(o) is type(o), 'type')
        S.check((x.type() == str)(o) == (type(o) is str), 'type')
        S.check(x.is_instance(int, list)(o) == isinstance(o, (int, list)), 'is_instance')
        S.check(x.instanceof(str)(o) == isinstance(o, str), 'instanceof')
    elif kind == 'attribute':
        S.check_eq(x.v(rec), v, 'attribute')
        S.check_eq((x.v + w)(rec), v + w, 'attribute')
        S.check_eq(x[w](rec), ('getitem', v, w), 'item')
        S.check_eq((x['k'] > w)({'k': v}), v > w, 'item of a dict')
        S.check_eq(x['a']['b']({'a': {'b': v}}), v, 'nested')
    elif kind == 'calls':
        S.check_eq(x.tell()(Told(v)), ('told', v), 'method call')
        S.check_eq((x.tell()[1] + w)(Told(v)), v + w, 'method call')
    elif kind == 'identity':
        p = x + w
        q = p.identity()
        S.check(q is not p, 'different')
        S.check_eq(q(v), v + w, 'same operation')
        d = {p: 1, q: 2}
        S.check(len(d) == 2 and d[p] == 1 and d[q] == 2, 'keys of a dictionary')
    elif kind == 'length':
        n = S.choice('n', 4)
        S.check(x.length()([v] * n) == n and x.len()([v] * n) == n, kind)
        S.check((x.length() > 1)([v] * n) == (n > 1), kind)
    else:
        S.check(x.is_valid_schema({'k': int})({'k': 3}) is True, 'valid')
        S.check(x.is_valid_schema({'k': int})({'k': 'z'}) is False, 'invalid')
        S.check(x.is_valid_schema(k=int)({}) is False, 'missing')


class Told:
    def __init__(self, v):
        self.v = v

    def tell(self):
        return 'told', self.v


def structure(S, d, v, w):
    kind = S.choice('shape', 4 if d else 2)
    if kind == 0:
        return S.pick('leaf', [(x + w, v + w), (x, v), ('str', 'str'), (w, w), (None, None), (b'b', b'b')])
    if kind == 1:
        return (), ()
    if kind == 2:
        t = tuple if S.flag('tuple') else list
        els = [structure(S, d - 1 if i == 0 else 0, v, w) if i == 0 else (x - 1, v - 1)
               for i in range(S.choice('len', 3))]
        return t(e[0] for e in els), t(e[1] for e in els)
    e = structure(S, d - 1, v, w)
    n = S.choice('size', 3)
    keys = [('a', 'a'), (x.identity(), v)][:n]
    out = {}, {}
    for i, (k, kv) in enumerate(keys):
        out[0][k] = e[0] if i == 0 else x * 2
        out[1][kv] = e[1] if i == 0 else v * 2
    return out


@R.harness(quick=[dict(d=2)], thorough=[dict(d=3)], labels=['built', 'final'],
           bounds='all nestings of lists, tuples and dictionaries up to depth d and length 2')
def structures(S, d):
    v, w = S.key('v'), S.int('w')
    s, exp = structure(S, d, v, w)
    S.check_eq(build_structure(s, v), exp, 'structure')
    S.reach('built')
    S.check_eq(build_structure(s, v, lambda y: (y, 1)), (exp, 1), 'final operator')
    S.reach('final')
