from engine.harness import Registry
from satella.coding import TypeSignature, class_or_instancemethod, overload

R = Registry('C47', assumptions=['types of parameters are classes or tuples of classes'])


class Base:
    pass


class Left(Base):
    pass


class Right(Base):
    pass


class Low(Left):
    pass


class Mixed(Left, Right):
    pass


NONE = object()
TYPES = [Base, Left, Low, Right, str, object, NONE, (Left, str)]
VALUES = [Base(), Left(), Low(), Right(), Mixed(), 'text', 5, None]


def make(log, name, types, default=False):
    def one(a):
        log.append((name, a))
        return name

    def two(a, b):
        log.append((name, a, b))
        return name

    def maybe(a, b=VALUES[2]):
        log.append((name, a, b))
        return name

    fn = one if len(types) == 1 else maybe if default else two
    fn.__annotations__ = {n: t for n, t in zip('ab', types) if t is not NONE}
    fn.__doc__ = name
    return fn


def accepts(t, v):
    return t is NONE or isinstance(v, t)


def flat(t):
    return (object,) if t is NONE else t if isinstance(t, tuple) else (t,)


def below(s, t):
    """every type of s is accepted by t"""
    return all(issubclass(x, flat(t)) for x in flat(s))


def lower(s, t):
    """signature s is more specific than t"""
    return len(s) == len(t) and all(map(below, s, t)) and not all(map(below, t, s))


def matches(types, default, args):
    if default and len(args) == 1:
        args = (*args, VALUES[2])
    return len(types) == len(args) and all(accepts(t, v) for t, v in zip(types, args))


@R.harness(quick=[dict(n=2, arity=1), dict(n=3, arity=1, few=True)], thorough=[dict(n=3, arity=1)],
           labels=['called', 'none', 'most specific', 'repeated', 'keyword'],
           bounds='n functions of one parameter of any of 8 types, called with an instance of any of 8 types')
def one_parameter(S, n, arity, few=False):
    dispatch(S, [[S.pick('type', TYPES[:5] if few else TYPES)] for _ in range(n)], [False] * n,
             [S.pick('value', VALUES)], S.flag('keyword'))


@R.harness(quick=[dict(few=True)], thorough=[dict(few=False)],
           labels=['called', 'none', 'most specific', 'repeated', 'other number', 'default'],
           bounds='2 functions of one or two parameters (with a default or not), called with one or two arguments')
def two_parameters(S, few):
    types = [Base, Left, Right, NONE] if few else TYPES
    signatures = [[S.pick('type', types) for _ in range(1 + S.choice('more', 2))] for _ in range(2)]
    defaults = [len(s) == 2 and S.flag('default') for s in signatures]
    values = [VALUES[0], VALUES[2], VALUES[4], 5] if few else VALUES
    args = [S.pick('value', values) for _ in range(1 + S.choice('args', 2))]
    if any(len(s) != len(args) for s in signatures):
        S.reach('other number')
    if any(defaults):
        S.reach('default')
    dispatch(S, signatures, defaults, args, False)


def dispatch(S, signatures, defaults, args, keyword):
    log = []
    fns = [make(log, 'f%d' % i, t, d) for i, (t, d) in enumerate(zip(signatures, defaults))]
    f = overload(fns[0])
    S.check(f.__wrapped__ is fns[0] and f.__doc__ == 'f0', 'looks like the first one')
    kept = [0]
    for i in range(1, len(fns)):
        r, g = S.raises(TypeError, f.overload, fns[i])
        again = any(signatures[j] == signatures[i] and defaults[j] == defaults[i] for j in kept)
        S.check(r == again, 'a signature can be given once')
        if r:
            S.reach('repeated')
        else:
            S.check(g is f, 'the same object')
            kept.append(i)
    S.check(list(f.all_functions) == [fns[i] for i in kept], 'all the functions')
    fit = [i for i in kept if matches(signatures[i], defaults[i], args)]
    if keyword:
        S.reach('keyword')
    r, v = S.raises(TypeError, lambda: f(**dict(zip('ab', args))) if keyword else f(*args))
    S.check(r == (not fit), lambda: 'functions %r of %r fit %r' % (fit, signatures, args))
    if r:
        S.check(not log, 'nothing is called')
        S.reach('none')
        return
    S.check(len(log) == 1 and v == log[0][0], 'one function is called, its result returned')
    S.check(all(x is y for x, y in zip(log[0][1:], args)), 'with these arguments')
    chosen = int(v[1:])
    S.check(chosen in fit, 'a function that fits')
    S.reach('called')
    for i in fit:
        # among those that fit there is one more specific than all the others: it is called
        if all(j == i or lower(signatures[i], signatures[j]) for j in fit):
            S.check(chosen == i, lambda: '%r called for %r, and not %r' % (signatures[chosen], args, signatures[i]))
            if len(fit) > 1:
                S.reach('most specific')


@R.harness(labels=['generic', 'specific', 'unrelated'], bounds='signatures with one or two parameters of any of 8 types')
def signatures(S):
    n = 1 + S.choice('n', 2)
    a, b = [S.pick('type', TYPES) for _ in range(n)], [S.pick('type', TYPES if n == 1 else TYPES[:4]) for _ in range(n)]
    ta, tb = [TypeSignature.from_fun(make([], 'f', t)) for t in (a, b)]
    ab, ba = ([all(below(s, t) for s, t in zip(p, q)) for p, q in ((b, a), (a, b))])
    if ab == ba:
        S.reach('unrelated')
        if not ab:
            S.check(not ta < tb and not tb < ta, 'unrelated')
        return
    S.check((ta < tb) == ab and (tb < ta) == ba, 'a more generic signature is less')
    S.check(ta.is_more_generic_than(tb) == ab, 'is_more_generic_than')
    S.reach('generic' if ab else 'specific')
    v = S.pick('value', VALUES)
    S.check(ta.matches(*[v] * n) == matches(a, False, [v] * n), 'matches')


@R.harness(labels=['instance', 'class', 'subclass'], bounds='called on an instance or a class, arbitrary argument')
def on_class_or_instance(S):
    v = S.int('v')
    size = S.choice('size', 2)

    class A:
        def __len__(self):
            return size

        def __eq__(self, other):
            return True

        @class_or_instancemethod
        def method(self_or_cls, x, y=1):
            return self_or_cls, x, y

    class B(A):
        pass

    cls = S.pick('cls', [A, B])
    target = cls() if S.flag('instance') else cls
    kw = {'y': v + 1} if S.flag('keyword') else {}
    got = target.method(v, **kw)
    S.check(got[0] is target, 'the instance, or the class')
    S.check_eq(got[1:], (v, v + 1 if kw else 1), 'the arguments')
    S.reach('class' if target is A else 'subclass' if target is B else 'instance')
