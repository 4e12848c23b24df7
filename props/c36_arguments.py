from engine.harness import Registry
from satella.coding import get_arguments, call_with_arguments
from satella.coding.decorators import transform_result, transform_arguments, replace_argument_if, \
    attach_arguments, copy_arguments, for_argument, precondition, auto_adapt_to_methods, postcondition
from satella.coding.predicates import x as X
from satella.exceptions import PreconditionError

R = Registry('C36', assumptions=['functions without side effects on the arguments'])


def f0():
    return {}


def f1(a):
    return dict(locals())


def f2(a, b=100):
    return dict(locals())


def f3(a, b=100, *rest):
    return dict(locals())


def f4(a, *, b=100, c=101):
    return dict(locals())


def f5(a=99, b=100, **kw):
    return dict(locals())


def f6(a, *rest, b, **kw):
    return dict(locals())


def f7(a, b, c=None):
    return dict(locals())


def f8(a, b, /, c=101, *, d=102):
    return dict(locals())


def f9(*rest, **kw):
    return dict(locals())


class Cls:
    def m(self, a, b=100, *rest):
        return {k: v for k, v in locals().items() if k != 'self'}


SIGS = [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, Cls().m]


def call(S, npos, names):
    args = tuple(S.int('p') for _ in range(S.choice('positional', npos + 1)))
    kw = {k: S.int(k) for k in names if S.flag('kw_' + k)}
    return args, kw


def outcome(fn, *a, **kw):
    try:
        return 'ok', fn(*a, **kw)
    except TypeError:
        return 'TypeError', None


@R.harness(quick=[dict(npos=3)], thorough=[dict(npos=5)], labels=['bound', 'rejected', 'round trip', 'incomplete'],
           bounds='11 kinds of signatures; up to npos positional and any of 4 keyword arguments')
def binding(S, npos):
    fun = S.pick('fun', SIGS)
    args, kw = call(S, npos, ['a', 'b', 'c', 'z'])
    real = outcome(fun, *args, **kw)
    got = outcome(get_arguments, fun, *args, **kw)
    S.check(real[0] == got[0], 'get_arguments accepts exactly what the function does')
    if real[0] == 'ok':
        S.check_eq(got[1], real[1], 'local variables')
        S.reach('bound')
        S.check_eq(outcome(call_with_arguments, fun, dict(got[1])), real, 'called with these arguments')
        S.reach('round trip')
        # arguments having defaults may be left out
        if fun in (f2, f5, f7, f8, f4):
            defaults = {'a': 99, 'b': 100, 'c': None if fun is f7 else 101, 'd': 102}
            if fun is not f5:
                del defaults['a']
            if fun in (f7, f8):
                del defaults['b']
            some = dict(got[1])
            exp = dict(got[1])
            drop = S.pick('drop', sorted(defaults))
            if drop in some:
                del some[drop]
                exp[drop] = defaults[drop]
                S.check_eq(outcome(call_with_arguments, fun, some), ('ok', exp), 'default is used')
                S.reach('incomplete')
    else:
        S.reach('rejected')


@R.harness(labels=['transform_result', 'transform_arguments', 'rejected', 'replaced', 'not replaced'],
           bounds='functions of up to 3 arguments passed in any way, any values')
def transforming(S):
    def fun(a, b=7, *, c=3):
        calls.append((a, b, c))
        return a + 2 * b + 3 * c
    calls = []
    args, kw = call(S, 2, ['a', 'b', 'c'])
    real = outcome(fun, *args, **kw)
    kind = S.pick('kind', ['transform_result', 'transform_arguments', 'replace'])
    if real[0] == 'ok':
        a, b, c = calls[0]
        calls.clear()
    if kind == 'transform_result':
        got = outcome(transform_result('x*2-a+b-c')(fun), *args, **kw)
        if real[0] == 'ok':
            S.check_eq(got, ('ok', real[1] * 2 - a + b - c), 'transformed result')
            S.check_eq(calls, [(a, b, c)], 'called once, same arguments')
            S.reach(kind)
    elif kind == 'transform_arguments':
        # old values of all arguments are used
        got = outcome(transform_arguments(a='b+1', c='a-c')(fun), *args, **kw)
        if real[0] == 'ok':
            S.check_eq(calls, [(b + 1, b, a - c)], 'called once, transformed arguments')
            S.check_eq(got, ('ok', (b + 1) + 2 * b + 3 * (a - c)), 'result')
            S.reach(kind)
    else:
        name = S.pick('name', ['a', 'b', 'c', 'absent'])
        if S.flag('by type'):
            dec = replace_argument_if(name, X + 5, int if S.symbolic is False else type(S.int('q')))
            cond = real[0] == 'ok' and name != 'absent' and \
                isinstance(dict(a=a, b=b, c=c)[name], int if S.symbolic is False else type(S.int('q')))
        else:
            limit = S.int('limit')
            dec = replace_argument_if(name, X + 5, predicate=lambda v: v > limit)
            cond = real[0] == 'ok' and name != 'absent' and bool(dict(a=a, b=b, c=c)[name] > limit)
        got = outcome(dec(fun), *args, **kw)
        if real[0] == 'ok':
            exp = dict(a=a, b=b, c=c)
            if cond:
                exp[name] = exp[name] + 5
                S.reach('replaced')
            else:
                S.reach('not replaced')
            S.check_eq(calls, [tuple(exp[n] for n in 'abc')], 'arguments')
            S.check_eq(got[1], exp['a'] + 2 * exp['b'] + 3 * exp['c'], 'result')
    if real[0] != 'ok':
        S.check(got[0] == 'TypeError' and not calls, 'rejected')
        S.reach('rejected')


@R.harness(labels=['fast', 'defaults', 'default used', 'callable default', 'strings', 'method', 'returns'],
           bounds='functions with and without default values, arguments passed in any way, any values')
def for_arguments(S):
    u, v = S.int('u'), S.int('v')
    as_string = S.flag('string')
    if as_string:
        S.reach('strings')
    first = S.pick('first', ['none', 'op'])
    op1 = None if first == 'none' else ('x+10' if as_string else (lambda x: x + 10))
    op2 = 'x*3' if as_string else (lambda x: x * 3)
    one = lambda x: x if first == 'none' else x + 10
    ret = {'returns': lambda x: ('r', x)} if S.flag('returns') else {}
    result = (lambda x: ('r', x)) if ret else (lambda x: x)
    if ret:
        S.reach('returns')
    kind = S.pick('kind', ['fast', 'fast_kw', 'defaults', 'callable default', 'method'])
    if kind == 'fast':
        @for_argument(op1, op2, **ret)
        def fun(a, b):
            return a, b
        S.check_eq(fun(u, v), result((one(u), v * 3)), 'arguments')
        S.reach('fast')
    elif kind == 'fast_kw':
        @for_argument(op1, b=op2, **ret)
        def fun(a, b, c):
            return a, b, c
        S.check_eq(fun(u, b=v, c=u), result((one(u), v * 3, u)), 'arguments')
        S.reach('fast')
    elif kind == 'defaults':
        @for_argument(op1, c=op2, **ret)
        def fun(a, b=4, c=5, *, d=6):
            return a, b, c, d
        kw = {k: S.int(k) for k in 'bcd' if S.flag('kw_' + k)}
        exp = dict(dict(b=4, c=5, d=6), **kw)
        got = fun(u, **kw) if S.flag('a positional') else fun(a=u, **kw)
        S.check_eq(got, result((one(u), exp['b'], exp['c'] * 3, exp['d'])), 'arguments')
        S.reach('defaults')
        if 'c' not in kw:
            S.reach('default used')
    elif kind == 'callable default':
        @for_argument(op1, **ret)
        def fun(a, key=len):
            return a, key
        own = S.flag('given')
        S.check_eq(fun(u, abs) if own else fun(u), result((one(u), abs if own else len)), 'arguments')
        S.reach('callable default')
    else:
        class A:
            @for_argument('self', op2, **ret)
            def fun(self, a):
                return a
        S.check_eq(A().fun(u), result(u * 3), 'method')
        S.reach('method')


@R.harness(labels=['passed', 'failed', 'default unchecked', 'type error'],
           bounds='any values and thresholds, preconditions on any of 3 arguments, positional and keyword')
def preconditions(S):
    u, v, w, t = S.int('u'), S.int('v'), S.int('w'), S.int('t')
    first = S.pick('first', [None, 'string', 'lambda', 'typeerror'])
    conds = {None: None, 'string': 'bool(x > 5)', 'lambda': lambda x: bool(x > t),
             'typeerror': lambda x: len(x) > 2}
    second = S.pick('second', ['absent', None, 'lambda'])
    kwc = S.pick('kw', ['absent', None, 'string', 'lambda'])
    calls = []
    p = [conds[first]] + ([] if second == 'absent' else [conds[second]])
    k = {} if kwc == 'absent' else {'c': conds[kwc]}

    @precondition(*p, **k)
    def fun(a, b, c=0):
        calls.append((a, b, c))
        return u

    passed = S.flag('c passed')
    r, x = S.raises(PreconditionError, fun, u, v, **({'c': w} if passed else {}))
    ok = first != 'typeerror'
    if first == 'string':
        ok = ok and bool(u > 5)
    elif first == 'lambda':
        ok = ok and bool(u > t)
    if second == 'lambda':
        ok = ok and bool(v > t)
    if passed and kwc == 'string':
        ok = ok and bool(w > 5)
    elif passed and kwc == 'lambda':
        ok = ok and bool(w > t)
    S.check(r == (not ok), 'checked')
    if ok:
        S.check_eq(calls, [(u, v, w if passed else 0)], 'called')
        S.check_eq(x, u, 'result')
        S.reach('passed')
        if not passed and kwc == 'lambda':
            S.reach('default unchecked')
    else:
        S.check(not calls, 'not called')
        S.reach('failed')
        if first == 'typeerror':
            S.reach('type error')
    S.check(issubclass(PreconditionError, ValueError), 'kind of exception')


@R.harness(labels=['attach', 'copy', 'deepcopy', 'function', 'method'], bounds='any values, calls in any way')
def passing(S):
    u, v, w = S.int('u'), S.int('v'), S.int('w')
    kind = S.pick('kind', ['attach', 'copy', 'adapt'])
    if kind == 'attach':
        args, kw = call(S, 2, ['label', 'key'])
        extra, ekw = (w,) if S.flag('pos') else (), ({'label': v} if S.flag('kw') else {})
        f = attach_arguments(*extra, **ekw)(lambda *a, **k: (a, k))
        S.check_eq(f(*args, **kw), (args + extra, dict(kw, **ekw)), 'attached')
        S.check_eq(f(*args, **kw), (args + extra, dict(kw, **ekw)), 'attached again')
        S.check_eq(f(), (extra, ekw), 'nothing is remembered')
        S.reach('attach')
    elif kind == 'copy':
        deep = S.flag('deep')

        @copy_arguments(deep)
        def fun(a, b):
            S.check_eq((a, b), ([u, [v]], {'k': [w]}), 'equal')
            a.append(1)
            b['z'] = 1
            a[1].append(2)
            b['k'].append(3)
        a, b = [u, [v]], {'k': [w]}
        if S.flag('by name'):
            fun(b=b, a=a)
        else:
            fun(a, b)
        if deep:
            S.check_eq((a, b), ([u, [v]], {'k': [w]}), 'untouched')
            S.reach('deepcopy')
        else:
            S.check_eq((a, b), ([u, [v, 2]], {'k': [w, 3]}), 'untouched')
            S.reach('copy')
    else:
        @auto_adapt_to_methods
        def double(fun):
            def outer(a, *rest):
                return fun(a * 2, *rest)
            return outer

        class A:
            @double
            def m(self, a, b=5):
                return self, a, b

        @double
        def f(a, b=5):
            return a, b
        rest = (v,) if S.flag('rest') else ()
        b = v if rest else 5
        if S.flag('method'):
            o1, o2 = A(), A()
            S.check_eq(o1.m(u, *rest), (o1, u * 2, b), 'method')
            S.check_eq(o2.m(u, *rest), (o2, u * 2, b), 'another instance')
            S.reach('method')
            S.check_eq(o1.m(u), (o1, u * 2, 5), 'again')
        else:
            S.check_eq(f(u, *rest), (u * 2, b), 'function')
            S.reach('function')


def nothing_like_it(x):
    return ('converted', x)


@R.harness(labels=['empty'], bounds='None, empty and other values of arguments and defaults')
def empty_arguments(S):
    v = S.pick('value', [None, 0, '', False, (), 5, 'text'])

    @for_argument(nothing_like_it, c=nothing_like_it)
    def plain(a, b, c):
        return a, b, c

    @for_argument(nothing_like_it, c=nothing_like_it)
    def defaults(a, b=3, c=v):
        return a, b, c
    S.check(plain(v, v, c=v) == (('converted', v), v, ('converted', v)), 'arguments')
    S.check(defaults(v, v, c=v) == (('converted', v), v, ('converted', v)), 'arguments')
    S.check(defaults(v) == (('converted', v), 3, ('converted', v)), 'default')
    S.reach('empty')
