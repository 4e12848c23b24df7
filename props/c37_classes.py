import abc
import warnings
from engine.harness import Registry
from satella.coding import static_var, class_or_instancemethod, metaclass_maker, wrap_with, dont_wrap, wrap_property, \
    CopyDocsFrom, DocsFromParent
from satella.coding import environment
from satella.coding.environment import Context
from satella.exceptions import CustomException, CodedCustomException

R = Registry('C37', assumptions=['single thread; contexts are entered and left in nested order'])


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


@R.harness(quick=[dict(k=4)], thorough=[dict(k=5)],
           labels=['nested', 'shadowed', 'inherited', 'deleted', 'pushed', 'left', 'given', 'exception', 'absent',
                   'reset', 'existing'],
           bounds='up to k operations: entering and leaving contexts nested to any depth, setting, deleting, pushing up')
def contexts(S, k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        environment.local.__dict__.pop('thread_context', None)
        try:
            _contexts(S, k)
        finally:
            environment.local.__dict__.pop('thread_context', None)


GONE = object()


def _contexts(S, k):
    stack = []      # (what was entered, context, variables)
    root = S.flag('root')
    if root:
        stack.append((None, Context.get(), {}))

    def lookup(name):
        for _, _, v in reversed(stack):
            if name in v:
                return v[name]
        return GONE

    def compare():
        if not stack:
            return
        ctx = stack[-1][1]
        S.check(Context.get() is ctx, 'the current context is the innermost one')
        for name in 'ab':
            v = lookup(name)
            S.check(ctx.does_exist(name) == (v is not GONE), 'does_exist')
            r, got = S.raises(AttributeError, getattr, ctx, name)
            S.check(r == (v is GONE), 'defined')
            if v is not GONE:
                S.check_eq(got, v, 'value')

    for _ in range(k):
        op = S.pick('op', ['enter', 'leave', 'set', 'del', 'push'])
        if op == 'enter':
            vs = {'a': S.int('given')} if S.flag('with variable') else {}
            c = Context(**vs)
            got = c.__enter__()
            stack.append((c, got, dict(vs)))
            if vs:
                S.reach('given')
            if len(stack) > 2:
                S.reach('nested')
        elif op == 'leave':
            if not stack or stack[-1][0] is None:
                return
            c, _, _ = stack.pop()
            if S.flag('exc'):
                type_ = S.pick('type', [Boom, Quit])
                S.check(not c.__exit__(type_, type_(), None), 'exceptions pass')
                S.reach('exception')
            else:
                c.__exit__(None, None, None)
            S.reach('left' if stack else 'reset')
        elif not stack:
            return
        elif op == 'set':
            name, v = S.pick('name', 'ab'), S.int('v')
            if lookup(name) is not GONE and name not in stack[-1][2]:
                S.reach('shadowed')
            setattr(stack[-1][1], name, v)
            stack[-1][2][name] = v
        elif op == 'del':
            name = S.pick('name', 'ab')
            delattr(stack[-1][1], name)
            stack[-1][2][name] = GONE
            S.reach('deleted')
        elif op == 'push':
            if len(stack) < 2:
                return
            if S.flag('own'):
                if stack[-1][2].get('a', GONE) is GONE:
                    return
                stack[-1][1].push_up('a')
                stack[-2][2]['a'] = stack[-1][2].pop('a')
            else:
                v = S.int('v')
                stack[-1][1].push_up('a', v)
                stack[-2][2]['a'] = v
            S.reach('pushed')
        compare()
        if stack:
            S.reach('existing' if lookup('a') is not GONE else 'absent')
            if 'a' not in stack[-1][2] and lookup('a') is not GONE:
                S.reach('inherited')


class Doc1:
    """class doc"""

    def m1(self):
        """doc m1"""

    def m2(self):
        """doc m2"""

    def nodoc(self):
        pass


class Meta1(type):
    pass


class Meta2(abc.ABCMeta):
    pass


class Meta3(Meta1):
    pass


class M1(metaclass=Meta1):
    pass


class M2(metaclass=Meta2):
    pass


class M3(metaclass=Meta3):
    pass


@R.harness(labels=['copy docs', 'parent docs', 'wrap', 'metaclass', 'both', 'static', 'property'],
           bounds='classes with every subset of 4 members, any wrapping')
def classes(S):
    v, w = S.int('v'), S.int('w')
    kind = S.pick('kind', ['copy docs', 'parent docs', 'wrap', 'metaclass', 'both', 'static', 'property'])
    S.reach(kind)
    if kind in ('copy docs', 'parent docs'):
        ns, exp = {}, {}
        for name in ('m1', 'm2', 'nodoc', 'own'):
            if S.flag('has ' + name):
                own = S.flag('documented')

                def f(self):
                    return name
                if own:
                    f.__doc__ = 'own doc'
                ns[name] = f
                exp[name] = 'own doc' if own else getattr(Doc1, name, f).__doc__
        cdoc = S.flag('class doc')
        if cdoc:
            ns['__doc__'] = 'mine'
        if kind == 'copy docs':
            C = CopyDocsFrom(Doc1)('C', (), dict(ns))
        else:
            class Mid(Doc1):
                def m1(self):
                    pass
            C = DocsFromParent('C', (Mid,) if S.flag('far') else (Doc1,), dict(ns))
        for name, d in exp.items():
            S.check(getattr(C, name).__doc__ == d, lambda: 'documentation of %s: %r' % (name, getattr(C, name).__doc__))
        S.check(C.__doc__ == ('mine' if cdoc else 'class doc'), 'documentation of the class')
    elif kind == 'wrap':
        sel = S.flag('selective')

        def double(fun):
            def inner(self, x):
                return fun(self, x) * 2
            inner.__name__ = fun.__name__
            return inner

        class C(metaclass=wrap_with(double, wrap_property(lambda g: (lambda self: g(self) + 1),
                                                          lambda s: (lambda self, val: s(self, val * 3))),
                                    selector_callables=lambda c: not sel or c.__name__ == 'f',
                                    selector_properties=lambda p: not sel)):
            const = 5

            def f(self, x):
                return x + v

            def g(self, x):
                return x + 2

            @dont_wrap
            def h(self, x):
                return x + 3

            @property
            def p(self):
                return self.pv

            @p.setter
            def p(self, val):
                self.pv = val
        c = object.__new__(C)
        S.check_eq(c.f(w), (w + v) * 2, 'wrapped')
        S.check_eq(c.g(w), w + 2 if sel else (w + 2) * 2, 'selected')
        S.check_eq(c.h(w), w + 3, 'not to be wrapped')
        c.p = w
        S.check_eq(c.p, w if sel else w * 3 + 1, 'property')
        S.check(C.const == 5, 'data')
    elif kind == 'metaclass':
        bases = S.pick('bases', [(M1,), (M1, M2), (M2, M1), (M3, M2), (M1, M3), (M2, M1, M3)])
        if bases == (M1, M3):
            bases = (M3, M1)
        elif bases == (M2, M1, M3):
            bases = (M2, M3, M1)
        if S.flag('namesakes'):
            # others, of the same names
            bases = tuple(type(type(b).__name__, type(b).__bases__, {})(b.__name__, (), {}) for b in bases)
        C = metaclass_maker('C', bases, {'z': 5})
        S.check(all(isinstance(C, type(b)) for b in bases), 'compatible with metaclasses of all bases')
        S.check(C.__bases__ == bases and C.__name__ == 'C' and C.z == 5, 'class')
        S.check(type(metaclass_maker('D', bases, {})) is type(C), 'one metaclass for the same bases')
    elif kind == 'both':
        class B:
            @class_or_instancemethod
            def m(this, x):
                return this, x
        o = B()
        S.check_eq(o.m(v), (o, v), 'instance')
        S.check_eq(B.m(x=v), (B, v), 'class')

        class BB(B):
            pass
        S.check_eq(BB.m(v), (BB, v), 'subclass')
    elif kind == 'static':
        @static_var('counter', v)
        def f():
            f.counter += 1
            return f.counter
        S.check_eq([f(), f()], [v + 1, v + 2], 'static variable')
        S.check(static_var('q')(lambda: 0).q is None, 'default')
    else:
        log = []

        class P:
            @property
            def p(self):
                return v

            @p.deleter
            def p(self):
                log.append('deleted')
            p2 = wrap_property(deleter=lambda d: (lambda self: log.append('wrapped') or d(self)))(p)
        S.check_eq(P().p2, v, 'getter')
        del P().p2
        S.check(log == ['wrapped', 'deleted'], 'deleter')


class E5(CodedCustomException):
    code = 5


class H1(CodedCustomException):
    pass


class H1C5(H1):
    code = 5


class H1C6(H1):
    code = 6


class H2(CodedCustomException):
    pass


class H2C5(H2):
    code = 5


class Sub(H1C5):
    pass


CLASSES = [E5, H1, H1C5, H1C6, H2, H2C5, Sub]


@R.harness(labels=['coded', 'other hierarchy', 'subclass', 'text'], bounds='all pairs of a small hierarchy, codes 5-7')
def exceptions(S):
    if S.flag('text'):
        a = [S.pick('a', [1, 'x', None]) for _ in range(S.choice('n', 3))]
        kw = {k: 'z' for k in 'pq' if S.flag(k)}
        e = CustomException(*a, **kw)
        inner = ', '.join([repr(x) for x in a])
        if kw:
            inner += ', ' + ', '.join('%s=%r' % x for x in kw.items())
        S.check(str(e) == 'CustomException(%s)' % (inner,), 'str')
        S.check(repr(e) == 'satella.exceptions.CustomException(%s)' % (inner,), 'repr')
        S.check(e.args == tuple(a) and e.kwargs == kw, 'arguments')
        S.reach('text')
        return
    C = S.pick('class', CLASSES)
    T = S.pick('target', CLASSES)
    code = S.pick('code', [None, 5, 6, 7])
    e = C('message', code)
    S.check(e.message == 'message', 'message')
    ecode = code if code is not None else getattr(C, 'code', None)
    if ecode is not None:
        S.check(e.code == ecode, 'code')
    hierarchy = lambda c: [b for b in c.__mro__ if CodedCustomException in b.__bases__]
    exp = issubclass(C, T) or (bool(set(hierarchy(C)) & set(hierarchy(T))) and 
                                T.code == ecode and ecode is not None)
    S.check(isinstance(e, T) == exp, lambda: 'isinstance(%r %r, %r) should be %r' % (C, ecode, T, exp))
    if issubclass(C, T):
        S.reach('subclass')
    elif exp:
        S.reach('coded')
    elif T.code == ecode and ecode is not None:
        S.reach('other hierarchy')
