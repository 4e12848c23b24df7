import queue
from engine.harness import Registry
from satella.coding import wraps, chain_functions, queue_get, short_none, postcondition
from satella.coding.decorators import memoize, cache_memoize, cached_property, execute_if_attribute_none, \
    execute_if_attribute_not_none, default_return, return_as_list, loop_while, execute_before

R = Registry('C17', assumptions=['single thread', 'the clock never goes back'])


class Boom(Exception):
    pass


@R.harness(quick=[dict(k=3)], thorough=[dict(k=4)], labels=['hit', 'miss', 'expired', 'failure', 'kwargs', 'memoize',
                                                            'cache_memoize', 'boundary'],
           bounds='k calls with arbitrary (equal or different) positional and keyword arguments at arbitrary '
                  'instants, each body run succeeding or failing')
def memoizing(S, k):
    kind = S.pick('kind', ['memoize', 'cache_memoize'])
    S.reach(kind)
    now = [S.int('t0')]
    dur = S.int('dur', 0)
    runs = []
    deco = memoize if kind == 'memoize' else cache_memoize(dur, time_getter=lambda: now[0])

    @deco
    def fun(a, b=0, *, c=None, d=None):
        runs.append((a, b, c, d))
        if fail[0]:
            raise Boom()
        return None if len(runs) % 2 else len(runs)

    fail = [False]
    model = []      # (args, at, value)
    for i in range(k):
        if kind == 'cache_memoize':
            t = S.int('t')
            S.assume(t >= now[0])
            now[0] = t
        args = (S.key('a'),) + ((S.key('b'),) if S.flag('two') else ())
        kw = {}
        form = S.choice('kw', 3 if kind == 'memoize' or i == 0 else 4)
        if form:
            kw = [{'c': S.key('c')}, {'d': S.key('d')}, {'d': S.key('d'), 'c': S.key('c')}][form - 1]
            S.reach('kwargs')
        fail[0] = S.flag('fail')
        before = len(runs)
        call = (args, () if kind == 'memoize' else (len(kw), kw.get('c'), kw.get('d')))    # memoize goes by positional ones only
        hit = None
        for m in model:
            if m[0] == call:
                hit = m
        if hit is not None and kind == 'cache_memoize':
            age = now[0] - hit[1]
            if age > dur:
                S.reach('expired')
                hit = None
            elif age == dur:
                S.reach('boundary')
        r, v = S.raises(Boom, fun, *args, **kw)
        if hit is not None:
            S.check(not r and v == hit[2], 'memoized value')
            S.check(len(runs) == before, 'not executed again')
            S.reach('hit')
        else:
            S.check(len(runs) == before + 1, 'executed exactly once')
            S.check_eq(runs[-1], (args[0], args[1] if len(args) > 1 else 0, kw.get('c'), kw.get('d')), 'with these arguments')
            S.check(r == fail[0], 'failure propagates')
            if not r:
                S.check(v == (None if len(runs) % 2 else len(runs)), 'the value')
                model = [m for m in model if not (m[0] == call)]
                model.append((call, now[0], v))
                S.reach('miss')
            else:
                S.reach('failure')


@R.harness(quick=[dict(k=3)], thorough=[dict(k=4)],
           labels=['loaded', 'cached', 'reset', 'failure', 'if_none', 'if_not_none', 'custom'],
           bounds='k accesses and resets, each load succeeding or failing')
def properties(S, k):
    missing = S.pick('missing', [None, 0])
    if missing == 0:
        S.reach('custom')
    loads = []

    class A:
        def __init__(self):
            self._a = missing

        @property
        @cached_property('_a', missing)
        def a(self):
            loads.append(1)
            if fail[0]:
                raise Boom()
            return value

        @execute_if_attribute_none('_a')
        def when_none(self, x, y):
            return x, y

        @execute_if_attribute_not_none('_a')
        def when_not_none(self, x, y):
            return x, y

    fail = [False]
    value = S.int('value', 1)
    a = A()
    cached = None
    for _ in range(k):
        op = S.pick('op', ['read', 'reset', 'none', 'not_none'])
        if op == 'read':
            fail[0] = S.flag('fail')
            n = len(loads)
            r, v = S.raises(Boom, lambda: a.a)
            if cached is not None:
                S.check(not r and len(loads) == n, 'cached')
                S.check_eq(v, cached, 'cached value')
                S.reach('cached')
            else:
                S.check(len(loads) == n + 1 and r == fail[0], 'loaded once')
                if not r:
                    S.check_eq(v, value, 'value')
                    S.check_eq(a._a, value, 'stored')
                    cached = value
                    S.reach('loaded')
                else:
                    S.reach('failure')
        elif op == 'reset':
            a._a = missing
            cached = None
            S.reach('reset')
        else:
            is_none = a._a is None
            if op == 'none':
                S.check_eq(a.when_none(value, y=2), (value, 2) if is_none else None, 'only if None')
                S.reach('if_none')
            else:
                S.check_eq(a.when_not_none(value, y=2), None if is_none else (value, 2), 'only if not None')
                S.reach('if_not_none')


@R.harness(quick=[dict(n=3)], labels=['default', 'list', 'queue', 'queue_empty', 'loop', 'loop_method', 'chain', 'before',
                                      'short_none', 'postcondition', 'post_failed', 'chain_kinds'],
           bounds='arbitrary values, up to n elements/iterations')
def flow(S, n):
    kind = S.pick('kind', ['default', 'list', 'queue', 'loop', 'loop_method', 'chain', 'before', 'short_none',
                           'postcondition'])
    S.reach(kind)
    v, w = S.int('v'), S.int('w')
    none = S.flag('none')
    if kind == 'default':
        f = default_return(w)(lambda a: None if none else a)
        S.check_eq(f(v), w if none else v, 'default')
    elif kind == 'list':
        ign = S.flag('ignore')

        def gen(m):
            for i in range(m):
                yield None if i == 1 else v + i
        m = S.choice('m', n + 1)
        S.check_eq(return_as_list(ign)(gen)(m), [x for x in gen(m) if not (ign and x is None)], 'list')
    elif kind == 'queue':
        own = S.flag('own exception')
        args = {}
        if own:
            args['exception_empty'] = S.pick('exceptions', [KeyError, (KeyError, IndexError)])
        if S.flag('method'):
            args['queue_get_method'] = lambda que, timeout: que.take(timeout)
        timeout = S.pick('timeout', [None, 7, 0])
        if timeout is not None or S.flag('given'):
            args['timeout'] = timeout
        approximate = S.choice('approximate', 2)
        on_empty = S.pick('on_empty', [None, 'on_empty', 'callable'])
        if on_empty == 'callable':
            args['method_to_execute_on_empty'] = lambda: q.on_empty()
        elif on_empty:
            args['method_to_execute_on_empty'] = 'on_empty'

        failing = None

        class Q:
            def __init__(self):
                self.q = [v, w][:S.choice('len', 3)]
                self.timeouts = []
                self.done = []
                self.empty = 0
                self.taken = 0

            def get(self, timeout):
                self.timeouts.append(timeout)
                if not self.q:
                    raise (KeyError() if own else queue.Empty())
                return self.q.pop(0)

            def qsize(self):        # only approximate
                return approximate

            def take(self, timeout):
                self.taken += 1
                return self.get(timeout)

            @property
            def me(self):
                return self

            def on_empty(self):
                self.empty += 1

            @queue_get('me' if none else (lambda self: self), **args)
            def do(self, msg):
                self.done.append(msg)
                if failing:
                    raise failing
                return msg
        q = Q()
        exp = list(q.q)
        out = [q.do() for _ in range(3)]
        S.check_eq(out, exp + [None] * (3 - len(exp)), 'results')
        S.check_eq(q.done, exp, 'each message once, in order')
        q2 = Q()
        q2.q = [w]
        S.check_eq(q2.do(), w, 'another queue')
        # what the processing of a message raises has nothing to do with the queue being empty
        q2.q = [w]
        failing = KeyError() if own else queue.Empty()
        S.expect_raises(type(failing), q2.do)
        S.check(len(q2.done) == 2 and q2.empty == 0, 'not taken for an empty queue')
        S.check_eq(q.timeouts, [timeout] * 3, 'timeout')
        S.check_eq(q.empty, 3 - len(exp) if on_empty else 0, 'called if it was empty')
        S.check_eq(q.taken, 3 if 'queue_get_method' in args else 0, 'method')
        if len(exp) < 3:
            S.reach('queue_empty')
    elif kind == 'loop':
        m = S.choice('m', n + 1)
        log = []
        f = loop_while((lambda: list(range(m - len(log)))) if S.flag('truth') else lambda: len(log) < m)(lambda: log.append(1))
        f()
        S.check(len(log) == m, 'iterations')
        f()
        S.check(len(log) == m, 'nothing left to do')
    elif kind == 'loop_method':
        m = S.choice('m', n + 1)

        class A:
            def __init__(self):
                self.log = []

            def __bool__(self):
                return none

            @loop_while(lambda self: len(self.log) < m)
            def run(self, x):
                self.log.append(x)
        a = A()
        a.run(v)
        S.check_eq(a.log, [v] * m, 'iterations')
    elif kind == 'chain':
        form = S.choice('form', 10)
        rets = [((v, w), {'c': 1}), {'a': v, 'b': w, 'c': 1}, (v, w, 1), v, (v,), {}, (), None, (v, w), ((v, w), {})]

        @chain_functions
        def first(x, y=0):
            S.check_eq((x, y), (w, v), 'arguments of the first')
            return rets[form]

        @first
        def second(a=0, b=0, c=0):
            return a, b, c

        S.check_eq(second(w, y=v), (v, w, 1) if form < 3 else (v, 0, 0) if form < 5 else (0, 0, 0) if form < 7
                   else (None, 0, 0) if form == 7 else (v, w, 0), 'chained')
        S.reach('chain_kinds')
    elif kind == 'before':
        log = []

        @execute_before
        def note(*a, **kw):
            log.append((a, kw))

        f = (note if none else note(w, k=v))(lambda x, y: log.append('f') or (x, y))
        S.check_eq(f(v, y=w), (v, w), 'result')
        S.check_eq(log, [((), {}) if none else ((w,), {'k': v}), 'f'], 'order')
    elif kind == 'short_none':
        f = short_none('x+2' if S.flag('string') else (lambda x: x + 2))
        S.check_eq(f(None if none else v), None if none else v + 2, 'short_none')
    else:
        calls = []

        @postcondition((lambda x: bool(x > w)) if none else 'bool(x > 5)')
        def f(a):
            calls.append(a)
            return a + 1
        from satella.exceptions import PreconditionError
        r, x = S.raises(PreconditionError, f, v)
        S.check(len(calls) == 1, 'called once')
        S.check(r == (not bool(v + 1 > (w if none else 5))), 'postcondition')
        if r:
            S.reach('post_failed')
        else:
            S.check_eq(x, v + 1, 'result')


@R.harness(labels=['same', 'different'], bounds='arguments which look alike; arbitrary values')
def combinations(S):
    a, b = S.key('a'), S.key('b')
    runs = []

    @cache_memoize(10, time_getter=lambda: 0)
    def fun(*args, **kwargs):
        runs.append((args, kwargs))
        return len(runs)

    calls = [((1, ('c', a)), {}), ((1,), {'c': a}), ((1, 'c', a), {}), ((1,), {'c': a, 'd': b}), ((1,), {'d': b, 'c': a}),
             ((1, a), {'d': b}), ((1,), {'e': a}), ((1, frozenset([('c', a)])), {})]
    i, j = S.choice('first', len(calls)), S.choice('second', len(calls))
    x = fun(*calls[i][0], **calls[i][1])
    y = fun(*calls[j][0], **calls[j][1])
    same = i == j or {i, j} == {3, 4}
    S.check((x == y) == same and len(runs) == (1 if same else 2), 'as many runs as there are different combinations')
    S.reach('same' if same else 'different')


@R.harness(labels=['executed', 'not executed', 'before', 'cached', 'called'],
           bounds='None, empty and other values of an attribute, or property')
def conditional(S):
    values = [None, 0, '', False, (), 5, 'text']
    v = S.pick('value', values)
    calls = []
    what = S.pick('what', ['if none', 'if not none', 'before', 'cached'])
    if what.startswith('if'):
        class A:
            attr = v

            @(execute_if_attribute_none if what == 'if none' else execute_if_attribute_not_none)('attr')
            def fun(self, *args, **kwargs):
                calls.append((args, kwargs))
                return 'result'
        got = A().fun(1, b=2)
        if (v is None) == (what == 'if none'):
            S.check(got == 'result' and calls == [((1,), {'b': 2})], 'executed')
            S.reach('executed')
        else:
            S.check(got is None and not calls, 'not executed')
            S.reach('not executed')
    elif what == 'before':
        def first(*args, **kwargs):
            calls.append((args, kwargs))
        args, kwargs = S.pick('args', [((), {}), ((v,), {}), ((v, 1), {}), ((), {'a': v}), ((len,), {'a': v}), ((len, v), {})])

        def fun(*a, **k):
            calls.append('fun')
            return a, k
        direct = S.flag('direct')
        deco = execute_before(first) if direct else execute_before(first)(*args, **kwargs)
        f = deco(fun)
        S.check(f(1, b=v) == ((1,), {'b': v}), 'the result')
        S.check(calls == [((), {}) if direct else (args, kwargs), 'fun'], lambda: 'called before: %r' % (calls,))
        S.reach('before')
    else:
        unset = S.pick('unset', [None, 0, 'text'])
        S.assume(not (v is False and unset == 0))

        class A:
            def __init__(self):
                self._a = v

            @property
            @cached_property('_a', **({} if unset is None else {'assume_not_loaded': unset}))
            def a(self):
                calls.append(self)
                return 'computed'
        o = A()
        for _ in range(2):
            S.check(o.a == ('computed' if v == unset else v), lambda: 'the property is %r' % (o.a,))
            S.check(o._a == o.a, 'the attribute')
        S.check(len(calls) == (v == unset), 'computed at most once')
        S.reach('called' if v == unset else 'cached')
