from engine.harness import Registry
from satella.coding import silence_excs, rethrow_as, reraise_as, log_exceptions, raises_exception, catch_exception, \
    expect_exception
from satella.coding.decorators import retry, call_method_on_exception

R = Registry('C16', assumptions=['at least one attempt is allowed'])


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class Base(BaseException):
    pass


class Target(Exception):
    def __init__(self, *a, **kw):
        super().__init__(*a)
        self.kw = kw


EXCS = [E1, E2, E3]
CATCH = [(E1, (E1, E2)), (E2, (E2,)), ((E2, E3), (E2, E3)), (Exception, (E1, E2, E3))]


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['success', 'success_after_failure', 'exhausted', 'other', 'swallowed', 'raised', 'forever',
                   'callback_failed'],
           bounds='up to n attempts (or unlimited), each succeeding or failing in any of 3 ways; all callbacks')
def retrying(S, n):
    times = S.choice('times', n + 1) or None
    cls, matching = S.pick('cls', CATCH)
    script = []
    for i in range(n if times is None else times):
        o = S.choice('outcome', 4)
        script.append(None if o == 3 else EXCS[o]())
        if o == 3 or type(script[-1]) not in matching:
            break
    if times is None and script[-1] is not None and type(script[-1]) in matching:
        script.append(None)
    value, arg = S.int('value'), S.int('arg')
    log = []
    swallow = S.flag('swallow')
    bad_success = S.flag('success callback fails')
    calls = [0]
    both = S.flag('the deprecated callback as well')

    def on_success(i):
        log.append(('success', i))
        if bad_success:
            raise E2('from callback')

    @retry(times, cls, swallow_exception=swallow, on_failure=lambda e: log.append(('failure', e)),
           call_on_success=on_success, call_between_retries=lambda e: log.append(('between', e)),
           **({'call_on_failure': lambda e: log.append(('failed', e))} if both else {}))
    def op(a, b=None):
        S.check_eq((a, b), (arg, value), 'arguments')
        log.append(('call', calls[0]))
        e = script[calls[0]]
        calls[0] += 1
        if e is not None:
            raise e
        return value

    try:
        out = ('return', op(arg, b=value))
    except Exception as e:
        out = ('raise', e)

    exp = []
    for i, e in enumerate(script):
        exp.append(('call', i))
        if e is None:
            exp.append(('success', i))
            S.reach('success_after_failure' if i else 'success')
            if bad_success:
                S.check(out[0] == 'raise' and out[1].args == ('from callback',), 'callback failure')
                S.reach('callback_failed')
            else:
                S.check_eq(out, ('return', value), 'result')
            break
        if type(e) not in matching:
            S.check(out == ('raise', e), 'other exceptions pass')
            S.reach('other')
            break
        if times is not None and i == times - 1:
            exp.append(('failure', e))
            if both:
                exp.append(('failed', e))
            S.check(out == (('return', None) if swallow else ('raise', e)), lambda: 'outcome %r' % (out,))
            S.reach('exhausted')
            S.reach('swallowed' if swallow else 'raised')
        else:
            exp.append(('between', e))
            if times is None:
                S.reach('forever')
    S.check(log == exp, lambda: 'calls %r, expected %r' % (log, exp))


def outcome(fn, *a, **kw):
    try:
        return 'return', fn(*a, **kw)
    except BaseException as e:
        if isinstance(e, (E1, E3, Target, ValueError, KeyError, OSError, Base)):
            return 'raise', e
        raise


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['ctx', 'decorator', 'normal', 'silenced', 'translated', 'passed', 'base', 'pairs', 'default',
                   'recursive'],
           bounds='any of 3 exception types, an exception outside Exception, or none; as a context manager or '
                  'decorator, on recursive functions up to depth n')
def translating(S, n):
    how = S.pick('how', ['silence', 'rethrow', 'pairs', 'reraise', 'reraise_none'])
    cls, matching = S.pick('cls', CATCH + ([(BaseException, (E1, E2, E3, Base))] if how in ('silence', 'rethrow') else []))
    value, default = S.int('value'), S.int('default')
    defkind = S.choice('defkind', 3) if how in ('silence',) else 0
    made = []

    def factory():
        made.append(1)
        return default + len(made) - 1

    kw = [{}, {'returns': default}, {'returns_factory': factory}][defkind]
    if how == 'silence':
        tool = silence_excs(*(cls if isinstance(cls, tuple) else (cls,)), **kw)
        to = {t: None for t in matching}
    elif how == 'rethrow':
        tool = rethrow_as(cls, ValueError)
        to = {t: ValueError for t in matching}
        own = S.flag('own description')
        if own:
            tool = rethrow_as(cls, ValueError, exception_preprocessor=lambda e: 'own %r' % (e,))
    elif how == 'pairs':
        tool = rethrow_as((E2, KeyError), (cls, OSError), (E3, None))
        to = {E2: KeyError}
        for t in matching:
            to.setdefault(t, OSError)
        to.setdefault(E3, None)
        S.reach('pairs')
    elif how == 'reraise':
        tool = reraise_as(cls, Target, value, key=default)
        to = {t: Target for t in matching}
    else:
        tool = reraise_as(cls, None)
        to = {t: None for t in matching}
    dec = S.flag('decorator')
    depth = S.choice('depth', n) if dec else 0
    script = [S.pick('exc', [None, E1, E2, E3, Base]) for _ in range(depth + 1)]
    raised = [x and x('m%d' % i) for i, x in enumerate(script)]
    got = {}
    if dec:
        S.reach('decorator')

        @tool
        def fun(level, arg):
            S.check_eq(arg, value, 'argument')
            if level < depth:
                try:
                    got[level + 1] = ('return', fun(level + 1, arg=arg))
                except BaseException as e:
                    if isinstance(e, (E1, E3, Target, ValueError, KeyError, OSError, Base)):
                        got[level + 1] = ('raise', e)
                    else:
                        raise
                S.reach('recursive')
            if raised[level] is not None:
                raise raised[level]
            return value + level

        got[0] = outcome(fun, 0, arg=value)
    else:
        S.reach('ctx')

        def body():
            with tool:
                if raised[0] is not None:
                    raise raised[0]
                return value
            return 'silenced'

        got[0] = outcome(body)
    again = 0
    for level in reversed(range(depth + 1)):        # the innermost one has ended first
        e = raised[level]
        o = got[level]
        if e is None:
            S.check_eq(o, ('return', value + level), 'normal result')
            S.reach('normal')
        elif type(e) not in to:
            S.check(o == ('raise', e), 'not concerned')
            S.reach('base' if type(e) is Base else 'passed')
        elif to[type(e)] is None:
            exp = None if dec else 'silenced'
            if dec and defkind:
                exp = default + (again if defkind == 2 else 0)
                again += 1
                S.reach('default')
            S.check_eq(o, ('return', exp), 'silenced')
            S.reach('silenced')
        else:
            S.check(o[0] == 'raise' and type(o[1]) is to[type(e)], lambda: 'translated %r' % (o,))
            if how == 'reraise':
                S.check_eq((o[1].args, o[1].kw), ((value,), {'key': default}), 'exception arguments')
                S.check(o[1].__cause__ is e, 'cause')
            else:
                S.check(o[1].args == (('own %r' if how == 'rethrow' and own else '%r') % (e,),), 'description')
            S.reach('translated')


@R.harness(labels=['refused'], bounds='default results of any kind')
def both_defaults(S):
    v = S.pick('v', [1, 0, '', ()])
    S.expect_raises(ValueError, silence_excs, E1, returns=v, returns_factory=lambda: 1)
    S.expect_raises(ValueError, rethrow_as, E1, None, returns=v, returns_factory=lambda: 1)

    @silence_excs(E1, returns=v)
    def f():
        raise E2()

    S.check(f() == v and f() is v, 'the default result')
    S.reach('refused')


class Logger:
    def __init__(self):
        self.log_ = []

    def log(self, *a, **kw):
        self.log_.append((a, kw))


@R.harness(labels=['logged', 'not_logged', 'normal', 'generator', 'function', 'ctx', 'swallowed'],
           bounds='any of 3 exception types or none, raised at any point; function, generator or context manager')
def logging_exceptions(S):
    lg = Logger()
    cls, matching = S.pick('cls', CATCH[:3])
    swallow = S.flag('swallow')
    kind = S.pick('kind', ['function', 'generator', 'ctx'])
    S.reach(kind)
    fmt, text = S.pick('fmt', [('{e}', 'm'), ('{extra} {e!r}', None), ('{args} {kwargs[k]}', None)]
                       if kind != 'ctx' else [('{e}', 'm'), ('{extra} {e!r}', None)])
    tool = log_exceptions(lg, 17, fmt, {'extra': 'x'}, cls, swallow)
    value = S.int('value')
    exc = S.pick('exc', [None, E1, E2, E3])
    e = exc and exc('m')
    if kind == 'function':
        @tool
        def fun(a, k):
            if e:
                raise e
            return value
        o = outcome(fun, 1, k=2)
        norm = value
    elif kind == 'generator':
        at = S.choice('at', 3)

        @tool
        def gen(a, k):
            for i in range(3):
                if i == at and e:
                    raise e
                yield value + i
            return value
        seen, returned = [], []

        def delegate():
            returned.append((yield from gen(1, k=2)))

        def consume():
            for x in delegate():
                seen.append(x)
            return seen
        o = outcome(consume)
        if e is None:
            S.check_eq(returned, [value], 'what the generator returns')
        norm = [value, value + 1, value + 2]
        S.check_eq(seen, norm[:at] if e else norm, 'elements')
        if e and swallow and exc in matching:
            S.check_eq(o[1], seen, 'ends')
            o = ('return', None)
    else:
        def body():
            with tool:
                if e:
                    raise e
                return value
        o = outcome(body)
        norm = value
    if e is None:
        S.check_eq(o, ('return', norm), 'result')
        S.check(not lg.log_, 'nothing to log')
        S.reach('normal')
    elif exc not in matching:
        S.check(o == ('raise', e), 'passed')
        S.check(not lg.log_, 'not to be logged')
        S.reach('not_logged')
    else:
        S.check(o == (('return', None) if swallow else ('raise', e)), 'outcome')
        if swallow:
            S.reach('swallowed')
        exp = {'{e}': 'm', '{extra} {e!r}': 'x %r' % (e,), '{args} {kwargs[k]}': '(1,) 2'}[fmt]
        S.check(lg.log_ == [((17, exp), {'exc_info': e})], lambda: 'log %r' % (lg.log_,))
        S.reach('logged')


@R.harness(labels=['raises', 'catch', 'expect', 'method'], bounds='any of 3 exception types or none')
def others(S):
    cls, matching = S.pick('cls', CATCH[:3])
    exc = S.pick('exc', [None, E1, E2, E3])
    e = exc and exc('m')
    value, other = S.int('value'), S.int('other')

    def fun():
        if e:
            raise e
        return value

    kind = S.pick('kind', ['raises', 'catch', 'expect', 'method'])
    S.reach(kind)
    if kind == 'raises':
        o = outcome(raises_exception, cls, fun)
        S.check(o == (('return', e is not None) if e is None or exc in matching else ('raise', e)), 'raises_exception')
    elif kind == 'catch':
        ri, rv = S.flag('instead'), S.flag('value')
        o = outcome(catch_exception, cls, fun, return_value_on_no_exception=rv,
                    **({'return_instead': other} if ri else {}))
        if e is None:
            if ri:
                S.check_eq(o, ('return', other), 'instead')
            elif rv:
                S.check_eq(o, ('return', value), 'value')
            else:
                S.check(o[0] == 'raise' and type(o[1]) is ValueError, 'no exception')
        else:
            S.check(o == (('return', e) if exc in matching else ('raise', e)), 'caught')
    elif kind == 'expect':
        def body():
            with expect_exception(cls, Target, value, key=other):
                fun()
            return 'ok'
        o = outcome(body)
        if e is None:
            S.check(o[0] == 'raise' and type(o[1]) is Target, 'exception was expected')
            S.check_eq((o[1].args, o[1].kw), ((value,), {'key': other}), 'arguments')
        else:
            S.check(o == (('return', 'ok') if exc in matching else ('raise', e)), 'expected')
    else:
        class A:
            log = []

            def close(self, a, b):
                self.log.append((a, b))
                return other

            @call_method_on_exception(cls, 'close', value, b=other)
            def run(self):
                return fun()
        a = A()
        a.log = []
        o = outcome(a.run)
        if e is None:
            S.check_eq(o, ('return', value), 'result')
        elif exc in matching:
            S.check_eq(o, ('return', other), 'result of the called method')
            S.check_eq(a.log, [(value, other)], 'called once')
            return
        else:
            S.check(o == ('raise', e), 'passed')
        S.check(not a.log, 'not called')
