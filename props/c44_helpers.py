import enum
import queue
import warnings

from engine.harness import Registry
from satella.coding import (chain, chain_callables, contains, enum_value, exhaust, hint_with_length, length, queue_iterator,
                            run_when_generator_completes, RunActionAfterGeneratorCompletes, SelfClosingGenerator,
                            source_to_function, update_attr_if_none, update_if_not_none, update_key_if_none,
                            update_key_if_not_none, update_key_if_true)
from satella.coding.decorators import has_keys, repeat_forever
from satella.coding.sequences import infinite_counter, is_instance, IteratorListAdapter
from satella.exceptions import PreconditionError
from satella.warnings import mark_temporarily_disabled

R = Registry('C44', assumptions=['generators are used by one thread'])


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


def outcome(fn, *args):
    try:
        return 'yields', fn(*args)
    except StopIteration as e:
        return 'stops', e.value
    except (Boom, Fatal, TypeError) as e:
        return type(e).__name__, None


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['completes', 'fails when closed', 'by send', 'by throw', 'fails', 'closed', 'after the end', 'with value', 'self closing', 'hinted',
                   'subclass', 'action fails', 'used again', 'closing runs on'],
           bounds='generators of up to 2 yields which end, fail or swallow what is thrown into them, up to 3 (4) operations')
def generators(S, n):
    kind = S.pick('kind', ['completes', 'subclass', 'self closing', 'hinted'])
    yields = S.choice('yields', 3)
    ending = S.pick('ending', ['returns', 'fails', 'TypeError', 'fails if closed'])
    swallow = S.flag('swallows')
    values = [S.int('v%d' % i) for i in range(yields)]
    final = S.int('final')

    def make(log):
        def generator():
            try:
                for i in range(yields):
                    try:
                        log.append((yield values[i]))
                    except Boom:
                        if not swallow:
                            raise
                        break
                if ending == 'fails':
                    raise Boom()
                if ending == 'TypeError':
                    raise TypeError('takes none')
                log.append('end')
                return final
            except GeneratorExit:
                if ending == 'fails if closed' and not finished:
                    raise Boom()
                raise
            finally:
                log.append('over')
        return generator()

    finished = []
    mine, theirs = [], []
    raw = make(theirs)
    calls = []
    broken = False
    if kind == 'completes':
        broken = S.flag('broken action')

        def action(*args, **kwargs):
            calls.append((args, kwargs))
            if broken:
                raise Fatal()
        g = run_when_generator_completes(make(mine), action, 7, k=8)
    elif kind == 'subclass':
        class Own(RunActionAfterGeneratorCompletes):
            def action_to_run(self, *args, **kwargs):
                calls.append((args, kwargs))
        g = Own(make(mine), 7, k=8)
        S.reach('subclass')
    elif kind == 'self closing':
        g = SelfClosingGenerator(make(mine))
        S.reach('self closing')
    else:
        g = hint_with_length(make(mine), 5)
        S.reach('hinted')
    ops = ['next', 'send', 'close'] + (['throw'] if kind in ('completes', 'subclass') else []) + \
        (['.next'] if kind == 'subclass' else [])
    done = started = failed = False
    for i in range(1 + S.choice('ops', n)):
        op = S.pick('op%d' % i, ops)
        x = S.int('sent%d' % i)
        if op == 'close':
            if kind == 'self closing':
                want = outcome(exhaust, raw)
                S.check_eq(outcome(g.close), want if want[0] not in ('stops',) else ('yields', None), 'close')
                if not done and yields:
                    S.reach('closing runs on')
            else:
                want = outcome(raw.close)
                S.check_eq(outcome(g.close), want, 'close')
                S.reach('closed' if want[0] == 'yields' else 'fails when closed')
            done = True
        else:
            before = len(calls)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if op == 'send' and not started:
                    x = None
                args = {'next': (), '.next': (), 'send': (x,), 'throw': (Boom(),)}[op]
                want = outcome({'next': raw.__next__, '.next': raw.__next__, 'send': raw.send, 'throw': raw.throw}[op], *args)
                got = outcome({'next': lambda: next(g), '.next': getattr(g, 'next', None), 'send': g.send,
                               'throw': getattr(g, 'throw', None)}[op], *args)
            started = True
            if want[0] == 'stops' and broken and (not done or failed and got[0] == 'Fatal'):
                S.check(got[0] == 'Fatal', 'the exception of the action')
                S.reach('action fails')
            else:
                S.check_eq(got, want, op)
            if kind in ('completes', 'subclass'):
                if want[0] == 'stops' and not done:
                    S.check_eq(calls[before:], [((7,), {'k': 8})], 'the action runs upon completion')
                    S.reach('completes')
                    if op in ('send', 'throw'):
                        S.reach('by ' + op)
                elif not failed:
                    S.check(len(calls) == before, 'the action runs only upon completion')
            if done:
                S.reach('after the end')
            if want[0] != 'yields':
                if want[0] == 'stops':
                    if not done:
                        S.reach('with value')
                else:
                    S.reach('fails')
                    failed = True
                done = True
        S.check_eq(mine, theirs, 'the generator runs as usual')
    if kind == 'self closing' and not done:
        outcome(g.close)
    if kind == 'hinted':
        S.check(iter(g) is not None and g.__length_hint__() == 5, 'hint')
    if done:
        S.reach('used again')
        S.check(len(calls) <= 1, 'the action runs once')
    finished.append(True)       # what the collector of garbage closes does not matter


@R.harness(quick=[dict()], labels=['plain', 'iterable', 'generator', 'fails', 'partly'],
           bounds='up to 3 elements, each a value, an iterable or a generator that ends or fails')
def chained(S):
    want = []
    elems = []
    failing = None
    for i in range(S.choice('n', 4)):
        kind = S.pick('kind%d' % i, ['value', 'list', 'generator', 'failing', 'none'])
        a, b = S.int('a%d' % i), S.int('b%d' % i)
        if kind == 'value':
            elems.append(a)
            if failing is None:
                want.append(a)
            S.reach('plain')
        elif kind == 'none':
            elems.append(None)
            if failing is None:
                want.append(None)
        elif kind == 'list':
            m = S.choice('m%d' % i, 3)
            elems.append([a, b][:m])
            if failing is None:
                want += [a, b][:m]
            S.reach('iterable')
        else:
            exc = S.pick('exc%d' % i, [TypeError, Boom]) if kind == 'failing' else None

            def gen(a=a, exc=exc):
                yield a
                if exc is not None:
                    raise exc('not iterable')
            elems.append(gen())
            if failing is None:
                want.append(a)
                failing = exc
            S.reach('generator')
    got = []
    try:
        for x in chain(*elems):
            got.append(x)
    except (TypeError, Boom) as e:
        S.check(failing is not None and type(e) is failing, lambda: 'raises %r' % (e,))
        S.reach('fails')
        if got:
            S.reach('partly')
    else:
        S.check(failing is None, 'the exception of a generator is passed on')
    S.check_eq(got, want, 'elements')


class Color(enum.Enum):
    RED = 1
    NONE = None


class Attrs:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class ReadOnly:
    @property
    def a(self):
        return None


@R.harness(quick=[dict()], labels=['none', 'value', 'flag', 'mapping', 'missing', 'present', 'unconditionally', 'refuses',
                                   'read only'],
           bounds='dictionaries of up to 2 keys, any values or None')
def updates(S):
    op = S.pick('op', ['true', 'not_none', 'mapping', 'attr', 'old'])

    def value(name):
        return S.pick(name + ' kind', [None, S.int(name), (), S.lit(0)])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = value('v')
        if op == 'attr':
            state = S.pick('state', ['missing', 'none', 'value', 'read only'])
            present = S.pick('present', [7, 0, '', False]) if state == 'value' else None
            obj = {'missing': Attrs, 'none': lambda: Attrs(a=None), 'value': lambda: Attrs(a=present), 'read only': ReadOnly}[state]()
            kw = {}
            on_error, unconditional = True, False
            if S.flag('on error given'):
                kw['on_attribute_error'] = on_error = S.flag('on error')
            if S.flag('if value given'):
                kw['if_value_is_not_none'] = unconditional = S.flag('if value')
            write = v is not None if unconditional else state != 'value'
            if (state == 'read only' and write) or (state == 'missing' and not on_error and not unconditional):
                S.expect_raises(AttributeError, update_attr_if_none, obj, 'a', v, **kw)
                S.check('a' not in obj.__dict__, 'is not set')
                S.reach('read only' if state == 'read only' else 'refuses')
                return
            S.check(update_attr_if_none(obj, 'a', v, **kw) is obj, 'returns the object')
            want = {'missing': {}, 'none': {'a': None}, 'value': {'a': present}, 'read only': {}}[state]
            if write:
                want['a'] = v
                S.reach('unconditionally' if unconditional else 'missing')
            S.check_eq(obj.__dict__, want, 'attributes')
            S.reach('present')
            return
        keys = [S.key('k0'), S.key('k1')]
        old = S.int('old')
        d = {keys[0]: old} if S.flag('full') else {}
        model = [(k, x) for k, x in d.items()]

        def put(k, x):
            for i, (k2, _) in enumerate(model):
                if k2 == k:
                    model[i] = (k2, x)
                    return
            model.append((k, x))
        k = keys[S.choice('which', 2)]
        if op == 'true':
            if S.flag('flag given'):
                flag = S.pick('flag', [True, False, None, 3])
                res = update_key_if_true(d, k, v, flag)
                S.reach('flag')
            else:
                flag = bool(v)
                res = update_key_if_true(d, k, v)
            if flag:
                put(k, v)
        elif op == 'mapping':
            w = value('w')
            S.assume(S.Not(S.eq(keys[0], keys[1])))
            res = update_key_if_not_none(d, {keys[0]: v, keys[1]: w})
            if v is not None:
                put(keys[0], v)
            if w is not None:
                put(keys[1], w)
            S.reach('mapping')
        else:
            fn = update_key_if_not_none if op == 'not_none' else S.pick('alias', [update_if_not_none, update_key_if_none])
            res = fn(d, k, v)
            if v is not None:
                put(k, v)
        S.reach('none' if v is None else 'value')
        S.check(res is d, 'returns the dictionary')
        S.check_eq(list(d.items()), model, 'contents')


class Methods:
    def none(self):
        return 'none'

    def one(self, x):
        return 'one', x

    def optional(self, x='default'):
        return 'one', x

    @staticmethod
    def static():
        return 'none'

    def keyword(self, *, k=1):
        return 'none'

    def any(self, *args):
        return ('one',) + args

    def broken(self, x):
        raise TypeError('f() takes 0 positional arguments but 1 was given')

    def nested(self, x):
        return self.static(x)


@R.harness(quick=[dict()], labels=['none', 'one', 'broken', 'first fails', 'expression', 'callable'],
           bounds='any arguments of the first callable; functions, methods, builtins, callables of each kind of parameters')
def callables(S):
    a, k = S.int('a'), S.int('k')
    if S.flag('source'):
        if S.flag('callable'):
            f = lambda x: x
            S.check(source_to_function(f) is f, 'a callable is returned as it is')
            S.reach('callable')
        else:
            b = S.int('b')
            src, want = S.pick('src', [('x', a), ('x+1', a + 1), ('x == 3', a == 3), ('(x, x)', (a, a)), ('None', None)])
            f = source_to_function(src)
            S.check_eq(f(a), want, src)
            S.check_eq(source_to_function('x - 1')(b), b - 1, 'another')
            S.check_eq(f(a), want, 'they do not interfere')
            S.reach('expression')
        return
    calls = []

    def first(*args, **kwargs):
        calls.append((args, kwargs))
        if fails:
            raise TypeError('takes 0 positional arguments but 1 was given')
        return a
    fails = S.flag('first fails')
    m = Methods()
    wrap = S.pick('wrap', ['method', 'function', 'class', 'builtin'])
    if wrap == 'builtin':
        which, second = 'one', lambda x: ('one', x)
        second = [].append
        expected = None
    elif wrap == 'class':
        class None_:
            def __init__(self):
                self.v = 'none'

        class One:
            def __init__(self, x):
                self.v = ('one', x)
        which = S.pick('class', ['none', 'one'])
        second = None_ if which == 'none' else One
    else:
        which = S.pick('which', ['none', 'one', 'optional', 'static', 'keyword', 'any', 'broken', 'nested'])
        second = getattr(m, which)
        if wrap == 'function':
            second = {'none': lambda: 'none', 'one': lambda x: ('one', x), 'optional': lambda x='default': ('one', x),
                      'static': Methods.static, 'keyword': lambda *, k=1: 'none', 'any': lambda *args: ('one',) + args,
                      'broken': lambda x: m.broken(x), 'nested': lambda x: m.nested(x)}[which]
    f = chain_callables(first, second)
    S.check(not calls, 'nothing is called before time')
    r, got = S.raises(TypeError, f, a, k=k)
    S.check_eq(calls, [((a,), {'k': k})], 'the first one is called once, with the arguments')
    if fails:
        S.check(r, 'the exception of the first one')
        S.reach('first fails')
        return
    if which in ('broken', 'nested'):
        S.check(r, 'the exception of the second one')
        S.reach('broken')
        return
    S.check(not r, lambda: 'raises %r' % (got,))
    if wrap == 'builtin':
        S.check_eq(got, expected, 'result')
        return
    if wrap == 'class':
        got = got.v
    S.check_eq(got, 'none' if which in ('none', 'static', 'keyword') else ('one', a), 'result')
    S.reach('none' if got == 'none' else 'one')


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class OddEq:
    """equal by its own rules, no matter if it is the same object"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.v == (other.v if isinstance(other, OddEq) else other)

    __hash__ = None


class NeverEqual:
    def __eq__(self, other):
        return False


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['enum', 'no enum', 'sized', 'iterator', 'contained', 'not contained', 'identical but unequal', 'queue', 'refilled',
                   'counter', 'instance', 'adapter', 'keys', 'no key', 'forever', 'disabled', 'negative', 'emptied'],
           bounds='up to 3 (4) elements of any values')
def small(S, n):
    what = S.pick('what', ['enum', 'length', 'contains', 'queue', 'counter', 'is_instance', 'adapter', 'has_keys', 'forever',
                           'disabled'])
    xs = [S.int('x%d' % i) for i in range(S.choice('n', n + 1))]
    y = S.int('y')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if what == 'enum':
            v, want = S.pick('v', [(Color.RED, 1), (Color.NONE, None), (y, y), (None, None), (Color, Color), ('RED', 'RED')])
            S.check_eq(enum_value(v), want, 'value')
            S.reach('enum' if isinstance(v, Color) else 'no enum')
        elif what == 'length':
            form = S.pick('form', [list, iter, lambda x: {i: j for i, j in enumerate(x)}, lambda x: Sized(len(x)),
                                   lambda x: (y for y in x)])
            S.check(length(form(xs)) == len(xs), 'length')
            S.reach('sized')
            S.reach('iterator')
        elif what == 'contains':
            form = S.pick('form', [list, iter, lambda z: [OddEq(q) for q in z]])
            got = contains(OddEq(y) if S.flag('odd') else y, form(xs))
            S.check_eq(bool(got), S.Or(*[S.eq(x, y) for x in xs]), 'contains')
            S.reach('contained' if got else 'not contained')
            never = NeverEqual()
            S.check(not contains(never, [never]), 'equality decides')
            S.reach('identical but unequal')
        elif what == 'queue':
            q = queue.Queue()
            for x in xs:
                q.put(x)
            got = []
            late = S.flag('late')
            early = S.flag('emptied')
            for i, x in enumerate(queue_iterator(q)):
                got.append(x)
                if i == 0 and late:
                    q.put(y)
                    S.reach('refilled')
                if i == 0 and early:
                    while not q.empty():
                        q.get()
                    S.reach('emptied')
            want = xs + ([y] if late and xs else [])
            S.check_eq(got, want[:1] if early else want, 'elements in their order')
            S.check(q.empty(), 'it ends when the queue is empty')
            S.reach('queue')
        elif what == 'counter':
            step = S.int('step')
            start, by = S.pick('args', [(0, 1), (y, 1), (y, step), (0, step)])
            kw = {}
            if start is y:
                kw['start_at'] = y
            if by is step:
                kw['step'] = step
            it = infinite_counter(**kw)
            S.check_eq([next(it), next(it), next(it)], [start, start + by, start + by + by], 'progress')
            it = infinite_counter(y, step)
            S.check_eq([next(it), next(it), next(it)], [y, y + step, y + step + step], 'a counter')
            if step < 0:
                S.reach('negative')
            S.reach('counter')
        elif what == 'is_instance':
            classes = S.pick('classes', [int, (str, list), Color, ()])
            f = is_instance(classes)
            for v in ('a', [], Color.RED, None, True):
                S.check(f(v) == isinstance(v, classes), 'is an instance')
            S.reach('instance')
        elif what == 'adapter':
            a = IteratorListAdapter(S.pick('form', [list, iter])(xs))
            taken = S.choice('taken', len(xs) + 1)
            S.check_eq([next(a) for _ in range(taken)], xs[:taken], 'iterates')
            rest = xs[taken:]
            op = S.pick('op', ['len', 'getitem', 'in', 'iter', 'next'])
            if op == 'len':
                S.check(len(a) == len(rest), 'length')
            elif op == 'getitem':
                i = S.choice('i', n + 1)
                if i < len(rest):
                    S.check_eq(a[i], rest[i], 'item')
                else:
                    S.expect_raises(IndexError, lambda: a[i])
            elif op == 'in':
                S.check_eq(y in a, S.Or(*[S.eq(x, y) for x in rest]), 'in')
            elif op == 'iter':
                S.check_eq([x for x in a], rest, 'the rest')
                return
            S.check_eq(len(a), len(rest), 'length')
            S.check_eq(list(a), rest, 'iterates again')
            S.check_eq(list(a), rest, 'and again')
            S.check_eq([next(a) for _ in rest], rest, 'one by one')
            S.expect_raises(StopIteration, next, a)
            S.reach('adapter')
        elif what == 'has_keys':
            keys = [S.choice('k%d' % i, 3) for i in range(S.choice('keys', 3))]
            d = {0: None, 2: 1} if S.flag('full') else {}
            r, got = S.raises(PreconditionError, has_keys(keys), d)
            S.check(r == (not all(k in d for k in keys)), 'raises if a key is missing')
            S.check(r or got is True, 'returns True')
            S.reach('no key' if r else 'keys')
        elif what == 'forever':
            got = []

            @repeat_forever
            def f(*args, **kwargs):
                got.append((args, kwargs))
                if len(got) > len(xs):
                    raise exc()
                return got
            exc = S.pick('exc', [Boom, Fatal, StopIteration])
            S.expect_raises(exc, f, y, k=xs)
            S.check_eq(got, [((y,), {'k': xs})] * (len(xs) + 1), 'calls until it fails')
            S.reach('forever')
        else:
            called = []
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                f = mark_temporarily_disabled('due')(lambda *args: called.append(args))
                S.check(len(w) == 1, 'warns')
            S.expect_raises(NotImplementedError, f, *xs)
            S.check(not called, 'is not called')
            S.reach('disabled')
