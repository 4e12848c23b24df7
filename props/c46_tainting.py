import gc
import operator
import threading

from engine.harness import Registry
from engine.sched import Threads
from satella.debug import TaintedObject, TaintingEnvironment, access_tainted, taint

R = Registry('C46', assumptions=['the tainted values implement their operations as pure functions'])

ARITHMETIC = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul}
INPLACE = {'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul}
COMPARE = {n: getattr(operator, n) for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')}


class Bad(Exception):
    pass


class Thing:
    def __init__(self, v):
        self.v = v

    def method(self, x, y=0):
        return access_tainted(self.v), x, y

    def __call__(self, x, y=0):
        return 'called', x, y

    def __enter__(self):
        return 'entered'

    def __exit__(self, et, ev, tb):
        return et is Bad


class Plain:
    """a value without attributes, recording what is asked of it"""
    __slots__ = 'v',

    def __init__(self, v):
        self.v = v

    def __next__(self):
        return 'next', self.v

    def __int__(self):
        return 7

    def __float__(self):
        return 7.5

    def __hash__(self):
        return 77

    def __str__(self):
        return 'Str'

    def __bool__(self):
        return bool(self.v > 0)

    def __dir__(self):
        return ['v', 'zzz']

    def __eq__(self, other):
        return self is other

    @property
    def attr(self):
        return 'attr', self.v


def tainted(S, x, msg):
    S.check(isinstance(x, TaintedObject), lambda: msg + ': the result is not tainted: %r' % (x,))
    return access_tainted(x)


@R.harness(labels=['arithmetic', 'reflected', 'in place', 'compare', 'item', 'delete', 'attribute', 'set attribute',
                   'call', 'iterate', 'context', 'conversion', 'both'],
           bounds='every operation on tainted values, the other operand arbitrary, tainted or not')
def operations(S):
    v, w = S.int('v'), S.int('w')
    kind = S.pick('kind', ['arithmetic', 'reflected', 'in place', 'compare', 'item', 'delete', 'attribute',
                           'set attribute', 'call', 'iterate', 'context', 'conversion'])
    with TaintingEnvironment():
        both = kind in ('arithmetic', 'in place', 'compare') and S.flag('both')
        other = taint(w) if both else w
        if both:
            S.reach('both')
        if kind == 'arithmetic':
            op = S.pick('op', sorted(ARITHMETIC))
            S.check_eq(tainted(S, ARITHMETIC[op](taint(v), other), op), ARITHMETIC[op](v, w), op)
        elif kind == 'reflected':
            S.check_eq(tainted(S, w + taint(v), '+'), w + v, '+')
            S.check_eq(tainted(S, 'text' + taint('more'), '+'), 'textmore', 'in this order')
        elif kind == 'in place':
            op = S.pick('op', sorted(INPLACE))
            a = taint(v)
            b = INPLACE[op](a, other)
            S.check(b is a, 'the same object')
            S.check_eq(tainted(S, b, op), ARITHMETIC[op[1:]](v, w), op)
        elif kind == 'compare':
            op = S.pick('op', sorted(COMPARE))
            S.check(tainted(S, COMPARE[op](taint(v), other), op) == COMPARE[op](v, w), op)
        elif kind == 'item':
            seq = S.flag('list')
            key = S.choice('key', 2)
            a = taint([v, v + 1] if seq else {0: v, 1: v + 1})
            S.check_eq(tainted(S, a[key], 'item'), v + key, 'item')
            a[key] = w
            S.check_eq(tainted(S, a[key], 'item set'), w, 'item set')
            S.check_eq(tainted(S, a[1 - key], 'other item'), v + 1 - key, 'other item')
            S.check(isinstance(access_tainted(a)[key], TaintedObject), 'what is stored is tainted')
            S.check(len(a) == 2, 'length')
            if S.flag('delete'):
                del a[key]
                S.check(len(a) == 1, 'deleted')
                S.check_eq(access_tainted(a[0 if seq else 1 - key]), v + 1 - key, 'the other stays')
                S.reach('delete')
        elif kind == 'attribute':
            thing = taint(Thing(v))
            S.check_eq(tainted(S, thing.v, 'attribute'), v, 'attribute')
            S.check_eq(tainted(S, taint(Plain(v)).attr, 'attribute'), ('attr', v), 'attribute')
            S.expect_raises(AttributeError, lambda: thing.missing)
        elif kind == 'set attribute':
            obj = Thing(v)
            thing = taint(obj)
            thing.v = w
            S.check_eq(tainted(S, thing.v, 'attribute set'), w, 'attribute set')
            S.check_eq(tainted(S, obj.v, 'on the object'), w, 'on the object')
            thing.fresh = v
            S.check_eq(tainted(S, thing.fresh, 'new attribute'), v, 'new attribute')
        elif kind == 'call':
            thing = taint(Thing(v))
            S.check_eq(tainted(S, thing(v, y=w), 'call'), ('called', v, w), 'call')
            S.check_eq(tainted(S, thing.method(v, y=w), 'method'), (v, v, w), 'method')
        elif kind == 'iterate':
            out = list(taint([v, w]))
            S.check_eq([tainted(S, x, 'element') for x in out], [v, w], 'elements')
            S.check_eq([tainted(S, x, 'element') for x in taint((v, w))], [v, w], 'elements of a tuple')
            S.check_eq(tainted(S, next(taint(Plain(v))), 'next'), ('next', v), 'next')
            S.check((v in taint([w])) == (v == w), 'membership')
        elif kind == 'context':
            with taint(Thing(v)) as x:
                S.check(tainted(S, x, 'entered') == 'entered', 'entered')
                raise Bad()
            r, _ = S.raises(KeyError, fail, taint(Thing(v)))
            S.check(r, 'swallows what the object swallows')
        else:
            p = Plain(v)
            a = taint(p)
            S.check(int(a) == 7 and float(a) == 7.5 and str(a) == 'Str' and hash(a) == 77 and dir(a) == ['v', 'zzz'],
                    'conversions')
            S.check(repr(a) == 'Str TAINTED', 'repr')
            S.check(bool(a) == bool(v > 0), 'truth value')
            S.check(access_tainted(a) is p and access_tainted(p) is p, 'the value itself')
    S.reach(kind)


def fail(x):
    with x:
        raise KeyError()


@R.harness(labels=['list', 'dict', 'object', 'leaf', 'already'],
           bounds='nested lists, dictionaries and objects up to depth 2, parts of them tainted before')
def nested(S):
    with TaintingEnvironment() as env:
        leaves = []

        def build(depth):
            kind = S.pick('kind', ['leaf', 'list', 'dict', 'object']) if depth else 'leaf'
            if kind == 'leaf':
                v = S.int('v')
                leaves.append(v)
                res, desc = v, ('leaf', v)
            else:
                x, y = build(depth - 1), build(depth - 1 if S.flag('both') else 0)
                if kind == 'list':
                    res = [x[0], y[0]]
                elif kind == 'dict':
                    res = {0: x[0], 1: y[0]}
                else:
                    res = Thing(x[0])
                    res.w = y[0]
                desc = kind, x[1], y[1]
            if depth == 1 and S.flag('already'):
                res = taint(res)
                S.reach('already')
            return res, desc

        def verify(got, desc):
            value = tainted(S, got, desc[0])
            S.check(taint(got) is got and TaintedObject(got) is got, 'tainted once')
            S.check(not isinstance(value, TaintedObject), 'tainted once')
            kind = desc[0]
            S.reach(kind)
            if kind == 'leaf':
                S.check_eq(value, desc[1], 'value')
            elif kind == 'object':
                verify(got.v, desc[1])
                verify(got.w, desc[2])
                verify(value.v, desc[1])
            else:
                verify(got[0], desc[1])
                verify(got[1], desc[2])
                verify(value[0], desc[1])

        value, desc = build(2)
        got = taint(value)
        verify(got, desc)
        found = list(env.get_tainted_variables())
        S.check(not any(isinstance(x, TaintedObject) for x in found), 'values are given')
        S.check(any(x is access_tainted(got) for x in found), 'the tainted variables are known')
        for v in leaves:
            S.check(any(x is v for x in found), 'each tainted value is known')


@R.harness(quick=[dict(n=2, k=3)], thorough=[dict(n=2, k=5), dict(n=3, k=4)],
           labels=['started', 'refused', 'ended', 'failed', 'tainted', 'no session', 'found'],
           bounds='n threads each starting and ending sessions and tainting values, k steps in any order')
def sessions(S, n, k):
    """a thread has at most one session, not affected by those of others"""
    log = []
    with Threads(S, 0) as sc:
        turn = [threading.Event() for _ in range(k)]
        plan = [(S.choice('who', n), S.pick('what', ['start', 'end', 'taint'])) for _ in range(k)]

        def actor(me):
            session = None
            kept = []
            for i, (who, what) in enumerate(plan):
                if who != me:
                    continue
                if i:
                    turn[i - 1].wait()
                if what == 'start':
                    env = TaintingEnvironment()
                    r, _ = S.raises(RuntimeError, env.__enter__)
                    S.check(r == (session is not None), 'one session in a thread')
                    if r:
                        S.check(not env.enabled, 'not enabled')
                        S.reach('refused')
                    else:
                        session = env
                        kept = []
                        S.check(env.enabled, 'enabled')
                        S.reach('started')
                elif what == 'end' and session is not None:
                    fails = S.flag('fails')
                    S.check(not session.__exit__(*((Bad, Bad(), None) if fails else (None, None, None))),
                            'exceptions are let through')
                    S.check(not session.enabled, 'disabled')
                    S.reach('failed' if fails else 'ended')
                    session = None
                elif what == 'taint':
                    value = Plain(i)
                    r, t = S.raises(RuntimeError, taint, value)
                    S.check(r == (session is None), 'a session is required')
                    if r:
                        S.reach('no session')
                    else:
                        kept.append(t)
                        S.reach('tainted')
                r, now = S.raises(RuntimeError, TaintingEnvironment.get_session_in_progress)
                S.check(r == (session is None) and (r or now is session), 'the session in progress')
                if session is not None:
                    got = sorted(id(x) for x in session.get_tainted_variables())
                    S.check(got == sorted(id(access_tainted(t)) for t in kept), 'the values tainted in this session')
                    S.reach('found')
                log.append(i)
                turn[i].set()
            if session is not None:
                session.__exit__(None, None, None)

        for r in sc.run(*[lambda m=m: actor(m) for m in range(n)]):
            sc.value(r)
    S.check(log == list(range(k)), 'all the steps')
