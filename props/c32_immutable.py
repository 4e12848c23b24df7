import copy
import pickle
from engine.harness import Registry
from satella.coding.structures import Immutable, frozendict, typednamedtuple, Vector, Singleton, \
    SingletonWithRegardsTo, get_instances_for_singleton, delete_singleton_for

R = Registry('C32', assumptions=['single thread'])


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


class Im(Immutable):
    def __init__(self, a, b):
        self.a = a
        self.b = b
        self.a = a + 1
        self.tmp = 1
        del self.tmp


class ImChild(Im):
    def __init__(self, a, b, c):
        super().__init__(a, b)
        self.c = c


@R.harness(labels=['set', 'delete', 'new', 'child'], bounds='any values, one or two attempted changes')
def immutable(S):
    a, b, c, w = S.int('a'), S.int('b'), S.int('c'), S.int('w')
    child = S.flag('child')
    if child:
        S.reach('child')
    o = ImChild(a, b, c) if child else Im(a, b)
    exp = dict(a=a + 1, b=b, **({'c': c} if child else {}))
    for _ in range(2):
        op = S.pick('op', ['set', 'delete', 'new'])
        name = 'new' if op == 'new' else S.pick('name', sorted(exp))
        if op == 'delete':
            S.expect_raises(TypeError, delattr, o, name)
        else:
            S.expect_raises(TypeError, setattr, o, name, w)
        S.check_eq({k: getattr(o, k) for k in exp}, exp, 'unchanged')
        S.check(not hasattr(o, 'new') and not hasattr(o, 'tmp'), 'unchanged')
        S.reach(op)


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['changed', 'hash', 'equal', 'different', 'copied'],
           bounds='dictionaries of up to n arbitrary entries, in any order; every mutating method')
def frozen(S, n):
    kv = [(S.key('k%d' % i), S.key('v%d' % i)) for i in range(S.choice('n', n + 1))]
    ref = dict(kv)
    f = frozendict(kv)
    k, v = S.key('k'), S.key('v')
    S.check_eq(dict(f), ref, 'contents')
    what = S.pick('what', ['change', 'hash', 'copy'])
    if what == 'change':
        op = S.pick('op', ['setitem', 'update', 'delitem', 'ior', 'pop', 'pop default', 'popitem', 'setdefault', 'clear'])

        def change():
            nonlocal f
            if op == 'setitem':
                f[k] = v
            elif op == 'update':
                f.update({k: v})
            elif op == 'delitem':
                del f[k]
            elif op == 'ior':
                f |= {k: v}
            elif op == 'pop':
                f.pop(k)
            elif op == 'pop default':
                f.pop(k, None)
            elif op == 'popitem':
                f.popitem()
            elif op == 'setdefault':
                f.setdefault(k, v)
            else:
                f.clear()
        S.expect_raises(TypeError, change)
        S.check_eq(dict(f), ref, 'unchanged')
        S.reach('changed')
    elif what == 'hash':
        g = frozendict(reversed(kv))
        same = bool(S.eq(dict(g), ref))
        S.check(bool(f == g) == same, 'equality')
        if same:
            S.check(hash(f) == hash(g), 'equal dictionaries have equal hashes')
            S.check(len({f, g}) == 1, 'as elements of a set')
            S.reach('equal')
        else:
            S.reach('different')
        S.reach('hash')
    else:
        c = copy.deepcopy(frozendict({1: (2, 3)}))
        S.check(type(c) is frozendict and c == {1: (2, 3)} and hash(c) is not None, 'deep copy')
        c = pickle.loads(pickle.dumps(frozendict({1: 2})))
        S.check(type(c) is frozendict and c == {1: 2}, 'pickled')
        S.expect_raises(TypeError, c.clear)
        S.reach('copied')


class Wrapped:
    def __init__(self, v):
        self.v = v


class WrappedToo(Wrapped):
    pass


@R.harness(labels=['made', 'missing', 'extra', 'conflict', 'converted', 'as is', 'callable'],
           bounds='three fields of any kind of conversion, passed in any way, any values')
def typed(S):
    conv = S.pick('conv', ['class', 'callable', None])
    t = {'class': Wrapped, 'callable': lambda y: Wrapped(y), None: None}[conv]
    T = typednamedtuple('T', ('a', None), ('b', t), ('c', Wrapped))
    args = [S.int('p') for _ in range(S.choice('pos', 5))]
    if len(args) > 1 and S.flag('already'):
        args[1] = S.pick('class', [Wrapped, WrappedToo])(args[1])
        S.reach('as is')
    kw = {k: S.int(k) for k in 'abcz' if S.flag('kw_' + k)}

    def ref(a, b, c):
        return a, b, c
    try:
        exp = ref(*args, **kw)
    except TypeError:
        S.expect_raises(TypeError, T, *args, **kw)
        S.reach('extra' if len(args) > 3 or 'z' in kw else 'missing' if len(args) + len(kw) < 3 else 'conflict')
        return
    r = T(*args, **kw)
    S.check(isinstance(r, T) and isinstance(r, tuple) and len(r) == 3, 'class')
    S.check_eq(r.a, exp[0], 'untyped field')
    if conv is None:
        S.check(S.eq(r.b, exp[1]), 'untyped field')
    elif conv == 'class':
        S.check(isinstance(r.b, Wrapped), 'converted')
        S.check(r.b is exp[1] if isinstance(exp[1], Wrapped) else S.eq(r.b.v, exp[1]), 'converted only if needed')
        S.reach('converted')
    else:
        S.check(S.eq(r.b.v, exp[1]) if not isinstance(exp[1], Wrapped) else r.b.v is exp[1], 'callable')
        S.reach('callable')
    S.check_eq(r.c.v, exp[2], 'converted')
    S.check(r[0] is r.a and r[2] is r.c and tuple(r) == (r.a, r.b, r.c), 'tuple')
    S.check_eq(r._replace(a=5).a, 5, 'replaced')
    S.check(T.__name__ == 'T', 'name')
    S.reach('made')


@R.harness(labels=['converted'], bounds='None, empty and other values for a field of each of four conversions')
def typed_empty(S):
    t = S.pick('type', [str, repr, bool, Wrapped])
    v = S.pick('v', [None, 0, '', False, (), 3])
    T = typednamedtuple('T', ('a', t), ('b', 'self'))
    r = T(v, b=v) if S.flag('positional') else T(a=v, b=v)
    S.check(r.b is v, 'untyped')
    if t is Wrapped:
        S.check(type(r.a) is Wrapped and r.a.v is v, 'converted')
    else:
        S.check(type(r.a) is type(t(v)) and r.a == t(v), lambda: 'converted to %r' % (r.a,))
    S.reach('converted')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['add', 'sub', 'mul', 'inplace', 'div'],
           bounds='vectors of up to n arbitrary coordinates')
def vectors(S, n):
    m = S.choice('n', n + 1)
    a, b = [[S.int(c) for _ in range(m)] for c in 'ab']
    s = S.int('s')
    va, vb = Vector(a), Vector(b)
    op = S.pick('op', ['add', 'sub', 'mul', 'inplace', 'div'])
    S.reach(op)
    if op == 'add':
        r, e = va + vb, [x + y for x, y in zip(a, b)]
    elif op == 'sub':
        r, e = va - vb, [x - y for x, y in zip(a, b)]
    elif op == 'mul':
        r, e = va * s, [x * s for x in a]
    elif op == 'inplace':
        r = va
        r += vb
        r -= va
        r *= 3
        e = [(x + y - x) * 3 for x, y in zip(a, b)]
    else:
        r, e = Vector([4, -6, 1][:m]) / 2, [2.0, -3.0, 0.5][:m]
    S.check(type(r) is Vector, 'type')
    S.check_eq(list(r), e, op)
    S.check_eq(list(va), a, 'operand unchanged')


@R.harness(quick=[dict(k=3)], thorough=[dict(k=4)],
           labels=['same', 'different', 'failed', 'retried', 'plain', 'keyed', 'deleted'],
           bounds='k constructions with arbitrary arguments, each succeeding or failing, and deletions')
def singletons(S, k):
    keyed = S.flag('keyed')
    inits = []

    class C:
        def __init__(self, a, b=None):
            inits.append(self)
            self.a, self.b = a, b
            if fail[0]:
                raise fail[0]()

    fail = [False]
    C = (SingletonWithRegardsTo(1) if keyed else Singleton)(C)
    S.reach('keyed' if keyed else 'plain')
    model = []      # (key, instance, args)
    failed = False
    for _ in range(k):
        a, b = S.key('a'), S.int('b')
        hit = None
        for m in model:
            if not keyed or bool(m[0] == a):
                hit = m
        if hit is not None and keyed and S.flag('delete'):
            delete_singleton_for(C, a)
            model = [m for m in model if m is not hit]
            S.reach('deleted')
            continue
        fail[0] = S.pick('fail', [None, Boom, Quit])
        n = len(inits)
        r, o = S.raises((Boom, Quit), C, a, b)
        if hit is not None:
            S.check(not r and o is hit[1], 'the same instance')
            S.check(len(inits) == n, 'constructed once')
            S.check_eq((o.a, o.b), hit[2], 'unchanged')
            S.reach('same')
        else:
            S.check(len(inits) == n + 1 and r == bool(fail[0]), 'constructed')
            if r:
                failed = True
                S.reach('failed')
            else:
                S.check(all(o is not m[1] for m in model), 'another instance')
                S.check_eq((o.a, o.b), (a, b), 'arguments')
                if model:
                    S.reach('different')
                model.append((a, o, (a, b)))
                if failed:
                    S.reach('retried')
    if keyed and model:
        S.check_eq([x[0] for x in get_instances_for_singleton(C)], [m[0] for m in model], 'known arguments')


@R.harness(labels=['subclass', 'reentrant', 'weak', 'forgotten'],
           bounds='a class and its subclass, or a constructor that asks for the instance being made; with and without '
                  'weak references')
def more_singletons(S):
    kind = S.pick('kind', ['plain', 'keyed', 'weak'])
    decorate = {'plain': Singleton, 'keyed': SingletonWithRegardsTo(1),
                'weak': SingletonWithRegardsTo(num_args=1, weak_refs=True)}[kind]
    made, inside = [0], []
    reentrant = S.flag('reentrant')

    @decorate
    class A:
        def __init__(self, a):
            self.a = a
            made[0] += 1
            if made[0] > 3:
                raise Boom()
            if reentrant:
                inside.append(A(a))
                S.reach('reentrant')

    if reentrant:
        r, x = S.raises(Boom, A, 5)
        S.check(not r and made == [1] and inside[0] is x and A(5) is x, 'a single instance is made')
        return

    class B(A):
        pass

    first = S.flag('first')
    x = (A if first else B)(1)
    y = (B if first else A)(1)
    S.check(type(x) is (A if first else B) and type(y) is (B if first else A), 'the class asked for')
    S.check(made == [2], 'an instance of each')
    S.check((A if first else B)(1) is x and (B if first else A)(1) is y and made == [2], 'kept')
    S.reach('subclass')
    if kind != 'plain':
        z = A(2)
        S.check(z is not x and z is not y and A(2) is z and made == [3], 'another key')
        S.check_eq(sorted(get_instances_for_singleton(A)), [(1,), (2,)], 'the instances')
    if kind == 'weak':
        S.reach('weak')
        del z
        made[0] = 0
        S.check_eq(sorted(get_instances_for_singleton(A)), [(1,)], 'only the instances in use')
        S.check(A(2).a == 2 and made == [1], 'made anew')
        S.check(A(1) in (x, y) and made == [1], 'the other is in use')
        S.reach('forgotten')
