import enum
from engine.harness import Registry
from satella.coding import assert_equal, Inequal, InequalityReason
from satella.coding.misc import contains
from satella.coding.structures import OmniHashableMixin, ComparableAndHashableBy, ComparableAndHashableByInt, \
    ComparableAndHashableByStr, ComparableIntEnum, ComparableEnum, HashableIntEnum, HashableMixin, DictionaryEQAble, \
    StrEqHashableMixin, NOT_EQUAL_TO_ANYTHING, ReprableMixin, OnStrOnlyName

R = Registry('C31', assumptions=['fields hold values with lawful equality, ordering and hashing'])


def laws(S, a, b, eq, msg):
    """a == b exactly when eq; consistent with !=, hash and symmetric"""
    S.check(bool(a == b) == bool(eq), msg + ': equality')
    S.check(bool(b == a) == bool(eq), msg + ': symmetry')
    S.check(bool(a != b) == (not bool(eq)), msg + ': inequality')
    S.check(bool(a == a) and not bool(a != a), msg + ': reflexivity')
    if type(a).__hash__ is not None:
        if eq:
            S.check(hash(a) == hash(b), msg + ': hash')
            S.check(len({a, b}) == 1, msg + ': as elements of a set')
        else:
            S.check(len({a, b}) == 2, msg + ': as elements of a set')


def order(S, a, b, x, y, msg):
    S.check(bool(a < b) == bool(x < y), msg + ' <')
    S.check(bool(a <= b) == bool(x <= y), msg + ' <=')
    S.check(bool(a > b) == bool(x > y), msg + ' >')
    S.check(bool(a >= b) == bool(x >= y), msg + ' >=')


class Omni(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('x', 'y')

    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z


class OmniChild(Omni):
    pass


class OmniSingle(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = 'x'

    def __init__(self, x, z):
        self.x, self.z = x, z


class By(ComparableAndHashableBy):
    _COMPARABLE_BY = 'size'

    def __init__(self, v, z):
        self.v, self.z = v, z

    @property
    def size(self):
        return self.v + 1


class Num(ComparableAndHashableByInt):
    def __init__(self, v, z):
        self.v, self.z = v, z

    def __int__(self):
        return self.v


class Text(ComparableAndHashableByStr):
    def __init__(self, v, z=None):
        self.v, self.z = v, z

    def __str__(self):
        return self.v


class Text2(StrEqHashableMixin):
    def __init__(self, v, z=None):
        self.v, self.z = v, z

    def __str__(self):
        return self.v


class Ident(HashableMixin):
    def __init__(self, v):
        self.v = v


class Dic(DictionaryEQAble):
    pass


class DicChild(Dic):
    pass


@R.harness(labels=['omni', 'single', 'by', 'int', 'str', 'str2', 'identity', 'dict', 'equal', 'different', 'subclass',
                   'missing'],
           bounds='pairs of objects with arbitrary fields, of the same or related classes, fields missing or not')
def mixins(S):
    kind = S.pick('kind', ['omni', 'single', 'by', 'int', 'str', 'str2', 'identity', 'dict'])
    S.reach(kind)
    x, y, z = S.key('x'), S.key('y'), S.key('z')
    x2, y2, z2 = S.key('x2'), S.key('y2'), S.key('z2')
    if kind == 'omni':
        a, b = Omni(x, y, z), (OmniChild if S.flag('child') else Omni)(x2, y2, z2)
        if type(b) is OmniChild:
            S.check(not bool(b == a) and not bool(a == b) and bool(a != b) and bool(b != a), 'a subclass differs')
            S.reach('subclass')
            return
        S.check(not bool(a == 5) and bool(a != 5), 'other types')
        if S.flag('missing'):
            del b.x
            S.check(not bool(a == b) and bool(a != b), 'field is missing')
            S.check(not bool(b == a) and bool(b != a), 'field is missing')
            S.reach('missing')
            return
        eq = bool(S.And(x == x2, y == y2))
    elif kind == 'single':
        a, b = OmniSingle(x, z), OmniSingle(x2, z2)
        eq = bool(x == x2)
    elif kind == 'by':
        a, b = By(x, z), By(x2, z2)
        eq = bool(x == x2)
        order(S, a, b, x, x2, kind)
    elif kind == 'int':
        v, v2 = S.choice('v', 3) - 1, S.choice('v2', 3) - 1
        a, b = Num(v, z), Num(v2, z2)
        eq = v == v2
        order(S, a, b, v, v2, kind)
        S.check((a == v2) == eq and (a < v2) == (v < v2), 'with integers')
    elif kind in ('str', 'str2'):
        v, v2 = S.pick('v', ['a', 'b', '']), S.pick('v2', ['a', 'b', ''])
        cls = Text if kind == 'str' else Text2
        a, b = cls(v, z), cls(v2, z2)
        eq = v == v2
        if kind == 'str':
            order(S, a, b, v, v2, kind)
        S.check((a == v2) == eq, 'with strings')
    elif kind == 'identity':
        a = Ident(x)
        b = a if S.flag('same') else Ident(x2)
        eq = a is b
    else:
        a, b = Dic(), (DicChild if S.flag('child') else Dic)()
        da, db = {}, {}
        for name in 'pqr':
            if S.flag('a' + name):
                da[name] = S.int(name)
                setattr(a, name, da[name])
            if S.flag('b' + name):
                db[name] = S.int(name)
                setattr(b, name, db[name])
        eq = type(b) is Dic and bool(S.eq(da, db))
        if type(b) is DicChild:
            S.reach('subclass')
        elif len(da) != len(db):
            S.reach('missing')
    laws(S, a, b, eq, kind)
    S.reach('equal' if eq else 'different')


class CI(ComparableIntEnum):
    A = 1
    B = 2


class CI2(ComparableIntEnum):
    X = 2
    Y = 3


class HI(HashableIntEnum):
    A = 1
    B = 2


class CE(ComparableEnum):
    A = 'test'
    B = 2


class CE2(ComparableEnum):
    Z = 'test'
    W = 'other'


class Plain(enum.Enum):
    T = 'test'
    U = 7


class Named(OnStrOnlyName, enum.Enum):
    A = 0
    B = 'x'


class HasInt:
    def __int__(self):
        return 2


class Rep(ReprableMixin):
    _REPR_FIELDS = ('v', 'w')

    def __init__(self, v, w):
        self.v, self.w = v, w


class RepFull(Rep):
    _REPR_FULL_CLASSNAME = True


@R.harness(labels=['int enum', 'enum', 'hashable', 'names', 'nothing', 'repr'], bounds='all members and a set of values')
def enums(S):
    kind = S.pick('kind', ['int enum', 'enum', 'hashable', 'names', 'nothing', 'repr'])
    S.reach(kind)
    if kind == 'int enum':
        a = S.pick('a', list(CI))
        b = S.pick('b', list(CI) + list(CI2) + [1, 2, 2.5, 0, HasInt()])
        y = b if type(b) in (int, float) else int(b)
        S.check((a == b) == (a.value == y), '==')
        order(S, a, b, a.value, y, kind)
        S.check(hash(a) == hash(a.value), 'hash')
        S.check(({a: 1}.get(a.value)) == 1, 'as a key')
    elif kind == 'enum':
        a = S.pick('a', list(CE))
        b = S.pick('b', list(CE) + list(CE2) + list(Plain) + ['test', 'other', 2, 2.0, None, []])
        y = b.value if isinstance(b, enum.Enum) else b
        S.check((a == b) == (a.value == y), '==')
        S.check((a != b) == (a.value != y), '!=')
        if not isinstance(b, enum.Enum):
            S.check((b == a) == (a.value == y), 'symmetry')
        S.check(contains(a, [1, b]) == (a.value == y), 'contains')
    elif kind == 'hashable':
        a, b = S.pick('a', list(HI)), S.pick('b', list(HI) + [1, 2, 3])
        S.check((a == b) == (a.value == int(b)), '==')
        S.check(len({a, b}) == (1 if a.value == int(b) else 2), 'hash')
    elif kind == 'names':
        a = S.pick('a', list(Named))
        S.check(str(a) == a.name, 'str')
    elif kind == 'nothing':
        b = S.pick('b', [1, None, NOT_EQUAL_TO_ANYTHING, 'x'])
        S.check(not (NOT_EQUAL_TO_ANYTHING == b) and (NOT_EQUAL_TO_ANYTHING != b), 'not equal')
    else:
        v = S.pick('v', [1, 'x', None])
        S.check(repr(Rep(v, [2])) == 'Rep(%r, [2])' % (v,), 'repr')
        S.check(repr(RepFull(v, [2])) == '%s.RepFull(%r, [2])' % (__name__, v), 'full repr')


class Obj:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Obj) and self.v == other.v

    __hash__ = None


def value(S, d, name):
    kind = S.choice('kind', 5 if d else 2)
    if kind == 0:
        return S.key(name)
    if kind == 1:
        return S.pick('leaf', [None, 'x', Obj(3)])
    if kind == 2:
        r = [value(S, d - 1 if i == 0 else 0, name) if i == 0 else S.key(name)
             for i in range(S.choice('len', 3))]
        return tuple(r) if S.flag('tuple') else r
    if kind == 3:
        return {(S.lit(1) if i == 0 else S.key('k')): value(S, d - 1, name) if i == 0 else
                None if S.flag('nothing') else S.key(name)
                for i in range(S.choice('len', 3))}
    return (frozenset if S.flag('frozen') else set)(S.key(name) for i in range(S.choice('len', 3)))


def shape(x):
    return list if isinstance(x, tuple) else set if isinstance(x, frozenset) else type(x) if isinstance(x, (list, dict, set)) else None


def equal(S, a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(S, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and equal(S, a[k], b[k]) for k in a)
    if isinstance(b, (list, tuple, dict, set, frozenset)) != isinstance(a, (list, tuple, dict, set, frozenset)):
        return False
    if isinstance(a, (set, frozenset)):
        return isinstance(b, (set, frozenset)) and a == b
    if a is None or isinstance(a, (str, Obj)) or b is None or isinstance(b, (str, Obj)):
        return type(a) is type(b) and a == b
    return bool(a == b)


@R.harness(quick=[dict(d=1)], thorough=[dict(d=2)], labels=['equal', 'length', 'key', 'value', 'shape'],
           bounds='pairs of nested lists, dictionaries and sets up to depth d and length 2 with arbitrary elements')
def deep(S, d):
    a = [value(S, d, 'a')] if S.flag('in list') else {'r': value(S, d, 'a')}
    b = [value(S, d, 'b')] if isinstance(a, list) else {'r': value(S, d, 'b')}
    r, e = S.raises(Inequal, assert_equal, a, b)
    S.check(r == (not equal(S, a, b)), 'raises Inequal exactly if the values differ')
    if not r:
        S.reach('equal')
        return
    if e.reason == InequalityReason.LENGTH_MISMATCH:
        S.check(len(e.obj1) != len(e.obj2), 'lengths')
        S.reach('length')
    elif e.reason == InequalityReason.KEY_NOT_FOUND:
        S.check(e.obj2 is None and not isinstance(e.obj1, (list, tuple, dict, set, frozenset)), 'the key')
        S.reach('key')
    else:
        S.check(e.reason == InequalityReason.NOT_EQUAL, 'reason')
        if shape(e.obj1) != shape(e.obj2):
            S.reach('shape')
        elif shape(e.obj1) is not None:
            S.check(shape(e.obj1) is set and len(e.obj1) == len(e.obj2), 'the innermost difference is reported')
        else:
            S.check(not bool(e.obj1 == e.obj2), 'unequal objects')
            S.reach('value')
