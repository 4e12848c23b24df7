import builtins
import contextlib
import enum
import io
import json
import os
import shutil
import tempfile

from engine.harness import Registry
from satella.json import (
    JSONAble, JSONAbleDataObject, JSONEncoder, json_encode, read_json_from_file, write_json_to_file,
    write_json_to_file_if_different)

R = Registry('C41', assumptions=[
    'the JSON parsers and the encoding of plain values are trusted',
    'files are in a scratch directory; the locale is modelled by the default encoding of open()'])


class Color(enum.Enum):
    RED = 'red'
    PAIR = (1, 'x')
    NESTED = {'a': [1]}


class Level(enum.IntEnum):
    LOW = 3


class Point(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class Duck:
    """not a JSONAble, but has to_json()"""

    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'duck': self.v}


class Plain:
    def __init__(self, v):
        self.v = v
        self.w = None


class Slotted:
    __slots__ = ('v', 'w')

    def __init__(self, v):
        self.v = v
        self.w = 'w'


class OneSlot:
    __slots__ = 'value'

    def __init__(self, v):
        self.value = v


class SubSlotted(Slotted):
    __slots__ = ('z',)

    def __init__(self, v):
        super().__init__(v)
        self.z = 1


class Unset:
    __slots__ = ('v', 'unset')

    def __init__(self, v):
        self.v = v


class Data(JSONAbleDataObject):
    v: object
    w: str = 'default'


class SubData(Data):
    x: object = None


def structure(S, depth):
    """:return: (value, what it should become)"""
    plain = ['number', 'text', 'none', 'flag', 'enum', 'int enum', 'pair enum', 'nested enum', 'opaque', 'float']
    nested = ['list', 'tuple', 'dict', 'keys', 'jsonable', 'duck', 'plain', 'slots', 'one slot', 'sub slots', 'unset', 'data',
              'sub data']
    kind = S.pick('kind', plain + (nested if depth else []))
    S.reach(kind)
    if kind == 'number':
        v = S.conc(S.int('n', -1, 1))
        return v, v
    if kind == 'float':
        return 1.5, 1.5
    if kind == 'text':
        return 'a\u017c"\n', 'a\u017c"\n'
    if kind == 'none':
        return None, None
    if kind == 'flag':
        return True, True
    if kind == 'enum':
        return Color.RED, 'red'
    if kind == 'int enum':
        return Level.LOW, 3
    if kind == 'pair enum':
        return Color.PAIR, [1, 'x']
    if kind == 'nested enum':
        return Color.NESTED, {'a': [1]}
    if kind == 'opaque':
        return object(), '<an instance of object>'
    x, y = structure(S, depth - 1)
    return {'list': lambda: ([x, 1], [y, 1]), 'tuple': lambda: ((x, 'q'), [y, 'q']),
            'dict': lambda: ({'a': x, 'b': 2}, {'a': y, 'b': 2}),
            'keys': lambda: ({None: x, True: 2, 3: 4, 1.5: 6}, {'null': y, 'true': 2, '3': 4, '1.5': 6}), 'jsonable': lambda: (Point(x), y),
            'duck': lambda: (Duck(x), {'duck': y}), 'plain': lambda: (Plain(x), {'v': y, 'w': None}),
            'slots': lambda: (Slotted(x), {'v': y, 'w': 'w'}), 'one slot': lambda: (OneSlot(x), {'value': y}),
            'sub slots': lambda: (SubSlotted(x), {'v': y, 'w': 'w', 'z': 1}), 'unset': lambda: (Unset(x), {'v': y}),
            'data': lambda: (Data(v=x), {'v': y, 'w': 'default'}),
            'sub data': lambda: (SubData(v=x, x=2), {'v': y, 'w': 'default', 'x': 2})}[kind]()


@R.harness(quick=[dict(depth=2)], thorough=[dict(depth=3)],
           labels=['enum', 'nested enum', 'opaque', 'list', 'tuple', 'dict', 'keys', 'jsonable', 'duck', 'plain', 'slots',
                   'one slot', 'sub slots', 'unset', 'data', 'sub data'],
           bounds='values nested up to "depth" deep, of 23 kinds at each level')
def encoding(S, depth):
    value, want = structure(S, depth)
    S.check_eq(json.loads(json_encode(value)), want, 'the encoded value')
    S.check_eq(json.loads(JSONEncoder().encode(value)), want, 'the encoded value')
    S.check_eq(json.loads(json.dumps(value, cls=JSONEncoder)), want, 'the encoded value')


class World:
    """open() as it is where the locale is not UTF-8"""

    def __init__(self, default):
        self.default = default
        self.files = []

    def __call__(self, file, mode='r', buffering=-1, encoding=None, *args, **kwargs):
        if 'b' not in mode and encoding is None:
            encoding = self.default
        f = self.open(file, mode, buffering, encoding, *args, **kwargs)
        self.files.append((f, mode))
        return f

    def __enter__(self):
        self.open = io.open
        builtins.open = io.open = self
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.open

    def closed(self):
        return all(f.closed for f, _ in self.files)


@R.harness(quick=[dict(depth=1)], thorough=[dict(depth=2)],
           labels=['written', 'left alone', 'invalid', 'missing', 'other locale', 'read'],
           bounds='values nested up to "depth" deep; two locales')
def files(S, depth):
    locale = S.pick('locale', ['utf-8', 'latin-1'])
    if locale != 'utf-8':
        S.reach('other locale')
    a, want_a = structure(S, depth)
    b, want_b = structure(S, 0)
    d = tempfile.mkdtemp(prefix='verif-c41-')
    try:
        path = os.path.join(d, 'f')
        with World(locale) as world:
            S.expect_raises(OSError, lambda: read_json_from_file(path), msg='there is no file')
            S.reach('missing')
            write_json_to_file(path, a)
            S.check_eq(json.loads(raw(path)), want_a, 'what is written')
            S.check_eq(read_json_from_file(path), want_a, 'what is read')
            del world.files[:]
            r = write_json_to_file_if_different(path, a)
            S.check_eq(r, False, 'there is no need to write')
            S.check(not any('w' in mode for _, mode in world.files), 'opened for writing')
            r = write_json_to_file_if_different(path, b)
            S.check_eq(r, json_encode(a) != json_encode(b), 'tells whether it was written')
            S.reach('written' if r else 'left alone')
            S.check_eq(json.loads(raw(path)), want_b, 'what is written')
            os.unlink(path)
            S.check_eq(write_json_to_file_if_different(path, b), True, 'there was no file')
            S.check_eq(read_json_from_file(path), want_b, 'what is read')
            with open(path, 'wb') as f:
                f.write('{"\u017c": "\u0105\u20ac"}'.encode('utf-8'))
            S.check_eq(read_json_from_file(path), {'\u017c': '\u0105\u20ac'}, 'UTF-8, whatever the locale')
            S.reach('read')
            with open(path, 'wb') as f:
                f.write(S.pick('bad', [b'{', b'', b'[1,', b'what']))
            S.expect_raises(ValueError, lambda: read_json_from_file(path), msg='an invalid file')
            S.reach('invalid')
            S.check(world.closed(), 'a file is left open')
    finally:
        shutil.rmtree(d)


def raw(path):
    fd = os.open(path, os.O_RDONLY)
    try:
        return os.read(fd, 100000).decode('ascii')
    finally:
        os.close(fd)


class A(JSONAbleDataObject):
    x: int
    y: int = 7


class B(A):
    pass


class C(A):
    z: int
    y: int = 8


class D(JSONAbleDataObject):
    x: int


class Y(JSONAbleDataObject):
    y: int
    x: int


FIELDS = {A: ('x', 'y'), B: ('x', 'y'), C: ('x', 'y', 'z'), D: ('x',), Y: ('x', 'y')}
DEFAULTS = {A: {'y': 7}, B: {'y': 7}, C: {'y': 8}, D: {}, Y: {}}


@R.harness(quick=[dict()], labels=['default', 'missing', 'inherited', 'from JSON', 'equal', 'different', 'other type'],
           bounds='5 classes, inheriting or not, any values of the fields, given or not')
def data_objects(S):
    def make(name):
        cls = S.pick(name, [A, B, C, D, Y])
        given = {}
        for f in FIELDS[cls]:
            if f in DEFAULTS[cls] and not S.flag('given'):
                continue
            given[f] = None if name == 'a' and S.flag('none') else S.int(name + f, 0, 8)
        return cls, given, {**DEFAULTS[cls], **given}

    cls, given, want = make('a')
    if cls in (B, C):
        S.reach('inherited')
    required = [f for f in FIELDS[cls] if f not in DEFAULTS[cls]]
    if S.flag('missing'):
        k = S.pick('without', required)
        S.expect_raises(ValueError, lambda: cls(**{f: v for f, v in given.items() if f != k}), msg='a value is missing')
        S.reach('missing')
        return
    a = cls(**given)
    if len(given) < len(want):
        S.reach('default')
    S.check_eq(a.to_json(), want, 'to_json')
    for f, v in want.items():
        S.check_eq(getattr(a, f), v, 'an attribute')
    again = cls.from_json(a.to_json())
    S.check(type(again) is cls, 'from_json')
    S.check_eq(again.to_json(), want, 'from_json')
    S.check(again == a and not again != a and hash(again) == hash(a), 'equal to what it was made from')
    S.reach('from JSON')
    other, given2, want2 = make('b')
    b = other(**given2)
    equal = bool(a == b)
    S.check(S.eq(equal, bool(b == a)), 'equality is symmetric')
    S.check(S.eq(equal, not a != b), 'inequality is its opposite')
    if cls is other:
        S.check(S.eq(equal, S.And(*[S.eq(want[f], want2[f]) for f in want])), 'equal if all the fields are')
    if equal:
        S.check(hash(a) == hash(b), 'equal ones have equal hashes')
        S.reach('equal')
    else:
        S.reach('different')
    S.check(not a == 5 and a != 5 and not a == None and a != 'x', 'not equal to something else')  # noqa
    S.reach('other type')
