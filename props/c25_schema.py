import copy
import enum
import os
import shutil
import subprocess
import sys
import tempfile

from engine.harness import Registry
from satella.configuration.schema import (
    Boolean, Caster, CheckerCondition, Descriptor, Dict, Directory, DirectoryObject, File, FileContents, FileObject,
    Float, IPv4, Integer, List, Regexp, String, Union, create_key, descriptor_from_dict, register_custom_descriptor)
from satella.configuration.schema.base import must_be_one_of, must_be_type
from satella.exceptions import ConfigurationError, ConfigurationSchemaError, ConfigurationValidationError

R = Registry('C25', assumptions=['conversions of strings are tried on representative strings of each kind'])

BAD = ConfigurationValidationError
INVALID = object()


class Weird:
    def __int__(self):
        raise TypeError('no')

    __float__ = __str__ = __int__


WEIRD = Weird()
SCALARS = ['', '1', '0', 'true', 'False', 'tRuE', 'yes', '12', ' 7 ', '-3', '1.5', '1e400', 'x', None, True, False, 2.5,
           float('inf'), float('nan'), 10 ** 400, [], [1], {}, {'a': 1}, (), WEIRD]


def ref_bool(v):
    if isinstance(v, str):
        return {'TRUE': True, 'FALSE': False}.get(v.upper(), INVALID)
    return bool(v)


def conv(f):
    def ref(v):
        try:
            return f(v)
        except Exception:       # noqa
            return INVALID
    return ref


KINDS = {'bool': (Boolean, ref_bool), 'int': (Integer, conv(int)), 'float': (Float, conv(float)),
         'str': (String, conv(str)), 'any': (Descriptor, lambda v: v)}


def same(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


def outcome(S, d, v, label=''):
    r, out = S.raises(ConfigurationError, d, v)
    if r:
        S.check(isinstance(out, BAD), 'a validation error %s' % label)
        return INVALID
    return out


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['valid', 'invalid'],
           bounds='n values of 26 representative kinds (and any integer of -2..2) passed to one converting descriptor')
def converts(S, n):
    kind = S.pick('kind', sorted(KINDS))
    cls, ref = KINDS[kind]
    d = cls() if S.flag('direct') else descriptor_from_dict({'k': kind}).keys['k']
    for _ in range(n):
        i = S.choice('value', len(SCALARS) + 1)
        v = SCALARS[i] if i < len(SCALARS) else S.conc(S.int('v', -2, 2))
        expected = ref(v)
        out = outcome(S, d, v)
        S.check((out is INVALID) == (expected is INVALID) and (out is INVALID or same(out, expected)),
                lambda: '%s(%r) gave %r instead of %r' % (kind, v, out, expected))
        S.reach('invalid' if out is INVALID else 'valid')


@R.harness(quick=[dict(top=3)], thorough=[dict(top=11)], labels=['valid', 'invalid'],
           bounds='addresses of 3 to 5 octets, one of them any number below 100 * "top" or malformed, with text before, '
                  'after or in between')
def ipv4(S, top):
    n = S.pick('octets', [4, 3, 5])
    ok = n == 4
    octets = [str(x) for x in (192, 0, 255, 7, 1)][:n]
    if ok:
        if S.flag('malformed'):
            octets[S.choice('where', 4)] = S.pick('octet', ['', 'a', '-1', '+1', '1e1', ' 1', '1 ', '\u0661', '0x1', '1\n'])
            ok = False
        else:
            v = 100 * S.choice('hundreds', top) + S.conc(S.int('octet', 0, 99))
            octets[S.choice('where', 4)] = str(v)
            ok = v < 256
    s = '.'.join(octets)
    if ok:
        around = S.pick('around', ['', 'before', 'after', 'newline', 'dot', 'sep'])
        s = {'': s, 'before': 'a' + s, 'after': s + 'a', 'newline': s + '\n', 'dot': s + '.',
             'sep': s.replace('.', ',', 1)}[around]
        ok = around == ''
    out = outcome(S, IPv4(), s)
    S.check((out is not INVALID) == ok, lambda: 'IPv4 of %r gives %r' % (s, out))
    if ok:
        S.check(out == s and type(out) is str, 'the address')
    S.reach('valid' if ok else 'invalid')


class Word(Regexp):
    REGEXP = '[a-z]+'


@R.harness(quick=[dict()], labels=['valid', 'invalid'], bounds='two values of eight kinds, pattern as a string or compiled')
def regexp(S):
    import re

    class Compiled(Regexp):
        REGEXP = re.compile('[a-z]+')

    class MaybeWord(Word):
        REGEXP = '[a-z]*'

    S.check(MaybeWord()('') == '' and MaybeWord()('a') == 'a', 'an empty string may match')
    d = S.pick('cls', [Word, Compiled])()
    S.check(str(d) == 'Regexp([a-z]+)', 'str')
    for _ in range(2):
        v, expected = S.pick('v', [('abc', 'abc'), ('', INVALID), ('12', INVALID), (5, INVALID), ('z', 'z'), ('AB', INVALID), ('ab1', 'ab'), ('1ab', INVALID)])
        out = outcome(S, d, v)
        S.check(out is expected or out == expected, lambda: '%r gives %r' % (v, out))
        S.reach('invalid' if expected is INVALID else 'valid')


# --- nested schemas -----------------------------------------------------------------------------

def schema(S, depth, name):
    """a descriptor, together with a reference: value -> converted value, or INVALID"""
    kinds = ['any', 'at_least', 'post', 'caster']
    if depth:
        kinds += ['list', 'dict', 'union']
    kind = S.pick(name, kinds)
    if kind == 'any':
        return Descriptor(), lambda v: v
    if kind in ('at_least', 'post'):
        lo = S.int('lo')
        d = Descriptor()
        d.add_checker(must_be_type(int, type(lo)))
        d.add_checker(CheckerCondition(lambda v: v >= lo, 'too small', kind == 'at_least'))
        return d, lambda v: v if is_number(v) and v >= lo else INVALID
    if kind == 'caster':
        limit = S.int('limit')

        def cast(v):
            if not is_number(v):
                raise TypeError('not a number')
            if v > limit:
                raise ValueError('too big')
            return v + 1

        return Caster(cast), lambda v: v + 1 if is_number(v) and not v > limit else INVALID
    if kind == 'list':
        d, ref = schema(S, depth - 1, name + 'l')

        def ref_list(v):
            if not isinstance(v, (list, tuple)):
                return INVALID
            out = []
            for x in v:
                y = ref(x)
                if y is INVALID:
                    return INVALID
                out.append(y)
            return out

        return List(d), ref_list
    if kind == 'union':
        subs = [schema(S, 0, name + 'u%d' % i) for i in range(2)]

        def ref_union(v):
            for _, ref in subs:
                y = ref(v)
                if y is not INVALID:
                    return y
            return INVALID

        return Union(*(d for d, _ in subs)), ref_union
    d, ref = schema(S, depth - 1, name + 'd')
    optional = S.flag('optional')
    default = S.int('default')
    mapped = S.pick('mapped', [None, 'pair', 'none'])
    # the same descriptor under two keys
    keys = [create_key(d, 'a'), create_key(d, 'b', optional, default)]
    args = ((lambda k, v: (k, v) if mapped == 'pair' else None),) if mapped else ()

    def ref_dict(v):
        if not isinstance(v, dict):
            return INVALID
        out = {}
        for k, opt in (('a', False), ('b', optional)):
            if k in v:
                out[k] = ref(v[k])
                if out[k] is INVALID:
                    return INVALID
            elif opt:
                out[k] = default
            else:
                return INVALID
        for k in v:
            if k not in out:
                out[k] = v[k] if mapped is None else (k, v[k]) if mapped == 'pair' else None
        return out

    return Dict(keys, *args), ref_dict


def is_number(v):
    return not (v is None or isinstance(v, (str, list, tuple, dict)))


def value(S, depth, name, few=False):
    kinds = ['number', 'str', 'none']
    if depth:
        kinds += ['list', 'tuple', 'a', 'ab', 'abc', 'b']
    if few:
        kinds = ['number', 'a', 'abc', 'b'] if depth else ['number', 'none']
    kind = S.pick(name, kinds)
    if kind == 'number':
        return S.int('v')
    if kind == 'str':
        return 'text'
    if kind == 'none':
        return None
    if kind in ('list', 'tuple'):
        v = [value(S, depth - 1, name + str(i), few) for i in range(S.choice('len', 3))]
        return v if kind == 'list' else tuple(v)
    return {k: value(S, depth - 1, name + k, few) if k != 'c' else S.int('c') for k in kind}


@R.harness(quick=[dict(ds=1, dv=1, n=2), dict(ds=2, dv=1, n=1)], thorough=[dict(ds=1, dv=1, n=2), dict(ds=2, dv=1, n=1), dict(ds=2, dv=2, n=1)],
           labels=['valid', 'invalid', 'default', 'unknown'],
           bounds='schemas nested "ds" deep of descriptors with any limits, values nested "dv" deep with any numbers, n '
                  'of them in a row')
def nested(S, ds, dv, n):
    d, ref = schema(S, ds, 's')
    for _ in range(n):
        v = value(S, dv, 'v', n > 1 and ds + dv < 3)
        before = copy.deepcopy(v)
        expected = ref(v)
        out = outcome(S, d, v)
        S.check_eq(v, before, 'the value is not altered')
        if expected is INVALID:
            S.check(out is INVALID, lambda: '%r accepted as %r' % (v, out))
            S.reach('invalid')
        else:
            S.check(out is not INVALID, lambda: '%r rejected' % (v,))
            S.check_eq(out, expected, 'converted')
            S.reach('valid')
            if isinstance(v, dict) and isinstance(out, dict):
                if 'b' in out and 'b' not in v:
                    S.reach('default')
                if 'c' in out:
                    S.reach('unknown')


class Environment(enum.IntEnum):
    PRODUCTION = 0
    TESTING = 1


@register_custom_descriptor('c25_even')
class Even(Descriptor):
    BASIC_MAKER = int
    CHECKERS = [CheckerCondition(lambda v: v % 2 == 0, 'odd', is_pre_checker=False), must_be_one_of(0, 1, 2, 3, '4')]


@R.harness(quick=[dict()], labels=['valid', 'invalid', 'schema_error'],
           bounds='schemas of two keys out of 27 definitions, each key with a value of up to four kinds or missing')
def from_json(S):
    here = __name__ + '.Environment'
    defs = [
        # definition, is optional, default, [(value, result)]
        ('int', False, None, [('5', 5), ('x', INVALID)]),
        (int, False, None, [('5', 5), (None, INVALID)]),
        ('str', False, None, [(5, '5')]),
        ('ipv4', False, None, [('127.0.0.1', '127.0.0.1'), ('nope', INVALID)]),
        ('any', False, None, [(None, None), ([1], [1])]),
        ('list', False, None, [([1, 'a'], [1, 'a']), ('a', INVALID)]),
        ({'type': 'list'}, False, None, [((1, 'a'), [1, 'a']), ({}, INVALID)]),
        ({'type': 'list', 'of': 'int', 'optional': True}, True, None, [(['1', 2], [1, 2]), (['x'], INVALID)]),
        ({'type': 'list', 'of': {'a': 'int'}, 'default': 'd'}, True, 'd',
         [([{'a': '1'}], [{'a': 1}]), ([{}], INVALID), ([1], INVALID)]),
        ({'type': 'int', 'default': 9}, True, 9, [('5', 5), ('x', INVALID)]),
        ({'type': 'int', 'default': None, 'optional': False}, False, None, [('5', 5)]),
        ({'type': 'float', 'optional': True, 'description': 'd'}, True, None, [('5', 5.0), ({}, INVALID)]),
        ({'type': 'union', 'of': ['int', {'a': 'str'}]}, False, None,
         [('5', 5), ({'a': 5}, {'a': '5'}), ('x', INVALID), ({}, INVALID)]),
        ({'type': 'union', 'of': ['str', 'int'], 'default': 1}, True, 1, [('5', '5'), (5, '5')]),
        ({'x': 'int', 'y': {'type': 'int', 'default': 2}}, False, None,
         [({'x': '1'}, {'x': 1, 'y': 2}), ({'x': 1, 'y': '3'}, {'x': 1, 'y': 3}), ({'y': 1}, INVALID), (5, INVALID)]),
        ({'type': 'caster', 'cast_to': 'int'}, False, None, [('5', 5), ('x', INVALID), (None, INVALID)]),
        ({'type': 'caster', 'cast_to': here}, False, None, [(1, Environment.TESTING), (2, INVALID)]),
        ({'type': 'caster', 'cast_to': here, 'expr': 'y(int(x))', 'default': 0}, True, 0,
         [('1', Environment.TESTING), ('2', INVALID)]),
        ('c25_even', False, None, [('2', 2), (3, INVALID), ('4', INVALID), ('x', INVALID)]),
        ({'type': 'c25_even', 'default': 1}, True, 1, [(0, 0), ('1', INVALID)]),
        ({'type': 'int'}, False, None, [('5', 5), ('x', INVALID)]),
        ({'type': 'str', 'default': None}, True, None, [(5, '5')]),
        ({'type': 'int', 'default': 0}, True, 0, [('5', 5)]),
        ({'type': 'int', 'default': 7, 'optional': False}, False, None, [('5', 5), (None, INVALID)]),
        ({'type': 'union', 'of': [{'a': 'int'}, {'b': 'str'}, 'any']}, False, None,
         [({'a': '5'}, {'a': 5}), ({'b': 5}, {'b': '5'}), ({'c': 5}, {'c': 5}), (None, None)]),
        ({'type': 'list', 'of': 'bool'}, False, None, [(['true', 0], [True, False]), ([None], [False]), (['x'], INVALID)]),
        ('dir', False, None, [('/', DirectoryObject('/')), ('/nonexistent-c25', INVALID)]),
    ]
    unknown = ['nonexistent', {'type': 'nonexistent'}, 'Int', {'type': 'Str'}, 5, None, {'type': 'list', 'of': 'nonexistent'},
               {'type': 'union', 'of': ['int', 'nonexistent']}, {'nested': 'nonexistent'}]
    i = S.choice('first', len(defs) + len(unknown))
    if i >= len(defs):
        S.reach('schema_error')
        d = {'k1': unknown[i - len(defs)], 'k2': 'int'}
        if S.flag('swap'):
            d = {'k2': 'int', 'k1': unknown[i - len(defs)]}
        r, e = S.raises(ConfigurationSchemaError, descriptor_from_dict, d)
        S.check(r and not isinstance(e, BAD), lambda: 'schema error, got %r' % (e,))
        return
    j = S.choice('second', len(defs))
    spec = {'k1': defs[i][0], 'k2': defs[j][0]}
    before = copy.deepcopy(spec)
    d = descriptor_from_dict(spec)
    S.check(spec == before, 'the schema is not altered')
    v, expected = {}, {}
    for k, (_, optional, default, values) in (('k1', defs[i]), ('k2', defs[j])):
        c = S.choice('value', len(values) + 1)
        if c == len(values):
            if optional:
                expected[k] = default
            else:
                expected[k] = INVALID
        else:
            v[k], expected[k] = values[c]
    out = outcome(S, d, v)
    if INVALID in list(expected.values()):
        S.check(out is INVALID, lambda: '%r accepted by %r as %r' % (v, spec, out))
        S.reach('invalid')
    else:
        S.check(out == expected and all(type(out[k]) is type(expected[k]) for k in expected),
                lambda: '%r given to %r gives %r' % (v, spec, out))
        S.reach('valid')


@R.harness(quick=[dict()], labels=['file', 'dir', 'contents', 'missing'],
           bounds='files and directories that exist or not, contents with or without an encoding and stripping')
def files(S):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'f')
        data = S.pick('data', [b'', b' a\n', b'\xc4\x85 ', b'\xff'])
        with open(path, 'wb') as f:
            f.write(data)
        which = S.pick('path', [path, d, os.path.join(d, 'missing')])
        kind = S.pick('kind', ['file', 'dir', 'contents'])
        if kind == 'contents':
            encoding, strip = S.pick('encoding', [None, 'utf-8']), S.flag('strip')
            if S.flag('json'):
                spec = {'type': 'file_contents'}
                if encoding:
                    spec['encoding'] = encoding
                if strip:
                    spec['strip_afterwards'] = True
                out = outcome(S, descriptor_from_dict({'k': spec}), {'k': which})
                out = out if out is INVALID else out['k']
            else:
                out = outcome(S, FileContents(encoding, strip), which)
            expected = INVALID
            if which == path:
                expected = data
                if encoding:
                    expected = INVALID if data == b'\xff' else data.decode(encoding)
                if strip and expected is not INVALID:
                    expected = expected.strip()
            S.check(out is expected or out == expected, lambda: 'contents %r' % (out,))
        else:
            cls, obj = (File, FileObject) if kind == 'file' else (Directory, DirectoryObject)
            out = outcome(S, cls(), which)
            S.check((out is not INVALID) == (which == (path if kind == 'file' else d)), 'exists')
            if out is not INVALID:
                S.check(isinstance(out, obj) and str(out) == which and out.path == which, 'path')
                S.check(out == obj(which) and out == which and which == out and hash(out) == hash(which), 'equality')
                S.check(out != obj(which + '/') and out != which + '/', 'another path')
                S.check(out != obj(which + 'x') and out != which + 'x' and out != 5 and out is not None, 'inequality')
                S.check(not (FileObject('a') == DirectoryObject('a')), 'different kinds')
                if kind == 'file':
                    S.check(out.get_value() == data, 'bytes')
                    if data != b'\xff':
                        S.check(out.get_value('utf-8') == data.decode('utf-8'), 'text')
                    with out.open('rb') as f:
                        S.check(f.read() == data, 'open')
                else:
                    S.check(list(out.get_files()) == ['f'], 'files in the directory')
        S.reach(kind if out is not INVALID else 'missing')
    finally:
        shutil.rmtree(d)


@R.harness(quick=[dict()], labels=['imported'], bounds='four packages, imported first in an interpreter of their own')
def importable(S):
    name = S.pick('name', ['satella.configuration', 'satella.coding', 'satella.instrumentation', 'satella.time'])
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import ' + name], capture_output=True, timeout=60)
    S.check(p.returncode == 0, lambda: 'import of %s: %s' % (name, p.stderr[-200:]))
    S.reach('imported')


@R.harness(quick=[dict()], labels=['valid', 'invalid'],
           bounds='checkers of every kind, own and inherited, the conditions returning anything, up to three of them')
def checkers(S):
    class EvenToo(Even):
        pass

    class More(Even):
        CHECKERS = [CheckerCondition(lambda v: v, 'falsy')]

    which = S.pick('which', ['conditions', 'inherited', 'replaced', 'types', 'one_of'])
    if which == 'conditions':
        d = S.pick('cls', [Descriptor, Integer])()
        v = S.int('v', -3, 3)
        v = v if type(d) is Descriptor else S.conc(v)
        ok = True
        for _ in range(S.choice('checkers', 4)):
            pre = S.flag('pre')
            how = S.pick('how', ['none', 'zero', 'text', 'compare'])
            lo = S.int('lo', -3, 3)
            d.add_checker(CheckerCondition({'none': lambda v: None, 'zero': lambda v: 0, 'text': lambda v: 'yes',
                                            'compare': lambda v, lo=lo: v >= lo}[how], 'x', pre))
            ok = ok and (how == 'text' or how == 'compare' and bool(v >= lo))
        out = outcome(S, d, v)
        S.check((out is not INVALID) == ok, 'all the conditions must hold')
        if ok:
            S.check(out == v, 'the value')
    else:
        d, v, expected = S.pick('case', {
            'inherited': [(EvenToo(), 2, 2), (EvenToo(), 3, INVALID), (EvenToo(), 4, INVALID), (EvenToo(), '2', 2)],
            'replaced': [(More(), 4, 4), (More(), 3, 3), (More(), 0, INVALID), (More(), '', INVALID)],
            'types': [(with_checker(must_be_type(int)), True, True), (with_checker(must_be_type(int)), 5, 5),
                      (with_checker(must_be_type(int, str)), 'x', 'x'), (with_checker(must_be_type(int, str)), None, INVALID),
                      (with_checker(must_be_type(int)), Environment.TESTING, Environment.TESTING),
                      (with_checker(must_be_type(str)), 5, INVALID)],
            'one_of': [(with_checker(must_be_one_of(1, None)), None, None), (with_checker(must_be_one_of(1, 2)), '1', INVALID),
                       (with_checker(must_be_one_of()), None, INVALID), (with_checker(must_be_one_of(0)), 0, 0),
                       (with_checker(must_be_one_of([1])), [1], [1]), (with_checker(must_be_one_of(1, 2)), 12, INVALID)],
        }[which])
        out = outcome(S, d, v)
        S.check(out is INVALID if expected is INVALID else out == expected and type(out) is type(expected),
                lambda: '%r gives %r' % (v, out))
    S.reach('invalid' if out is INVALID else 'valid')


def with_checker(checker):
    d = Descriptor()
    d.add_checker(checker)
    return d


@R.harness(quick=[dict()], labels=['required', 'optional'],
           bounds='one descriptor used for two keys with separate settings, and also alone')
def shared_descriptors(S):
    base = S.pick('base', [Integer, Even, List, lambda: Union(Integer(), String())])()
    settings = [(S.flag('optional'), S.pick('default', [None, 0, 'd'])) for _ in range(2)]
    order = S.flag('reversed')
    names = ['b', 'a'] if order else ['a', 'b']
    d = Dict([create_key(base, n, *st) for n, st in zip(names, settings)])
    S.check(base.name is None, 'the descriptor is not altered')
    good = [1] if isinstance(base, List) else 2
    v = {n: good for n in names if S.flag('given')}
    for _ in range(2):
        out = outcome(S, d, dict(v))
        missing = [n for n, (o, _) in zip(names, settings) if not o and n not in v]
        if missing:
            S.check(out is INVALID, 'a required key is missing')
            S.reach('required')
        else:
            S.check(out == {n: v.get(n, default) for n, (_, default) in zip(names, settings)}, 'values and defaults')
            S.reach('optional')
    S.check(base(good) == good, 'usable alone')
