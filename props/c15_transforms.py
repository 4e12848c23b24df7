import enum
import itertools
import random
from engine.harness import Registry
from props.lib import member, ascending, multiset_eq
from satella.coding.transforms import merge_series, merge_list, percentile, linear_interpolate, clip, \
    pad_to_multiple_of_length, hashables_to_int, list_values_to_indices, unpack_dict, is_subset, \
    split_shuffle_and_join, stringify, jsonify, none_if_false, one_tuple, intify, b64encode
from satella.json import JSONAble

R = Registry('C15', assumptions=['series have strictly ascending timestamps', 'random.shuffle: any permutation'])


def series(S, name, n, lo=0, ties=False):
    """up to n points with (strictly) ascending timestamps and arbitrary values"""
    m = S.choice('n' + name, n + 1 - lo) + lo
    ts = [S.key('t%s%d' % (name, i)) for i in range(m)]
    for x, y in zip(ts, ts[1:]):
        S.assume(x <= y if ties else x < y)
    return [(t, S.key('v%s%d' % (name, i))) for i, t in enumerate(ts)]


@R.harness(quick=[dict(k=2, n=4), dict(k=3, n=2)], thorough=[dict(k=2, n=5), dict(k=3, n=3)],
           labels=['empty', 'rows', 'no_overlap', 'tie'],
           bounds='k series of up to n points each, arbitrary ascending timestamps')
def series_merging(S, k, n):
    ss = [[(t, None if (i + j) % 3 == 2 else Opaque([i, j])) for j, (t, _) in enumerate(series(S, chr(97 + i), n))]
          for i in range(k)]
    got = list(merge_series(ss[0], *[iter(s) for s in ss[1:]]))
    if not all(ss):
        S.check(not got, 'nothing to report')
        S.reach('empty')
        return
    for row in got:
        S.check(len(row) == k + 1, 'row width')
        for s, v in zip(ss, row[1:]):
            # the value of the last point not later than the timestamp
            last = 'nothing yet'
            for t, x in s:
                if t <= row[0]:
                    last = x
            S.check(last is v, lambda: 'value at that instant %r %r' % (got, ss))
    for a, b in zip(got, got[1:]):
        S.check(a[0] < b[0], 'strictly ascending')
    allts = [t for s in ss for t, _ in s]
    for row in got:
        S.check(S.Or(False, *[S.eq(row[0], t) for t in allts]), 'instants come from the series')
    for t in allts:
        # every instant at which all series already have a value appears
        if all(s[0][0] <= t for s in ss):
            S.check(S.Or(False, *[S.eq(row[0], t) for row in got]), 'no instant is lost')
            S.reach('rows')
        else:
            S.reach('no_overlap')
    if ss[0][0][0] == ss[1][0][0]:
        S.reach('tie')


class Opaque:
    """a value that can be neither ordered nor compared"""

    def __init__(self, parts):
        self.parts = parts


@R.harness(quick=[dict(k=2, n=4), dict(k=3, n=2)], thorough=[dict(k=2, n=5), dict(k=3, n=3)],
           labels=['merged', 'all_empty', 'disjoint'],
           bounds='k lists of up to n (key, value), ascending keys, arbitrary ties between lists; '
                  'unorderable values')
def list_merging(S, k, n):
    ls = [series(S, chr(97 + i), n, ties=i == 0) for i in range(k)]
    calls = []

    def merge(a, b):
        calls.append(1)
        return Opaque(a.parts + b.parts)

    srcs = [[(t, Opaque([v])) for t, v in l] for l in ls]
    srcs[1:] = map(iter, srcs[1:])
    got = list(merge_list(*srcs, merge_function=merge))
    if not any(ls):
        S.check(not got, 'empty')
        S.reach('all_empty')
        return
    for a, b in zip(got, got[1:]):
        S.check(a[0] < b[0], 'each key once, ascending')
    flat = [(key, p) for key, v in got for p in v.parts]
    S.check(multiset_eq(S, flat, [x for l in ls for x in l]), 'each element merged into its key')
    S.reach('merged' if calls else 'disjoint')
    S.check(len(calls) == sum(map(len, ls)) - len(got), 'merge calls')
    S.check(list(merge_list([(0, None)], [(0, None), (1, 0)], merge_function=lambda x, y: (x, y)))
            == [(0, (None, None)), (1, 0)], 'values which are None')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=5)], labels=['exact', 'between', 'clip_low', 'clip_high', 'out', 'p_exact',
                                                             'p_between', 'clipped', 'inside'],
           bounds='up to n points with arbitrary values; instants on a grid of quarters; arbitrary numbers to clip')
def numeric(S, n):
    kind = S.pick('kind', ['interpolate', 'percentile', 'clip'])
    if kind == 'interpolate':
        m = S.choice('m', n) + 1
        ts = [0]
        for i in range(m - 1):
            ts.append(ts[-1] + S.pick('gap', [1, 2]))
        vs = [S.int('v%d' % i, -1000, 1000) for i in range(m)]
        t = (S.choice('t', 4 * ts[-1] + 5) - 2) / 4
        cl = S.flag('clip')
        pts = list(zip(ts, vs))
        if S.flag('tuple'):
            pts = tuple(pts)
        r, v = S.raises(ValueError, linear_interpolate, pts, t, clip=cl)
        if t < ts[0] or t > ts[-1]:
            S.check(r == (not cl), 'outside of the series')
            if not r:
                S.reach('clip_low' if t < 0 else 'clip_high')
                S.check_eq(v, vs[0] if t < 0 else vs[-1], 'clip')
            else:
                S.reach('out')
            return
        S.check(not r, 'inside of the series')
        if t in ts:
            S.check_eq(v, vs[ts.index(t)], 'at a point')
            S.reach('exact')
        else:
            i = max(i for i in range(m) if ts[i] < t)
            g = ts[i + 1] - ts[i]
            S.check_eq((v - vs[i]) * g, (vs[i + 1] - vs[i]) * (t - ts[i]), 'on the line')
            S.reach('between')
    elif kind == 'percentile':
        m = S.choice('m', n + 1) + 1
        vs = [S.int('v%d' % i, -1000, 1000) for i in range(m)]
        for x, y in zip(vs, vs[1:]):
            S.assume(x <= y)
        p = S.choice('p', 9) / 8
        v = percentile(list(vs), p)
        pos = (m - 1) * p
        lo = int(pos)
        if pos == lo:
            S.check_eq(v, vs[lo], 'at a sample')
            S.reach('p_exact')
        else:
            S.check_eq(v - vs[lo], (vs[lo + 1] - vs[lo]) * (pos - lo), 'between samples')
            S.reach('p_between')
    else:
        v, lo, hi = S.int('v'), S.int('lo'), S.int('hi')
        S.assume(lo <= hi)
        r = clip(v, lo, hi)
        S.check(S.And(lo <= r, r <= hi), 'in range')
        if S.And(lo <= v, v <= hi):
            S.check_eq(r, v, 'unchanged')
            S.reach('inside')
        else:
            S.check_eq(r, S.Ite(v < lo, lo, hi), 'the nearest')
            S.reach('clipped')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['pad', 'pad_factory', 'indices', 'indices_dup', 'hashables', 'unpack', 'unpack_missing',
                   'subset', 'not_subset', 'shuffle', 'one_tuple', 'none'],
           bounds='up to n arbitrary elements (equal or not)')
def lists(S, n):
    a = [S.key('x%d' % i) for i in range(S.choice('n', n + 1))]
    m = len(a)
    kind = S.pick('kind', ['pad', 'indices', 'hashables', 'unpack', 'subset', 'shuffle', 'one_tuple'])
    if kind == 'pad':
        k = S.choice('k', n + 1) + 1
        w = S.key('w')
        fac = S.flag('factory')
        src = list(a)
        cnt = itertools.count()
        got = pad_to_multiple_of_length(src, k, **({'pad_with_factory': lambda: next(cnt)} if fac else
                                                   {'pad_with': w}))
        missing = -m % k
        S.check_eq(list(got), a + (list(range(missing)) if fac else [w] * missing), 'padded')
        S.check_eq(src, a, 'argument left alone')
        S.expect_raises(ValueError, pad_to_multiple_of_length, [1], 2, pad_with=1, pad_with_factory=lambda: 1)
        S.expect_raises(ValueError, pad_to_multiple_of_length, [1], 2, pad_with=0, pad_with_factory=lambda: 1)
        S.reach('pad_factory' if fac else 'pad')
    elif kind == 'indices':
        r, v = S.raises(ValueError, list_values_to_indices, a)
        dup = any(a[i] == a[j] for i in range(m) for j in range(i))
        S.check(r == dup, 'duplicates')
        S.reach('indices_dup' if dup else 'indices')
        if not r:
            S.check(len(v) == m, 'size')
            for i, x in enumerate(a):
                S.check_eq(v[x], i, 'position')
    elif kind == 'hashables':
        v = hashables_to_int(a)
        S.check(all(x in v for x in a), 'all')
        S.check(sorted(v.values()) == list(range(len(v))), 'consecutive integers from 0')
        S.check(all(member(S, k, a) for k in v), 'nothing else')
        S.reach(kind)
    elif kind == 'unpack':
        d = {x: S.key('v') for x in a}
        keys = [S.key('k'), S.key('k')]
        miss = [k for k in keys if k not in d]
        rais = S.flag('raise')
        mt = S.flag('map')
        kw = {'map_through': lambda y: y + 1} if mt else {}
        r, v = S.raises(KeyError, lambda: list(unpack_dict(d, *keys, raise_if_not_found=rais, **kw)))
        S.check(r == (bool(miss) and rais), 'missing key')
        if r:
            S.reach('unpack_missing')
        else:
            S.reach('unpack')
            S.check_eq(v, [None if k not in d else d[k] + 1 if mt else d[k] for k in keys], 'values')
            S.check(list(unpack_dict({1: None, 2: 0}, 1, 2, 1)) == [None, 0, None], 'a key with a None')

            def through(y):
                raise KeyError('own')

            if v:
                S.expect_raises(KeyError, lambda: list(unpack_dict({1: 2}, 1, map_through=through,
                                                                   raise_if_not_found=rais)))
    elif kind == 'subset':
        d1 = {x: S.key('v') for x in a[:2]}
        d2 = {x: S.key('w') for x in a[1:]}
        r = is_subset(d1, d2)
        S.check(r is all(k in d2 and bool(d2[k] == v) for k, v in d1.items()), 'is_subset')
        S.reach('subset' if r else 'not_subset')
        S.check(is_subset({1: None, 2: 0}, {1: None, 2: 0, 3: 1}), 'with a None')
        S.check(not is_subset({1: None}, {2: 1}), 'a None is not a missing one')
    elif kind == 'shuffle':
        v = S.key('v')
        front = S.flag('front')
        orig = random.shuffle

        def shuffle(l):
            for i in range(len(l) - 1):
                j = i + S.choice('perm', len(l) - i)
                l[i], l[j] = l[j], l[i]

        random.shuffle = shuffle
        try:
            got = split_shuffle_and_join(list(a), lambda x: x < v, front)
            got2 = split_shuffle_and_join(list(a[:2]))
        finally:
            random.shuffle = orig
        keep = [x for x in a if x >= v]
        rest = [x for x in a if x < v]
        S.check(len(got) == m, 'length')
        if front:
            S.check_eq(got[:len(keep)], keep, 'order of the not shuffled')
            S.check(multiset_eq(S, got[len(keep):], rest), 'nothing lost')
        else:
            S.check_eq(got[len(rest):], keep, 'order of the not shuffled')
            S.check(multiset_eq(S, got[:len(rest)], rest), 'nothing lost')
        S.check(multiset_eq(S, got2, a[:2]), 'all are shuffled by default')
        S.reach(kind)
    else:
        S.check_eq(list(one_tuple(iter(a))), [(x,) for x in a], 'one_tuple')
        S.reach(kind)
        for x in a:
            r = none_if_false(x)
            S.check(r is None if x == 0 else S.eq(r, x), 'none_if_false')
            S.reach('none')


class Color(enum.Enum):
    RED = 'r'
    BLUE = 7


class JS(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'js': self.v}


class NoStr:
    def __str__(self):
        raise TypeError()

    def __repr__(self):
        return 'nostr'


def tree(S, depth, leaves):
    """(object, expected stringification, expected jsonification)"""
    kind = S.choice('kind', 3) if depth else 0
    if kind == 0:
        return S.pick('leaf', leaves)
    if kind == 1:
        els = [tree(S, depth - 1 if i == 0 else 0, leaves if i == 0 else leaves[-2:])
               for i in range(S.choice('len', 3))]
        t = tuple if S.flag('tuple') else list
        return t(e[0] for e in els), [e[1] for e in els], [e[2] for e in els]
    e = tree(S, depth - 1, leaves)
    k, ks, kj = S.pick('key', [('k', 'k', 'k'), (3, '3', 3), (Color.RED, 'RED', 'r')])
    return {k: e[0]}, {ks: e[1]}, {kj: e[2]}


@R.harness(quick=[dict(d=2)], thorough=[dict(d=3)], labels=['deep', 'flat', 'intify'],
           bounds='all nestings of lists, tuples and dicts up to depth d with up to 2 elements; scalars, enums, '
                  'objects')
def texts(S, d):
    o = object()
    leaves = [(5, '5', 5), ('s', 's', 's'), (Color.BLUE, 'BLUE', 7), (2.5, '2.5', 2.5), (None, None, None),
              (JS((1, Color.RED)), None, {'js': [1, 'r']}), (NoStr(), None, 'nostr')]
    kind = S.pick('f', ['stringify', 'flat', 'jsonify', 'intify'])
    if kind == 'jsonify':
        obj, _, exp = tree(S, d, leaves)
        S.check_eq(jsonify(obj), exp, 'jsonify')
        S.reach('deep')
    elif kind == 'stringify':
        none = S.flag('str_none')
        obj, exp, _ = tree(S, d, leaves[:4] + [(None, 'None' if none else None, None)])
        S.check_eq(stringify(obj, recursively=True, str_none=none), exp, 'stringify recursively')
        obj, exp, _ = tree(S, d - 1, [(5, '<5>', 5), (None, '<None>' if none else None, None)]) if S.flag('own') else \
            ({3: [5, None]}, {'<3>': ['<5>', '<None>' if none else None]}, None)
        if not isinstance(obj, dict) or 3 not in obj or '<3>' in exp:
            S.check_eq(stringify(obj, lambda x: '<%s>' % (x,), recursively=True, str_none=none), exp, 'stringifier')
        S.reach('deep')
    elif kind == 'flat':
        obj, exp, _ = tree(S, 1, leaves[:2])
        if not (isinstance(obj, dict) and Color.RED in obj):
            S.check_eq(stringify(obj, str), exp, 'stringify')
        S.reach('flat')
    else:
        v, e = S.pick('v', [(None, 0), ('12', 12), (3.7, 3), ([1, 2], 2), ('abc', 3), ({}, 0), (True, 1)])
        S.check_eq(intify(v), e, 'intify')
        S.expect_raises(ValueError, intify, o)
        S.check_eq(b64encode(b'\x00\xff'), 'AP8=', 'base64')
        S.reach('intify')
