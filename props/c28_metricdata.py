from engine.harness import Registry
from satella.instrumentation.metrics import MetricData, MetricDataCollection

R = Registry('C28', assumptions=['names and labels are representative ones'])
UNIVERSE = [('a', {}), ('a', {'k': 1}), ('b', {'k': 1})]


def entry(S, i, plain=False):
    name, labels = UNIVERSE[i]
    return MetricData(name, S.int('value'), dict(labels), None if plain else S.pick('stamp', [None, 0, 5]),
                      False if plain else S.flag('internal'))


def facts(x):
    return x.value, x.timestamp, x.internal


def key(x):
    return x.name, frozenset(x.labels.items())


def content(S, mdc):
    out = {}
    for x in mdc.values:
        S.check(key(x) not in out, 'listed twice')
        S.check(MetricData(x.name, 0, dict(x.labels)) in mdc.values, 'it can be found')
        out[key(x)] = facts(x)
    return out


def build(S, which, plain=False):
    xs = [entry(S, i, plain) for i in which]
    how = S.pick('how', ['list', 'args', 'copy']) if not plain else 'list'
    if how == 'args':
        mdc = MetricDataCollection(*xs)
    elif how == 'copy':
        mdc = MetricDataCollection(MetricDataCollection(xs))
    else:
        mdc = MetricDataCollection(x for x in xs)
    model = {key(x): facts(x) for x in xs}
    S.check_eq(content(S, mdc), model, 'what it was made of')
    return mdc, model


def subset(S, name):
    return [i for i in range(len(UNIVERSE)) if S.flag(name)]


OPS = ['prefix', 'postfix', 'labels', 'value', 'stamp', 'internals']


def alter(S, mdc, model, op):
    """:return: the new model"""
    if op == 'prefix':
        S.check(mdc.prefix_with('p') is mdc, 'returns itself')
        return {('p.' + n, l): v for (n, l), v in model.items()}
    if op == 'postfix':
        S.check(mdc.postfix_with('s') is mdc, 'returns itself')
        return {(n + '.s', l): v for (n, l), v in model.items()}
    if op == 'labels':
        v = S.choice('label', 2)
        mdc.add_labels({'z': v})
        return {(n, frozenset({**dict(l), 'z': v}.items())): x for (n, l), x in model.items()}
    if op == 'value':
        v = S.int('new')
        S.check(mdc.set_value(v) is mdc, 'returns itself')
        return {k: (v, x[1], x[2]) for k, x in model.items()}
    if op == 'stamp':
        v = S.int('time')
        S.check(mdc.set_timestamp(v) is mdc, 'returns itself')
        return {k: (x[0], v, x[2]) for k, x in model.items()}
    mdc.remove_internals()
    return {k: x for k, x in model.items() if not x[2]}


@R.harness(quick=[dict(n=1)], thorough=[dict(n=2)], labels=['collection', 'in_place', 'overridden', 'kept', 'refused'],
           bounds='any two collections of up to 3 entries with any values, the result of adding them altered n times '
                  'in any way')
def adding(S, n):
    a, ma = build(S, subset(S, 'left'), True)
    origin, morigin = a, ma
    if S.flag('copied'):
        a = MetricDataCollection(origin)
    single = S.flag('single')
    which = [S.choice('which', 3)] if single else subset(S, 'right')
    b, mb = build(S, which, True)
    right = list(b.values)[0] if single else b
    expected = {**ma, **mb}
    if S.flag('in_place'):
        c = a
        c += right
        S.check(c is a, 'the same collection')
        ma = None
        S.reach('in_place')
    else:
        c = a + right
        S.check(c is not a and c is not b, 'a new collection')
        S.reach('collection')
    S.check_eq(content(S, c), expected, 'the sum')
    S.reach('overridden' if len(expected) < 2 * len(mb) else 'kept')
    for _ in range(n):
        expected = alter(S, c, expected, S.pick('op', OPS))
        S.check_eq(content(S, c), expected, 'altered')
    if a is not origin:
        S.check_eq(content(S, origin), morigin, 'what the left operand was made of')
    if ma is not None:
        S.check_eq(content(S, a), ma, 'the left operand is left as it was')
    S.check_eq(content(S, b), mb, 'the right operand is left as it was')
    r, _ = S.raises(TypeError, lambda: c + 5)
    S.check(r, 'not a metric')
    S.reach('refused')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=OPS + ['original'],
           bounds='a collection of up to 3 entries of any kind made in several ways, altered n times in any way')
def altering(S, n):
    which = S.pick('which', [[0], [0, 1], [1, 2], []])
    xs = [entry(S, i) for i in which]
    before = [(key(x), facts(x)) for x in xs]
    first = MetricDataCollection(xs)
    mdc = MetricDataCollection(first) if S.flag('copy') else MetricDataCollection(xs)
    model = {key(x): facts(x) for x in xs}
    for _ in range(n):
        op = S.pick('op', OPS)
        model = alter(S, mdc, model, op)
        S.check_eq(content(S, mdc), model, 'after %s' % op)
        S.reach(op)
    S.check_eq([(key(x), facts(x)) for x in xs], before, 'the entries it was made of')
    S.check_eq(content(S, first), dict(before), 'the collection it was made of')
    S.reach('original')


@R.harness(quick=[dict()], labels=['equal', 'strict', 'different', 'value'],
           bounds='any two collections of up to 3 entries with any values')
def comparing(S):
    a, ma = build(S, subset(S, 'left'), True)
    b, mb = build(S, subset(S, 'right'), True)
    same = set(ma) == set(mb)
    S.check((a == b) == same and (b == a) == same, 'the same entries')
    strict = S.And(same, *[S.eq(ma[k][0], mb[k][0]) for k in ma]) if same else False
    S.check_eq(a.strict_eq(b), strict, 'and values')
    S.check_eq(b.strict_eq(a), strict, 'and values')
    S.reach('equal' if same else 'different')
    if same and ma:
        S.reach('strict' if bool(strict) else 'value')
    S.check(a.strict_eq(a), 'equal to itself')


@R.harness(quick=[dict()], labels=['stamped', 'internal', 'empty', 'prefix', 'args', 'copy'],
           bounds='any collection of up to 3 entries of any kind')
def as_json(S):
    mdc, model = build(S, subset(S, 'which'))
    out = mdc.to_json()
    S.check(len(out) == len(model), 'as many')
    snapshot = [dict(x) for x in out]
    for _ in range(2):
        back = MetricDataCollection.from_json(out)
        S.check_eq(content(S, back), model, 'the same')
        S.check(back.strict_eq(mdc) and mdc.strict_eq(back), 'equal')
        S.check_eq(out, snapshot, 'the argument is left as it was')
    S.check_eq(content(S, mdc), model, 'it is left as it was')
    for x in mdc.values:
        y = MetricData.from_json(x.to_json('pre'))
        S.check_eq((y.name, y.value, dict(y.labels), y.timestamp, y.internal),
                   ('pre.' + x.name, x.value, dict(x.labels), x.timestamp, x.internal), 'prefixed')
        S.reach('prefix')
        if x.internal:
            S.reach('internal')
        if x.timestamp is not None:
            S.reach('stamped')
    if not model:
        S.reach('empty')
    S.reach('args')
    S.reach('copy')
