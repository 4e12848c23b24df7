import math
import threading
import warnings
from concurrent.futures import Future

from engine.harness import Registry
from engine.sched import Threads
from engine.timestub import controlled
from props.lib import Clock
from satella.coding.transforms import percentile
from satella.exceptions import MetricAlreadyExists
from satella.instrumentation import metrics as module
from satella.instrumentation.metrics import AggregateMetric, LabeledMetric, MetricLevel, getMetric
from satella.instrumentation.metrics.metric_types import METRIC_NAMES_TO_CLASSES
from satella.instrumentation.metrics.structures import (
    MetrifiedCacheDict, MetrifiedExclusiveWritebackCache, MetrifiedLRUCacheDict, MetrifiedThreadPoolExecutor)

R = Registry('C27', assumptions=[
    'every run starts from a registry that was reset', 'the clock is non-decreasing',
    'a metric is given either labelled values only, or unlabelled values only'])
warnings.simplefilter('ignore', DeprecationWarning)
DISABLED, RUNTIME, DEBUG, INHERIT = (MetricLevel.DISABLED, MetricLevel.RUNTIME, MetricLevel.DEBUG,
                                     MetricLevel.INHERIT)


def clean():
    getMetric('').reset()


def report(S, metric):
    """{(name, labels): value}"""
    out = {}
    for d in metric.to_metric_data().values:
        k = d.name, frozenset(d.labels.items())
        S.check(k not in out, 'reported twice')
        out[k] = d.value
    return out


def facts(S, metric):
    """{(name, labels): (timestamp, internal)}"""
    return {(d.name, frozenset(d.labels.items())): (d.timestamp, d.internal)
            for d in metric.to_metric_data().values}


def key(name, **labels):
    return name, frozenset(labels.items())


# ---------------------------------------------------------------- levels

NAMES = ['', 'a', 'a.b', 'a.b.m']


@R.harness(quick=[dict(again=1)], thorough=[dict(again=2)],
           labels=['accepted', 'refused', 'reported', 'hidden', 'reported2', 'root_inherit'],
           bounds='a chain of three metrics below the root at any levels, "again" of which are changed after a value '
                  'was reported at any level')
def levels(S, again):
    clean()
    lv = {}
    ms = {n: getMetric(n, 'counter' if n == 'a.b.m' else 'base') for n in NAMES}

    def change(n):
        to = S.pick('level', [DISABLED, RUNTIME, DEBUG] + ([INHERIT] if n else []))
        if S.flag('via_get'):
            S.check(getMetric(n, 'counter' if n == 'a.b.m' else 'base', to) is ms[n], 'the same metric')
        else:
            ms[n].level = to
        lv[n] = to

    def effective(n):
        while lv[n] == INHERIT:
            n = n.rpartition('.')[0]
        return lv[n]

    for n in NAMES:
        lv[n] = S.pick('level', [DISABLED, RUNTIME, DEBUG] + ([INHERIT] if n else []))
        ms[n].level = lv[n]
    for n in NAMES:
        S.check(ms[n].level == effective(n), 'the level in effect')
    if not S.flag('debug'):
        ms['a.b.m'].runtime(5)
        ok = effective('a.b.m').value >= RUNTIME.value
    else:
        ms['a.b.m'].debug(5)
        ok = effective('a.b.m').value >= DEBUG.value
    S.reach('accepted' if ok else 'refused')
    for _ in range(again):
        change(S.pick('which', NAMES))
    for n in NAMES:
        S.check(ms[n].level == effective(n), 'the level in effect')
    for i, n in enumerate(NAMES):
        chain = NAMES[i:]
        shown = all(effective(y).value <= effective(x).value for x, y in zip(chain, chain[1:]))
        full = '.'.join(x.rpartition('.')[2] for x in chain if x)
        S.check_eq(report(S, ms[n]), {key(full): 5 if ok else 0} if shown else {}, 'report of %s' % n)
        S.reach('reported' if shown else 'hidden')
        if ok and shown and effective('a.b.m') == DEBUG:
            S.reach('reported2')
    r, _ = S.raises(AssertionError, setattr, ms[''], 'level', INHERIT)
    S.check(r, 'the root cannot inherit')
    S.reach('root_inherit')


# -------------------------------------------------------------- registry

@R.harness(quick=[dict()], labels=['root', 'nothing'],
           bounds='a root of any level with or without metrics, reset; a counter handled without a value up to 3 times')
def resetting(S):
    clean()
    root = getMetric()
    m = getMetric('a.c', 'counter', count_calls=True) if S.flag('metrics') else None
    n = S.choice('calls', 4)
    if m is not None:
        m.runtime(5)
        for _ in range(n):
            m.runtime()
        S.check_eq({(d.name, d.value) for d in root.to_metric_data().values}, {('a.c', 5), ('a.c.count', n + 1)},
                   'no value adds nothing')
        S.reach('nothing')
    level = S.pick('level', [RUNTIME, DEBUG, DISABLED])
    root.level = level
    root.reset()
    S.check(root.level == RUNTIME, 'a root that was reset is at RUNTIME')
    S.check_eq(root.to_metric_data().values, set(), 'a root that was reset has no metrics')
    S.check_eq(getMetric().to_metric_data().values, set(), 'nor has the new one')
    S.check(getMetric().level == RUNTIME, 'the level of the new one')
    S.reach('root')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['new', 'same', 'other_type', 'leaf_parent', 'reset', 'internal', 'level', 'chain'],
           bounds='any n requests for any of 4 nested names, of two types, with or without a level and an option, or '
                  'resets of a metric')
def registry(S, n):
    clean()
    root = getMetric()
    model = {'': ('base', RUNTIME, False, root)}    # name -> type, level, internal, metric
    handled = {}

    def parent(name):
        return name.rpartition('.')[0]

    def effective(name):
        while model[name][1] == INHERIT:
            name = parent(name)
        return model[name][1]

    for _ in range(n):
        name = S.pick('name', ['x', 'x.y', 'x.y.z', 'w'])
        op = S.pick('op', ['base', 'int', 'int', 'int!', 'reset'][1 if name == 'x.y.z' else 0:])
        if op == 'reset':
            if name not in model:
                S.assume(False)
            gone = model[name][3]
            gone.reset()
            S.check_eq(gone.to_metric_data().values, set(), 'a metric that was reset has no children') \
                if model[name][0] == 'base' else None
            for m in list(model):
                if m == name or m.startswith(name + '.'):
                    del model[m]
                    handled.pop(m, None)
            S.reach('reset')
        else:
            typ = op.rstrip('!')
            kw = {'internal': True} if op == 'int!' else {}
            level = DEBUG if op == 'int!' else None
            chain = [name]
            while parent(chain[0]):
                chain.insert(0, parent(chain[0]))
            if name in model and model[name][0] != typ:
                r, e = S.raises(MetricAlreadyExists, getMetric, name, typ, level, **kw)
                S.check(r, 'the type differs')
                S.check((e.name, e.requested_type, e.existing_type) == (name, typ, model[name][0]), 'details')
                S.reach('other_type')
            elif any(c in model and model[c][0] == 'int' for c in chain[:-1]):
                r, _ = S.raises(TypeError, getMetric, name, typ, level, **kw)
                S.check(r, 'a leaf accepts no children')
                S.reach('leaf_parent')
            else:
                m = getMetric(name, typ, level, **kw)
                if name in model:
                    S.check(m is model[name][3], 'the same metric')
                    t, lv, internal, _ = model[name]
                    model[name] = t, level or lv, internal, m
                    S.reach('same')
                else:
                    for c in chain[:-1]:
                        if c not in model:
                            model[c] = 'base', level or INHERIT, False, module.metrics[c]
                            S.reach('chain')
                    model[name] = typ, level or INHERIT, bool(kw), m
                    S.reach('new')
                    S.reach('level' if level else 'internal')
                if typ == 'int':
                    m.debug(len(handled) + 3)
                    if effective(name) == DEBUG:
                        handled[name] = len(handled) + 3
    for name, (typ, lv, internal, m) in model.items():
        S.check(getMetric(name, typ) is m, 'the same metric')
        S.check(m.level == effective(name), 'the level of %s' % name)
        S.check(m.internal == internal, 'the option of %s' % name)
    expected = {}
    for name, (typ, lv, internal, m) in model.items():
        if typ != 'int':
            continue
        x = name
        while x and effective(x).value <= effective(parent(x)).value:
            x = parent(x)
        if not x:
            expected[key(name)] = handled.get(name, 0)
    S.check_eq(report(S, root), expected, 'everything is reported once')
    S.check(facts(S, root) == {k: (None, model[k[0]][2]) for k in expected}, 'internal')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['allowed', 'forbidden'],
           bounds='names of n characters, of several kinds each')
def names(S, n):
    clean()
    chars = [S.pick('char', ['a', 'Z', '7', ':', '_', '-', ' ', '/', '\n', 'é', '$']) for _ in range(n)]
    name = ''.join(chars)
    if all(c in 'aZ7:_' for c in chars):
        S.check(getMetric(name, 'int').get_fully_qualified_name() == name, 'its name')
        S.check(getMetric(name, 'int') is getMetric(name, 'int'), 'the same')
        S.reach('allowed')
    else:
        r, _ = S.raises(ValueError, getMetric, name, 'int')
        S.check(r, 'a forbidden character')
        S.check(report(S, getMetric()) == {}, 'nothing was created')
        S.reach('forbidden')


# -------------------------------------------------------- simple metrics

LABELS = [{}, {'k': 1}, {'k': 2}, {'k': 1, 'l': 2}, {'l': 2, 'k': 1}]


def label_sets(S, n, name='labels', sets=4):
    """n sets: either empty, or all of them non-empty"""
    if S.flag('labelled'):
        return [S.pick(name, LABELS[1:sets]) for _ in range(n)]
    return [{}] * n


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['int', 'float', 'counter', 'labelled', 'unlabelled', 'timestamps', 'wrapper', 'fresh', 'specific'],
           bounds='n values of any kind given to metrics, with labels or without, directly or by LabeledMetric and '
                  'AggregateMetric, at any time')
def values(S, n):
    clean()
    kind = S.pick('kind', ['int', 'float', 'counter'])
    opts = {}
    if kind == 'counter':
        opts['count_calls'] = S.flag('count_calls')
        opts['sum_children'] = S.flag('sum_children')
    opts['internal'] = S.flag('internal')
    with controlled(Clock(S, lo=10)) as clock:
        stamped = n < 4 and S.flag('stamped')
        m = getMetric('m', kind, enable_timestamp=stamped, **opts)
        other = getMetric('o', 'counter')
        labels = label_sets(S, n, sets=5)
        calls = S.choice('calls', n + 1)
        via = S.pick('via', ['direct', 'labeled', 'aggregate'])
        state, times = {}, {}
        first = last = clock.now
        for lab in labels[:calls]:
            if kind == 'counter':
                v = S.int('v')
            elif kind == 'int':
                v = S.int('v', 0, 1)
            else:
                v = S.choice('half', 2) / 2
            if stamped:
                clock.advance()
            if via == 'direct':
                m.runtime(v, **lab)
            elif via == 'labeled':
                LabeledMetric(m, **lab).runtime(v)
                S.reach('wrapper')
            else:
                AggregateMetric(m, other).runtime(v, **lab)
            k = frozenset(lab.items())
            state[k] = state.get(k, 0) + v if kind == 'counter' else v
            times[k] = last = clock.now
        labelled = calls > 0 and bool(labels[0])
        clock.advance()
        expected, when = {}, {}
        total = sum(state.values()) if kind == 'counter' else None
        if labelled:
            S.reach('labelled')
            for k in state:
                expected['m', k] = state[k]
                when['m', k] = times[k]
            if kind == 'counter':
                if opts['sum_children']:
                    expected[key('m.sum')] = total
                    when[key('m.sum')] = last
                # number of calls with each set of labels is counted separately, too
                if opts['count_calls']:
                    for k in state:
                        expected['m.count', k] = sum(1 for x in labels[:calls] if frozenset(x.items()) == k)
                        when['m.count', k] = times[k]
                    expected[key('m.count')] = calls
                    when[key('m.count')] = last
        else:
            S.reach('unlabelled' if calls else 'fresh')
            expected[key('m')] = state.get(frozenset(), 0)
            when[key('m')] = last
            if kind == 'counter' and opts['count_calls']:
                expected[key('m.count')] = calls
                when[key('m.count')] = last
        S.check_eq(report(S, m), expected, 'reported')
        for k, (ts, internal) in facts(S, m).items():
            S.check(internal == opts['internal'], 'internal')
            if stamped:
                S.check_eq(ts, when[k], 'timestamp')
                S.reach('timestamps')
            else:
                S.check(ts is None, 'no timestamp')
        if labelled:
            lab = labels[0]
            one = {(d.name, frozenset(d.labels.items())): d.value for d in m.get_specific_metric_data(lab).values}
            S.check_eq(one, {k: v for k, v in expected.items() if k[1] == frozenset(lab.items())}, 'specific')
            S.reach('specific')
        if via == 'aggregate':
            S.check_eq(sum(v for (name, _), v in report(S, other).items() if name == 'o'),
                       total if kind == 'counter' else sum(report(S, other)[k] for k in report(S, other)
                                                           if k[0] == 'o'), 'the other metric')
    S.reach(kind)


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['in', 'out', 'labelled', 'unlabelled', 'no_total'],
           bounds='n clicks at any times, with labels or without, read at any time; two periods of 3 and of 1..5')
def clicks(S, n):
    clean()
    with controlled(Clock(S, lo=0)) as clock:
        p = S.pick('period', [1, 5])
        agg = S.flag('aggregate')
        m = getMetric('m', 'cps', time_unit_vectors=[3, p], aggregate_children=agg)
        labels = label_sets(S, n)
        times = []
        for lab in labels:
            clock.advance()
            m.runtime(**lab)
            times.append(clock.now)
        clock.advance()
        out = report(S, m)
        for t in times:
            for q in (3, p):
                S.assume(clock.now - t != q)
                # whether clicks exactly so old are kept depends on later clicks
        expected = {}
        for period in (3, p):
            ages = [(frozenset(lab.items()), clock.now - t < period) for lab, t in zip(labels, times)]
            if not labels[0]:
                expected[key('m', period=period)] = S.Sum([a for _, a in ages])
                S.reach('unlabelled')
                continue
            S.reach('labelled')
            for lab in labels:
                k = frozenset(lab.items())
                expected[key('m', period=period, **lab)] = S.Sum([a for x, a in ages if x == k])
            if agg:
                expected[key('m.total', period=period)] = S.Sum([a for _, a in ages])
            else:
                S.reach('no_total')
        S.check(set(out) == set(expected), 'what is reported')
        for k in expected:
            S.check_eq(out[k], expected[k], 'number of clicks')
        S.reach('in' if bool(clock.now - times[0] < 3) else 'out')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['negative', 'first', 'middle', 'last', 'labelled', 'no_total'],
           bounds='n values of any kind, with labels or without, over two buckets')
def histogram(S, n):
    clean()
    agg = S.flag('aggregate')
    internal = S.flag('internal')
    m = getMetric('m', 'histogram', buckets=[1, 4], aggregate_children=agg, internal=internal)
    limits = [(0.0, 1), (1, 4), (4, math.inf)]
    labels = label_sets(S, n)
    vals = []
    for lab in labels:
        v = S.real('v')
        m.runtime(v, **lab)
        vals.append(v)
    expected = {}

    def entries(name, lab, vs):
        for lo, hi in limits:
            expected[key(name, le=lo, ge=hi, **lab)] = S.Sum(
                [v >= lo if hi == math.inf else S.And(v >= lo, v < hi) for v in vs])
        expected[key(name + '.sum', **lab)] = sum(vs)
        expected[key(name + '.count', **lab)] = len(vs)

    if labels[0]:
        for lab in labels:
            entries('m', lab, [v for v, x in zip(vals, labels) if x == lab])
        if agg:
            entries('m.total', {}, vals)
        else:
            S.reach('no_total')
        S.reach('labelled')
    else:
        entries('m', {}, vals)
    out = report(S, m)
    S.check(set(out) == set(expected), 'what is reported')
    for k in expected:
        S.check_eq(out[k], expected[k], 'values')
    S.check(all(f == (None, internal) for f in facts(S, m).values()), 'internal')
    S.reach('negative' if bool(vals[0] < 0) else 'first' if bool(vals[0] < 1) else
            'middle' if bool(vals[0] < 4) else 'last')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['labelled', 'unlabelled', 'forgotten', 'empty', 'no_total'],
           bounds='up to n values of any kind, with labels or without, window of 2 or all')
def summary(S, n):
    clean()
    window = S.pick('window', [2, 100])
    agg, count = S.flag('aggregate'), S.flag('count')
    m = getMetric('m', 'summary' if count else S.pick('type', ['summary', 'quantile']), last_calls=window, quantiles=(0.5, 0.95), aggregate_children=agg,
                  count_calls=count)
    n = S.choice('n', n + 1)
    labels = label_sets(S, n)
    vals = [S.int('v') for _ in labels]
    for lab, v in zip(labels, vals):
        m.runtime(v, **lab)
    expected = {}

    def quantiles(name, lab, vs):
        vs = sorted(vs)
        for q in (0.5, 0.95):
            expected[key(name, quantile=q, **lab)] = percentile(vs, q) if vs else 0

    def totals(lab, vs):
        if count:
            expected[key('m.count', **lab)] = len(vs)
            expected[key('m.sum', **lab)] = sum(vs)

    if labels and labels[0]:
        kept = []
        for lab in LABELS[1:4]:
            vs = [v for v, x in zip(vals, labels) if x == lab]
            if vs:
                quantiles('m', lab, vs[-window:])
                totals(lab, vs)
                kept += vs[-window:]
                if len(vs) > window:
                    S.reach('forgotten')
        if agg:
            quantiles('m.total', {}, kept)
        else:
            S.reach('no_total')
        totals({}, vals)
        S.reach('labelled')
    else:
        quantiles('m', {}, vals[-window:])
        totals({}, vals)
        S.reach('unlabelled' if vals else 'empty')
    S.check_eq(report(S, m), expected, 'report')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)],
           labels=['offline', 'online', 'labelled', 'two', 'mixed'],
           bounds='any n results of one or two links, with labels or without; thresholds 1..2')
def linkfail(S, n):
    clean()
    fails, oks = S.pick('fails', [1, 2]), S.pick('oks', [1, 2])
    log = []
    internal = S.flag('internal')
    m = getMetric('m', 'linkfail', consecutive_failures_to_offline=fails, consecutive_successes_to_online=oks,
                  callback_on_online=lambda a, labels: log.append(('on', a, dict(labels))),
                  callback_on_offline=lambda a, labels: log.append(('off', a, dict(labels))), internal=internal)
    lab = {'k': 1} if S.flag('labelled') else {}
    model, events = {}, []                  # address -> online, successes, failures
    two = S.flag('two')
    default = S.flag('default')
    for _ in range(n):
        a = S.pick('address', [0, 1]) if two else 0
        ok = S.flag('ok')
        if a == 0 and default:
            m.runtime(ok, **lab)
        else:
            m.runtime(ok, a, **lab)
        on, s, f = model.get(a, (True, 0, 0))
        s, f = (s + 1, 0) if ok else (0, f + 1)
        if on and f == fails:
            on = False
            events.append(('off', a, lab))
            S.reach('offline')
        elif not on and s == oks:
            on = True
            events.append(('on', a, lab))
            S.reach('online')
        model[a] = on, s, f
    S.check(log == events, 'the callbacks')
    expected = {}
    for a, (on, s, f) in model.items():
        labels = dict(lab)
        if set(model) != {0}:
            labels['address'] = a
        expected[key('m.status', **labels)] = int(on)
        expected[key('m.consecutive_failures', **labels)] = f
        expected[key('m.consecutive_successes', **labels)] = s
    if lab:
        S.reach('labelled')
    if len(model) == 2:
        S.reach('two')
        if model[0][0] != model[1][0]:
            S.reach('mixed')
    S.check(report(S, m) == expected, 'the report')
    S.check(all(f == (None, internal) for f in facts(S, m).values()), 'internal')


@R.harness(quick=[dict()], labels=['callable', 'labeled', 'uptime', 'empty', 'types'],
           bounds='any values returned at any times')
def readers(S):
    clean()
    with controlled(Clock(S, lo=3)) as clock:
        now = {'v': S.int('v')}
        c = getMetric('c', 'callable', value_getter=(lambda: now['v']) if S.flag('getter') else None,
                      labels={'z': 0})
        labelled = S.choice('labelled', 3)
        for i in range(labelled):
            LabeledMetric(c, k=i, callable=lambda i=i: now['v'] + i + 1)
            S.reach('labeled')
        u = getMetric('u', 'uptime')
        start = clock.now
        count = {'v': 5}
        u2 = getMetric('u2', 'uptime', time_getter=lambda: count['v'])
        e = getMetric('e', 'empty', whatever=5)
        for _ in range(2):
            now['v'] = S.int('v')
            clock.advance()
            count['v'] += 2
            expected = {key('c', z=0, k=i): now['v'] + i + 1 for i in range(labelled)}
            if c.callable:
                expected[key('c', z=0)] = now['v']
                S.reach('callable')
            expected[key('u')] = clock.now - start
            expected[key('u2')] = count['v'] - 5
            e.runtime(5, a=6)
            S.check_eq(report(S, getMetric()), expected, 'the report')
            S.check_eq(sorted(k[0] for k in facts(S, getMetric())), sorted(k[0] for k in expected), 'names')
            for k, (ts, _) in facts(S, c).items():
                S.check_eq(ts, clock.now, 'taken now')
            S.reach('uptime')
            S.reach('empty')
    for m in (c, u):
        r, _ = S.raises(TypeError, m.runtime, 2)
        S.check(r, 'takes no values')
    r, _ = S.raises(TypeError, getMetric('base').runtime, 2)
    S.check(r, 'a container')
    for name, cls in METRIC_NAMES_TO_CLASSES.items():
        S.check(cls.CLASS_NAME == name, 'registered')
    S.reach('types')


# -------------------------------------------------------------- measuring

class Oops(Exception):
    pass


class Stop(BaseException):
    pass


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['function', 'generator', 'context', 'future', 'raised', 'not_included', 'labelled', 'debug',
                   'two'],
           bounds='n measurements of any duration by a counter, of a function, a generator, a block or a future')
def measuring(S, n):
    clean()
    with controlled(Clock(S, lo=0)) as clock:
        m = getMetric('m', 'counter', count_calls=True)
        debug = S.flag('debug')
        kind = S.pick('kind', ['function', 'generator', 'context', 'future'])
        include = kind == 'future' or S.flag('include')
        lab = {'k': 3} if S.flag('labelled') else {}
        kw = {} if not debug else {'logging_level': DEBUG}
        own = S.flag('getter')
        level = S.pick('level', [RUNTIME, DEBUG])
        m.level = level
        ticks = {'v': 0}

        def tick():
            return ticks['v']

        if own:
            kw['value_getter'] = tick
        kw.update(lab)
        total, calls = 0, 0
        if kind != 'future':
            measure = m.measure(include_exceptions=include, **kw)

        def body(x, error):
            clock.advance()
            ticks['v'] = ticks['v'] + x
            if error is not None:
                raise error
            return x + 1

        f = measure(body) if kind == 'function' else None

        def gen(x, error):
            yield 1
            body(x, error)
            yield 2
            return 3

        g = measure(gen) if kind == 'generator' else None
        for _ in range(n):
            x = S.int('x', 0)
            error = Oops() if S.flag('error') else None
            clock.advance()
            ticks['v'] = ticks['v'] + S.int('between', 0)
            before = ticks['v'] if own else clock.now
            if kind == 'function':
                r, v = S.raises(Oops, f, x, error)
                S.check(r == (error is not None) and (v is error if r else True), 'the exception')
                if not r:
                    S.check_eq(v, x + 1, 'the result')
            elif kind == 'generator':
                it = g(x, error)
                S.check(next(it) == 1, 'first')
                r, v = S.raises(Oops, next, it)
                S.check(r == (error is not None) and (v is error if r else v == 2), 'then')
                if not r:
                    rr, v = S.raises(StopIteration, next, it)
                    S.check(rr and v.value == 3, 'the end')
            elif kind == 'context':
                def block():
                    with measure:
                        body(x, error)
                r, v = S.raises(Oops, block)
                S.check(r == (error is not None) and (v is error if r else True), 'the exception')
            else:
                fut = Future()
                m.measure_future(fut, **kw)
                clock.advance()
                if S.flag('two'):
                    other = getMetric('other', 'counter')
                    other.level = RUNTIME
                    other.measure_future(fut)
                    S.reach('two')
                clock.advance()
                ticks['v'] = ticks['v'] + x
                if error is None:
                    fut.set_result(1)
                else:
                    fut.set_exception(error)
            after = ticks['v'] if own else clock.now
            if error is not None:
                S.reach('raised')
            if (error is None or include) and (not debug or level == DEBUG):
                total, calls = total + after - before, calls + 1
            elif error is not None and not include:
                S.reach('not_included')
            clock.advance()
        expected = {}
        if lab and calls:
            expected[key('m', **lab)] = total
            expected[key('m.count', **lab)] = calls
            expected[key('m.sum')] = total
            expected[key('m.count')] = calls
            S.reach('labelled')
        else:
            expected[key('m')] = total
            expected[key('m.count')] = calls
        S.check_eq(report(S, m), expected, 'what was measured')
        S.reach(kind)
        if debug:
            S.reach('debug')


# ----------------------------------------------------------------- caches

class Demanded(Future):
    """the job runs when its result is needed, unless it did before"""

    def __init__(self, executor):
        super().__init__()
        self.executor = executor

    def result(self, timeout=None):
        while not self.done():
            self.executor.run()
        return super().result(0)


class Executor:
    def __init__(self):
        self.queue = []

    def submit(self, fn, *args):
        f = Demanded(self)
        self.queue.append((f, fn, args))
        return f

    def run(self):
        f, fn, args = self.queue.pop(0)
        try:
            v = fn(*args)
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(v)


@R.harness(quick=[dict(n=4, keys=1), dict(n=4, keys=2)], thorough=[dict(n=6, keys=1), dict(n=5, keys=2)],
           labels=['hit', 'miss', 'stale', 'failed', 'evicted', 'known_failure'],
           bounds='n reads of one or two keys at any times from a CacheDict or an LRUCacheDict of one entry, the '
                  'getter failing at will, refreshes taking any time')
def caches(S, n, keys):
    clean()
    clock = Clock(S, lo=0)
    hits, misses, refreshes = (getMetric(x, 'counter') for x in ('hits', 'misses', 'refreshes'))
    long = getMetric('long', 'counter', count_calls=True)
    evictions = getMetric('evictions', 'counter')
    stats = dict(hits=0, misses=0, refreshes=0, long=0, evictions=0)
    spent = [0]
    model = {}                          # key -> (kind, when)

    def getter(k):
        t = clock.now
        clock.advance()
        spent[0] = spent[0] + clock.now - t
        stats['refreshes'] += 1
        if S.flag('fails'):
            last[0] = None
            raise KeyError(k)
        last[0] = 7
        return 7

    last = [None]
    kw = dict(cache_hits=hits, cache_miss=misses, refreshes=refreshes, how_long_refresh_takes=long,
              time_getter=clock)
    lru = keys == 2
    ex = Executor()
    fail = 4 if keys == 1 else None
    if lru:
        cd = MetrifiedLRUCacheDict(5, 10, getter, ex, evictions=evictions, max_size=1, **kw)
    else:
        cd = MetrifiedCacheDict(5, 10, getter, ex, cache_failures_interval=fail, **kw)
    evicted = 0

    def loaded(k):
        nonlocal evicted
        if last[0] is None:
            model.pop(k, None)
            if fail:
                model[k] = 'failure', clock.now
            S.reach('failed')
        else:
            if lru and k not in model:
                for x in [x for x in model if x != k]:
                    del model[x]
                    evicted += 1
                    S.reach('evicted')
            model[k] = 'value', clock.now

    for _ in range(n):
        k = S.pick('key', ['a', 'b'][:keys])
        clock.advance()
        known = model.get(k)
        if known is not None and bool(clock.now - known[1] > (10 if known[0] == 'value' else fail)):
            known = None
        r, v = S.raises(KeyError, cd.__getitem__, k)
        if known is None:
            stats['misses'] += 1
            S.reach('miss')
            S.check(r == (last[0] is None), 'the outcome')
            loaded(k)
        else:
            stats['hits'] += 1
            S.reach('hit')
            if known[0] == 'failure':
                S.check(r, 'the failure is known')
                S.reach('known_failure')
            else:
                S.check(not r and v == 7, 'the value')
                if ex.queue:
                    S.reach('stale')
                    ex.run()
                    loaded(k)
    for name, m in (('hits', hits), ('misses', misses), ('refreshes', refreshes)):
        S.check_eq(report(S, m), {key(name): stats[name]}, name)
    S.check_eq(report(S, long), {key('long'): spent[0], key('long.count'): stats['refreshes']}, 'how long')
    S.check_eq(report(S, evictions), {key('evictions'): evicted}, 'evictions')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=5)], labels=['hit', 'miss', 'missing', 'known_missing'],
           bounds='any n reads, writes and deletions of 2 keys')
def writeback(S, n):
    clean()
    storage = {'a': 1}

    class Now:
        def submit(self, fn, *args):
            ex = Executor()
            f = ex.submit(fn, *args)
            ex.run()
            return f

    hits, misses = getMetric('hits', 'counter'), getMetric('misses', 'counter')
    waiting = getMetric('waiting', 'callable')
    store = S.flag('store')
    wbc = MetrifiedExclusiveWritebackCache(storage.__setitem__, storage.__getitem__,
                                           lambda k: storage.pop(k, None), Now(), cache_hits=hits,
                                           cache_miss=misses, entries_waiting=waiting, store_key_errors=store)
    known = set()
    h = m = 0
    for _ in range(n):
        k = S.pick('key', ['a', 'b'])
        op = S.pick('op', ['get', 'set', 'del'])
        if op == 'get':
            if k in known:
                h += 1
                S.reach('hit')
            else:
                m += 1
                S.reach('miss')
            gone = k not in storage
            r, v = S.raises(KeyError, wbc.__getitem__, k)
            S.check(r == gone, 'the outcome')
            if gone:
                S.reach('known_missing' if k in known else 'missing')
            if not r or store:
                known.add(k)
        elif op == 'set':
            wbc[k] = 5
            known.add(k)
        else:
            if not store and k in known:
                S.assume(False)         # see C06: whether the key is known afterwards is not specified
            del wbc[k]
            if store:
                known.add(k)
        S.check(report(S, waiting) == {key('waiting'): wbc.get_queue_length()}, 'entries waiting')
    S.check(report(S, hits) == {key('hits'): h}, 'hits')
    S.check(report(S, misses) == {key('misses'): m}, 'misses')


# ------------------------------------------------------------ thread pool

POOL = ['instrumentation/metrics/structures/threadpool']


@R.harness(quick=[dict(n=1, most=2, switches=1), dict(n=2, most=2, switches=0), dict(n=2, most=1, switches=0)],
           thorough=[dict(n=2, most=2, switches=1), dict(n=2, most=1, switches=1), dict(n=3, most=2, switches=1), dict(n=2, most=2, switches=2), dict(n=3, most=1, switches=2)],
           labels=['ran', 'failed', 'dropped', 'waited', 'parallel', 'shutdown'],
           bounds='n tasks of any duration up to 3, submitted at any times to a pool of "most" threads, that is '
                  'dropped or not; "switches" preemptions')
def pool(S, n, most, switches):
    clean()
    log = []
    waiting = getMetric('waiting', 'counter', count_calls=True)
    executing = getMetric('executing', 'counter', count_calls=True)
    queued = getMetric('queued', 'callable')
    mode = S.pick('mode', ['plain', 'fails', 'drop'])
    drop, fails = mode == 'drop', mode == 'fails'
    durations = [S.int('duration', 0, 3) for _ in range(n)]
    gaps = [0] + [S.int('gap', 0, 3) if most == 1 else S.choice('gap', 2) for _ in range(n - 1)]
    running, names = [0, 0], set()
    with Threads(S, switches, focus=POOL) as sc:
        ex = MetrifiedThreadPoolExecutor(max_workers=most, thread_name_prefix='abc',
                                         time_spent_waiting=waiting, time_spent_executing=executing,
                                         waiting_tasks=None if drop else queued)
        limit = ex._max_workers
        submitted, started = [], {}

        def task(i, extra=0):
            started[i] = sc.now
            log.append(i)
            names.add(threading.current_thread().name)
            running[0] += 1
            running[1] = max(running)
            sc.sleep(durations[i])
            running[0] -= 1
            if fails and i == 0:
                raise Oops(i)
            return i + extra

        futures = []
        for i in range(n):
            sc.sleep(gaps[i])
            submitted.append(sc.now)
            futures.append(ex.submit(task, i, extra=5))
        if drop:
            del ex
            S.reach('dropped')
        for i, f in enumerate(futures):
            r, v = S.raises(Oops, f.result)
            S.check(r == (fails and i == 0) and (r or v == i + 5), 'the outcome')
            S.reach('failed' if r else 'ran')
        if not drop:
            S.check(report(S, queued) == {key('queued'): 0}, 'no tasks are waiting')
            ex.shutdown()
            r, _ = S.raises(RuntimeError, ex.submit, task, 0)
            S.check(r, 'shut down')
            S.reach('shutdown')
        sc.settle()
        S.check(not sc.crashes, 'a thread failed')
        S.check(not sc.alive(), 'all the threads ended')
        S.check(sorted(log) == list(range(n)), 'each task ran once')
        S.check(running[1] <= limit, 'too many threads')
        S.check(all(x.startswith('abc_') for x in names), 'names of the threads')
        if running[1] > 1:
            S.reach('parallel')
    w, e = report(S, waiting), report(S, executing)
    if not drop:
        S.check_eq(w, {key('waiting'): sum(started[i] - submitted[i] for i in range(n)),
                       key('waiting.count'): n}, 'time spent waiting')
        S.check_eq(e, {key('executing'): sum(durations), key('executing.count'): n}, 'time spent executing')
        if bool(w[key('waiting')] > 0):
            S.reach('waited')
