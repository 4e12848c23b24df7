import importlib.util
import weakref

from engine.harness import Registry
from engine.sched import Threads
from props.lib import Clock
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict
import satella.coding.structures.dictionaries.expiring as expiring

R = Registry('C07', assumptions=['clock readings are integers, non-decreasing; '
                                 'the background cleaner is represented by cleanup() in '
                                 'the histories of operations, and is run as is in background_cleaner'])


@R.harness(quick=[dict(k=3, keys=1), dict(k=2, keys=2)], thorough=[dict(k=4, keys=1), dict(k=3, keys=2), dict(k=2, keys=3)],
           labels=['alive', 'expired', 'missing', 'in', 'not_in', 'deleted', 'del_missing', 'iter', 'len',
                   'cleanup', 'rewritten', 'pop', 'timestamp'],
           bounds='initial entries, then k operations of any kind on `keys` keys at arbitrary instants, '
                  'arbitrary timeout')
def expiring_dict(S, k, keys):
    clock = Clock(S)
    timeout = S.int('timeout', 0)
    names = [0, 'one', None][:keys]     # cannot be ordered
    init = {x: v for x, v in zip(names, [None, 0, '']) if S.flag('init')}
    d = ExpiringEntryDict(timeout, init, time_getter=clock)
    model = {x: (init[x], timeout) for x in init}   # value, deadline

    def alive(x):
        """the entry is there; forks"""
        return x in model and bool(clock.now <= model[x][1])

    for i in range(k):
        clock.advance()
        op = S.pick('op', ['get', 'mget', 'set', 'del', 'in', 'iter', 'len', 'cleanup', 'pop', 'timestamp'])
        key = S.pick('key', names) if op not in ('iter', 'len', 'cleanup') else 0
        if op in ('get', 'mget', 'pop'):
            r, v = S.raises(KeyError, {'get': d.__getitem__, 'pop': d.pop,
                                       'mget': lambda x: d.get(x, 'nope')}[op], key)
            if v == 'nope':
                r = True
            if alive(key):
                S.check(not r and type(v) is type(model[key][0]) and v == model[key][0], 'value of a live entry')
                S.reach('alive')
                if op == 'pop':
                    S.reach('pop')
                    del model[key]
            else:
                S.check(r, 'an expired entry is gone')
                S.reach('expired' if key in model else 'missing')
                model.pop(key, None)
        elif op == 'set':
            if key in model:
                S.reach('rewritten')
            d[key] = i
            model[key] = (i, clock.now + timeout)
        elif op == 'timestamp':
            r, ts = S.raises(KeyError, d.get_timestamp, key)
            if alive(key):
                S.check(not r, 'a live entry has a timestamp')
                S.check_eq(ts, model[key][1] - timeout, 'when it was inserted')
                S.reach('timestamp')
            else:
                S.check(r, 'no timestamp without an entry')
                model.pop(key, None)
        elif op == 'del':
            r, _ = S.raises(KeyError, d.__delitem__, key)
            if alive(key):
                S.check(not r, 'deletion of a live entry')
                S.reach('deleted')
            elif key not in model:
                S.check(r, 'deletion of a missing entry')
                S.reach('del_missing')
            model.pop(key, None)
        elif op == 'in':
            x = key in d
            S.check(x == alive(key), 'membership')
            S.reach('in' if x else 'not_in')
            if not x:
                model.pop(key, None)
        elif op == 'cleanup':
            d.cleanup()
            S.reach('cleanup')
        elif op == 'len':
            S.check(len(d) == sum(alive(x) for x in list(model)), 'length')
            S.reach('len')
        elif op == 'iter':
            S.check(set(d) == {x for x in model if alive(x)}, 'iteration')
            S.check(len(d) == len(list(d)))
            S.reach('iter')
    clock.advance()
    live = {x: model[x][0] for x in model if alive(x)}
    S.check(dict(d.items()) == live, lambda: 'contents: %r, expected %r' % (dict(d.items()), live))
    S.check(len(d) == len(live))
    clock.now = clock.now + timeout + 1
    S.check(len(d) == 0 and list(d) == [], 'all entries expire in the end')
    for x in names:
        S.check(x not in d)


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.v == other.v

    __hash__ = None


@R.harness(quick=[dict(k=3, keys=2)], thorough=[dict(k=4, keys=2), dict(k=3, keys=3)],
           labels=['stored', 'default', 'set_default', 'del', 'mutated', 'iter', 'background'],
           bounds='k operations of any kind on `keys` keys with arbitrary integer values and default')
def self_cleaning(S, k, keys):
    dv = S.key('default')
    bg = S.flag('background')
    saved = expiring.ExpiringEntryDictThread
    added = []

    class FakeThread:
        def add_dict(self, d):
            added.append(d)

    expiring.ExpiringEntryDictThread = FakeThread
    try:
        d = SelfCleaningDefaultDict(lambda: Box(dv), bg)
    finally:
        expiring.ExpiringEntryDictThread = saved
    S.check(len(added) == (1 if bg else 0), 'background cleaner is used when asked for')
    model = {}
    for i in range(k):
        op = S.pick('op', ['get', 'set', 'del', 'mutate', 'iter', 'cleanup'])
        key = S.choice('key', keys) if op not in ('iter', 'cleanup') else 0
        if op == 'get':
            v = d[key]
            if key in model:
                S.check_eq(v.v, model[key].v, 'stored value')
                S.reach('stored')
            else:
                S.check_eq(v.v, dv, 'default value')
                S.reach('default')
        elif op == 'set':
            b = Box(S.key('v'))
            d[key] = b
            if b.v == dv:
                model.pop(key, None)
                S.reach('set_default')
            else:
                model[key] = b
        elif op == 'del':
            del d[key]
            model.pop(key, None)
            S.reach('del')
        elif op == 'mutate':
            if key in model:
                model[key].v = S.key('nv')
                S.reach('mutated')
                if model[key].v == dv:
                    del model[key]
        elif op == 'iter':
            S.check(set(iter(d)) == set(model), 'iteration yields the keys of non-default values')
            S.reach('iter')
        else:
            d.cleanup()
            S.reach('background')
    S.check(len(d) == len(model), 'length')
    S.check(sorted(d) == sorted(model), 'keys')
    for x in model:
        S.check_eq(d[x].v, model[x].v, 'value')
    for x in range(keys):
        if x not in model:
            S.check_eq(d[x].v, dv, 'default')
    if bg:
        S.check(len(d) == len(model), 'reads of missing keys store nothing')


class Value:
    """something whose release can be observed"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.v == other.v

    __hash__ = None


def fresh_module():
    """the implementation with no background thread yet"""
    spec = importlib.util.spec_from_file_location(expiring.__name__, expiring.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['released', 'kept', 'one thread', 'no thread', 'default', 'dead dict', 'second wave'],
           bounds='n dictionaries of either kind with the cleaner on or off, arbitrary timeout and '
                  'arbitrary instant of the observation, the real cleaner thread under the deterministic scheduler')
def background_cleaner(S, n):
    with Threads(S, 0) as sc:
        mod = fresh_module()
        before = len(sc.parts)
        dicts, cleaned = [], 0
        for i in range(n):
            kind = S.pick('kind', ['expiring', 'default'])
            clean = S.flag('background')
            timeout = S.int('timeout', 0, 20)
            if kind == 'expiring':
                d = mod.ExpiringEntryDict(timeout, time_getter=sc.clock, external_cleanup=clean)
            else:
                d = mod.SelfCleaningDefaultDict(lambda: Value(0), clean)
            cleaned += clean
            v = Value(1)
            d['a'] = v
            dicts.append((kind, clean, timeout, d, weakref.ref(v)))
            if kind == 'default':
                v.v = 0             # turns into the default value on its own
            del v
        S.check(len(sc.parts) - before == (1 if cleaned else 0), 'one thread cleans all the dictionaries')
        S.reach('one thread' if cleaned else 'no thread')
        if n > 1 and S.flag('the first one is dropped'):
            gone = weakref.ref(dicts[0][3])
            del dicts[0]
            d = None
            S.check(gone() is None, 'the cleaner does not keep dictionaries alive')
            S.reach('dead dict')
        now = S.int('observation', 0, 40)
        sc.sleep(now)
        for wave in (0, 1):
            for kind, clean, timeout, d, ref in dicts:
                due = timeout if kind == 'expiring' else 0
                if not clean:
                    S.check(ref() is not None, 'values stay until the dictionary is used when nothing cleans it')
                    S.reach('kept')
                elif now > due + 6:
                    S.check(ref() is None, 'expired values are released within about 5 seconds')
                    S.reach('released' if kind == 'expiring' else 'default')
                elif kind == 'expiring' and now <= due:
                    S.check(ref() is not None and d['a'] is ref(), 'live entries are kept')
                    S.reach('kept')
            if not cleaned or wave:
                break
            # the cleaner goes on
            for i, (kind, clean, timeout, d, ref) in enumerate(dicts):
                v = Value(2)
                d['a'] = v
                dicts[i] = (kind, clean, now + timeout, d, weakref.ref(v))
                if kind == 'default':
                    v.v = 0
                    dicts[i] = ('default', clean, 0, d, weakref.ref(v))
                del v
            sc.sleep(40)
            now = now + 40
            S.reach('second wave')
        S.check(not sc.crashes, lambda: 'the cleaner died: %r' % (sc.crashes,))
