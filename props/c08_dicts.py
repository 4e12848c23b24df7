import copy

from engine.harness import Registry
from satella.coding.structures import TwoWayDictionary, DirtyDict, CountingDict, DictionaryView, \
    KeyAwareDefaultDict, DefaultDict, DictObject, apply_dict_object

R = Registry('C08', assumptions=['keys and values are mathematical integers'])


class Assoc:
    """reference dictionary: association list, equality decided by forking"""

    def __init__(self, items=()):
        self.items = list(items)

    def find(self, k):
        for i, (a, _) in enumerate(self.items):
            if a == k:
                return i
        return -1

    def __contains__(self, k):
        return self.find(k) >= 0

    def get(self, k):
        return self.items[self.find(k)][1]

    def set(self, k, v):
        i = self.find(k)
        if i >= 0:
            self.items[i] = (self.items[i][0], v)
        else:
            self.items.append((k, v))

    def pop(self, k):
        return self.items.pop(self.find(k))[1]


def same_contents(S, d, model, msg):
    S.check(len(d) == len(model.items), msg + ': length')
    S.check(len(list(d)) == len(model.items), msg + ': iteration')
    for (k, v), (mk, mv) in zip(sorted(d.items(), key=lambda p: p[0]),
                                sorted(model.items, key=lambda p: p[0])):
        S.check_eq(k, mk, msg + ': key')
        S.check_eq(v, mv, msg + ': value')


@R.harness(quick=[dict(n=2, k=2), dict(n=0, k=3)], thorough=[dict(n=2, k=3), dict(n=3, k=2)],
           labels=['ctor_dup', 'set', 'overwrite', 'conflict', 'del', 'del_missing', 'reverse', 'done'],
           bounds='n arbitrary initial pairs, k writes/deletes from either side')
def two_way(S, n, k):
    pairs = [(S.lit(i), S.key('v%d' % i)) for i in range(n)]
    r, twd = S.raises(ValueError, TwoWayDictionary, pairs)
    distinct = S.And(True, *[S.Not(S.eq(pairs[i][1], pairs[j][1])) for i in range(n) for j in range(i)])
    S.check(S.Not(distinct) if r else distinct, 'repeated values are refused at construction')
    if r:
        S.reach('ctor_dup')
        return
    model = Assoc(pairs)

    def rev(m):
        return Assoc([(v, k) for k, v in m.items])

    for i in range(k):
        op = S.pick('op', ['set', 'del', 'rset', 'rdel'])
        side = twd.reverse if op[0] == 'r' else twd
        m = rev(model) if op[0] == 'r' else model
        key = S.key('k')
        if op.endswith('del'):
            r, _ = S.raises(KeyError, side.__delitem__, key)
            S.check(r == (key not in m), 'KeyError iff missing')
            if not r:
                m.pop(key)
                S.reach('del')
            else:
                S.reach('del_missing')
        else:
            v = S.key('v')
            other = rev(m)
            r, _ = S.raises(ValueError, side.__setitem__, key, v)
            if v in other:
                if key in m and m.get(key) == v:
                    pass        # rewriting the same pair: unspecified, but nothing may change
                else:
                    S.check(r, 'a value mapped by another key is refused')
                    S.reach('conflict')
            else:
                S.check(not r, 'a new value is accepted')
                S.reach('overwrite' if key in m else 'set')
                m.set(key, v)
        if op[0] == 'r':
            model = rev(m)
            S.reach('reverse')
        same_contents(S, twd, model, 'forward')
        same_contents(S, twd.reverse, rev(model), 'reverse')
    for a, b in model.items:
        S.check_eq(twd[a], b, 'lookup')
        S.check_eq(twd.reverse[b], a, 'reverse lookup')
    S.check(twd.reverse.reverse is twd)
    with twd:
        S.reach('done')
    r, _ = S.raises(ValueError, leave, TwoWayDictionary({1: 2}))
    S.check(r, 'leaving the context does not swallow exceptions')


def leave(twd):
    with twd:
        raise ValueError()


@R.harness(quick=[dict(n=1, k=3), dict(n=2, k=2)], thorough=[dict(n=2, k=3)],
           labels=['dirtied', 'same_value', 'del', 'del_missing', 'clear', 'swap', 'copy', 'pop', 'update'],
           bounds='n arbitrary initial entries, k operations')
def dirty_dict(S, n, k):
    init = {S.lit(i): S.key('v%d' % i) for i in range(n)}
    d = DirtyDict(init)
    S.check(S.lit(0) in d if n else S.lit(0) not in d, 'membership')
    model, dirty = Assoc(init.items()), False
    S.check(d.dirty is False)
    for i in range(k):
        op = S.pick('op', ['set', 'del', 'clear_dirty', 'swap', 'copy', 'pop', 'update', 'copy_obj'])
        key = S.key('k') if op in ('set', 'del', 'pop') else None
        if op == 'set' or op == 'update':
            v = S.key('v')
            if op == 'update':
                S.reach('update')
                key = S.key('k')
                d.update({key: v})
            else:
                d[key] = v
            if key in model and model.get(key) == v:
                S.reach('same_value')
            else:
                dirty = True
                S.reach('dirtied')
            model.set(key, v)
        elif op in ('del', 'pop'):
            if key in model:
                if op == 'del':
                    del d[key]
                    model.pop(key)
                else:
                    S.check_eq(d.pop(key), model.pop(key), 'pop')
                dirty = True
                S.reach(op)
            else:
                S.expect_raises(KeyError, d.__delitem__ if op == 'del' else d.pop, key)
                S.reach('del_missing')
        elif op == 'clear_dirty':
            d.clear_dirty()
            dirty = False
            S.reach('clear')
        elif op == 'swap':
            old = d.swap_and_clear_dirty()
            S.check(type(old) is dict)
            same_contents(S, old, model, 'swapped out')
            model, dirty = Assoc(), False
            S.reach('swap')
        elif op == 'copy':
            c = d.copy_and_clear_dirty()
            S.check(type(c) is dict)
            same_contents(S, c, model, 'copied')
            c[S.lit(100)] = 1      # must be an independent copy
            c.clear()
            dirty = False
            S.reach('copy')
        else:
            c = copy.copy(d)
            S.check(c.dirty == d.dirty)
            same_contents(S, c, model, 'copied')
            c.clear()
        S.check(d.dirty == dirty, lambda: 'dirty flag is %r, should be %r' % (d.dirty, dirty))
        S.check(bool(d) == bool(model.items))
        same_contents(S, d, model, 'contents')


@R.harness(quick=[dict(n=3, k=1), dict(n=2, k=2)], thorough=[dict(n=4, k=1), dict(n=3, k=2)],
           labels=['count', 'pieces', 'clear', 'missing'],
           bounds='n arbitrary counted elements, k counts with arbitrary number of pieces or clears')
def counting(S, n, k):
    xs = [S.key('x%d' % i) for i in range(n)]
    cd = CountingDict(list(xs))
    events = [(x, 1) for x in xs]
    for i in range(k):
        op = S.pick('op', ['count', 'pieces', 'clear'])
        if op == 'clear':
            cd.clear()
            events = []
        elif op == 'count':
            x = S.key('e')
            cd.count(x)
            events.append((x, 1))
        else:
            x, p = S.key('e'), S.int('p')
            cd.count(x, p)
            events.append((x, p))
        S.reach(op)
    for x, _ in events:
        S.check_eq(cd[x], S.Sum([S.Ite(S.eq(y, x), p, 0) for y, p in events]), 'count')
    S.check_eq(sum(cd.values()), S.Sum([p for _, p in events]), 'total')
    S.check(bool(cd) == bool(events))
    ks = list(cd)
    S.check_eq(list(cd.keys()), ks, 'keys')
    S.check(len(ks) == len(cd) and len(list(cd.items())) == len(ks))
    for i, x in enumerate(ks):
        S.check(S.Or(*[S.eq(x, y) for y, _ in events]), 'only counted keys')
        S.check(S.And(True, *[S.Not(S.eq(x, y)) for y in ks[:i]]), 'distinct keys')
    p = S.key('probe')
    r, _ = S.raises(KeyError, lambda: cd[p])
    if r:
        S.reach('missing')
        S.check(S.And(True, *[S.Not(S.eq(p, y)) for y, _ in events]))


@R.harness(quick=[dict(k=2), dict(k=0, copies=True)], thorough=[dict(k=3), dict(k=1, copies=True)],
           labels=['set', 'del', 'del_missing', 'get', 'get_missing', 'copy'],
           bounds='two dictionaries with up to 2 arbitrary entries each, both settings of each flag, '
                  'k operations')
def view(S, k, copies=False):
    a = {S.key('a'): S.key('av')} if S.flag('hasa') else {}
    b = {S.key('b0'): S.key('bv0')} if S.flag('hasb') else {}
    if b and S.flag('hasb1'):
        b[S.key('b1')] = S.key('bv1')
    ma, mb = Assoc(a.items()), Assoc(b.items())
    pd, same = S.flag('propagate'), S.flag('same')
    dv = DictionaryView(a, b, propagate_deletes=pd, assign_to_same_dict=same)

    def merged():
        m = Assoc(ma.items)
        for x, v in mb.items:
            if x not in m:
                m.set(x, v)
        return m

    for i in range(k):
        op = S.pick('op', ['get', 'set', 'del'])
        key = S.key('k')
        if op == 'get':
            m = merged()
            r, v = S.raises(KeyError, dv.__getitem__, key)
            if key in m:
                S.check(not r)
                S.check_eq(v, m.get(key), 'first dictionary having the key')
                S.check(key in dv)
                S.reach('get')
            else:
                S.check(r and key not in dv)
                S.reach('get_missing')
        elif op == 'set':
            v = S.key('v')
            dv[key] = v
            S.reach('set')
            if same and key in ma:
                ma.set(key, v)
            elif same and key in mb:
                mb.set(key, v)
            else:
                ma.set(key, v)
        else:
            r, _ = S.raises(KeyError, dv.__delitem__, key)
            if key in ma:
                ma.pop(key)
                S.check(not r)
                S.reach('del')
            elif pd and key in mb:
                mb.pop(key)
                S.check(not r)
            else:
                S.check(r, 'KeyError')
                S.reach('del_missing')
    same_contents(S, a, ma, 'master')
    same_contents(S, b, mb, 'other')
    same_contents(S, dv, merged(), 'view')
    if copies:
        shallow = S.flag('shallow')
        other = copy.copy(dv) if shallow else copy.deepcopy(dv)
        S.check(type(other) is DictionaryView and other is not dv)
        same_contents(S, other, merged(), 'copied')
        key = S.key('key')
        if S.flag('delete'):
            r, _ = S.raises(KeyError, other.__delitem__, key)
            S.check(r == (key not in ma and not (pd and key in mb)), 'a copy deletes as the original does')
            if not r and shallow:
                (ma if key in ma else mb).pop(key)
        else:
            other[key] = v = S.key('value')
            if shallow:
                (mb if same and key not in ma and key in mb else ma).set(key, v)
        S.reach('copy')
        same_contents(S, a, ma, 'a shallow copy shows the same dictionaries, a deep one its own')
        same_contents(S, b, mb, 'a shallow copy shows the same dictionaries, a deep one its own')


@R.harness(quick=[dict(k=2)], thorough=[dict(k=3)], labels=['made', 'kept', 'in', 'not_in', 'set', 'del'],
           bounds='one arbitrary initial entry, k operations')
def defaults(S, k):
    calls = []

    def factory(x):
        calls.append(x)
        return x + 1000

    k0, v0 = S.key('k0'), S.key('v0')
    d = KeyAwareDefaultDict(factory, {k0: v0})
    made = []
    dd = DefaultDict(lambda: 7, {k0: v0})
    model, dmodel = Assoc([(k0, v0)]), Assoc([(k0, v0)])
    for i in range(k):
        op = S.pick('op', ['get', 'set', 'del', 'in'])
        key = S.key('k')
        if op == 'get':
            n = len(calls)
            v = d[key]
            if key in model:
                S.check_eq(v, model.get(key), 'kept')
                S.check(len(calls) == n, 'factory not called')
                S.reach('kept')
            else:
                S.check_eq(v, key + 1000, 'made for the key')
                S.check(len(calls) == n + 1)
                model.set(key, v)
                S.reach('made')
            S.check_eq(dd[key], dmodel.get(key) if key in dmodel else 7, 'DefaultDict')
        elif op == 'set':
            v = S.key('v')
            d[key] = v
            dd[key] = v
            model.set(key, v)
            dmodel.set(key, v)
            S.reach('set')
        elif op == 'del':
            r, _ = S.raises(KeyError, d.__delitem__, key)
            S.check(r == (key not in model))
            r2, _ = S.raises(KeyError, dd.__delitem__, key)
            S.check(r2 == (key not in dmodel))
            if not r:
                model.pop(key)
            if not r2:
                dmodel.pop(key)
            S.reach('del')
        else:
            n = len(calls)
            S.check((key in d) == (key in model), 'membership')
            S.check((key in dd) == (key in dmodel), 'membership')
            S.check(len(calls) == n, 'membership check creates nothing')
            S.reach('in' if key in model else 'not_in')
        same_contents(S, d, model, 'contents')
        same_contents(S, dd, dmodel, 'DefaultDict stores no generated values')


NONES = [None, 0, '', 5]


@R.harness(labels=['kept', 'made'], bounds='values and defaults that are false, None, or not')
def false_values(S):
    v, w = S.pick('v', NONES), S.pick('w', NONES)
    calls = []

    def factory(x):
        calls.append(x)
        return w

    def is_(a, b):
        return a == b and type(a) is type(b)

    d, dd = KeyAwareDefaultDict(factory, {0: v}), DefaultDict(lambda: w, {0: v})
    d[1] = dd[1] = v
    which = S.choice('which', 3)
    S.check(is_(dd[which], w if which == 2 else v), 'DefaultDict')
    S.check(2 not in dd and len(dd) == 2, 'not stored')
    for _ in range(2):
        S.check(is_(d[which], w if which == 2 else v), 'KeyAwareDefaultDict')
    S.check(calls == ([2] if which == 2 else []), 'made once, unless it is there')
    S.check(len(d) == 3 if which == 2 else len(d) == 2, 'stored')
    S.reach('made' if which == 2 else 'kept')
    same = S.flag('same')
    view = DictionaryView({0: v}, {0: 'hidden', 1: w}, assign_to_same_dict=same)
    S.check(is_(view[0], v) and is_(view[1], w), 'the first one that has the key')
    S.check(view.get(0, 'no') is view[0] and len(view) == 2 and sorted(view) == [0, 1], 'contents')
    view[1] = v
    S.check(is_(view.dictionaries[1][1], v if same else w) and (1 in view.master_dict) == (not same), 'written to')
    S.check(is_(view[1], v), 'written')
    o = DictObject({'a': v})
    S.check(is_(o.a, v) and is_(o['a'], v), 'attribute')
    o.b = w
    S.check(is_(o['b'], w) and is_(o.b, w), 'attribute')
    dirty = DirtyDict({0: v})
    dirty[0] = w
    S.check(dirty.dirty == (v != w), 'dirty')
    t = TwoWayDictionary({0: v})
    r, _ = S.raises(ValueError, t.__setitem__, 1, w)
    S.check(r == (v == w), 'refused')
    if not r:
        S.check(t.reverse[w] == 1 and t.reverse[v] == 0 and len(t) == 2, 'both')
        t[0] = 'new'
        S.check(v not in t.reverse and t.reverse['new'] == 0, 'forgotten')
        del t[1]
        S.check(list(t.reverse) == ['new'], 'removed')


@R.harness(quick=[dict(k=2)], thorough=[dict(k=3)], labels=['set', 'get', 'del', 'copy', 'missing'],
           bounds='up to 2 initial attributes out of 3 names, k accesses by attribute or by key')
def dict_object(S, k):
    names = ['alpha', 'beta', 'x']
    model = {n: S.key('v_' + n) for n in names[:2] if S.flag('has')}
    d = DictObject(dict(model)) if S.flag('positional') else DictObject(**model)
    for i in range(k):
        op = S.pick('op', ['get', 'set', 'del', 'copy'])
        n = S.pick('name', names) if op != 'copy' else None
        byattr = S.flag('byattr') if op != 'copy' else None
        if op == 'set':
            v = S.key('v')
            if byattr:
                setattr(d, n, v)
            else:
                d[n] = v
            model[n] = v
            S.reach('set')
        elif op == 'copy':
            c = copy.copy(d) if S.flag('shallow') else copy.deepcopy(d)
            S.check(type(c) is DictObject and c is not d)
            S.check(set(c) == set(model))
            for x in model:
                S.check_eq(c[x], model[x], 'copied value')
            c.fresh = 1
            S.reach('copy')
        else:
            exc = AttributeError if byattr else KeyError
            fn = {('get', True): lambda: getattr(d, n), ('get', False): lambda: d[n],
                  ('del', True): lambda: delattr(d, n), ('del', False): lambda: d.__delitem__(n)}[op, byattr]
            r, v = S.raises(exc, fn)
            S.check(r == (n not in model), 'error iff missing')
            if r:
                S.reach('missing')
            elif op == 'get':
                S.check_eq(v, model[n], 'value')
                S.reach('get')
            else:
                del model[n]
                S.reach('del')
        S.check(set(d) == set(model) and len(d) == len(model), 'keys')
        for x in model:
            S.check_eq(d[x], model[x], 'item')
            S.check_eq(getattr(d, x), model[x], 'attribute')
            S.check(hasattr(d, x))


@R.harness(labels=['dict', 'list', 'other', 'deep'], bounds='nested dictionaries, lists and other values up to depth 3')
def nested_dict_object(S):
    values = []

    def build(depth):
        kind = S.pick('kind', ['other', 'dict', 'list'] if depth else ['other', 'dict'])
        if kind == 'other':
            values.append(S.pick('value', [S.int('v'), 'text', None, (1, {'a': 1})]) if depth == 3 else S.int('v'))
            return values[-1]
        if depth < 2:
            S.reach('deep')
        if kind == 'dict':
            return {'a': build(depth - 1), 'b': {}} if depth else {'a': []}
        return [build(depth - 1), {'c': 1}]

    def verify(got, src):
        if type(src) is dict:
            S.check(type(got) is DictObject and got is not src and set(got) == set(src), 'a dict becomes a DictObject')
            for k in src:
                verify(getattr(got, k), src[k])
            S.reach('dict')
        elif type(src) is list:
            S.check(type(got) is list and got is not src and len(got) == len(src), 'a list stays a list')
            for x, y in zip(got, src):
                verify(x, y)
            S.reach('list')
        else:
            S.check(got is src, 'the same value')
            S.reach('other')

    src = build(3)
    plain = copy.deepcopy(src)
    verify(apply_dict_object(src), src)

    def untouched(x, y):
        S.check(type(x) is type(y), 'what was given is not altered')
        if isinstance(y, (list, dict)):
            for k in (y if isinstance(y, dict) else range(len(y))):
                untouched(x[k], y[k])

    untouched(src, plain)
