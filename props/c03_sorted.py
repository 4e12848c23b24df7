from engine.harness import Registry
from props.lib import take_out, multiset_eq, ascending, all_le, member
from satella.coding.structures import SortedList, Ranking, SliceableDeque

R = Registry('C03', assumptions=['elements and sort keys are mathematical integers'])


class Item:
    """unorderable, compared by identity, sort key is an arbitrary integer"""

    def __init__(self, k, tag):
        self.k = k
        self.tag = tag

    def __repr__(self):
        return 'Item(%r, %s)' % (self.k, self.tag)


KEYS = {'identity': lambda a: a, 'reversed': lambda a: -a, 'scaled': lambda a: 2 * a + 1}


def check_list(S, sl, model, key):
    S.check(len(sl) == len(model), 'length')
    S.check(bool(sl) == bool(model), 'truth')
    xs = list(sl)
    S.check(ascending(S, [key(x) for x in xs]), 'sorted by key')
    S.check(multiset_eq(S, xs, model), 'contents')
    for i in range(len(xs)):
        S.check_eq(sl[i], xs[i], 'indexing')
        S.check_eq(sl[i - len(xs)], xs[i], 'negative indexing')
    S.check_eq(list(sl[0:len(xs)]), xs, 'slice')
    S.check_eq(list(sl[1:]), xs[1:], 'slice')
    S.check_eq(list(sl[:-1]), xs[:-1], 'slice')
    S.check_eq(list(sl[::-1]), xs[::-1], 'slice')
    S.check_eq(list(sl[-2:]), xs[-2:], 'slice')
    return xs


@R.harness(quick=[dict(n=1, k=2), dict(n=0, k=2), dict(n=3, k=1)],
           thorough=[dict(n=0, k=3), dict(n=3, k=2), dict(n=4, k=1)],
           labels=['add', 'remove', 'remove_missing', 'pop', 'popleft', 'extend', 'in', 'not in',
                   'pop_empty'],
           bounds='n initial arbitrary integers, sort key one of 3 injective functions, '
                  'k operations of any kind')
def sorted_list(S, n, k):
    key = KEYS[S.pick('key', list(KEYS))] if n < 3 else KEYS['identity']
    xs = [S.key('x%d' % i) for i in range(n)]
    sl = SortedList(iter(xs), key)
    model = list(xs)
    for i in range(k):
        op = S.pick('op', ['add', 'remove', 'pop', 'popleft', 'extend', 'index'])
        if op == 'add':
            v = S.key('v')
            ix = sl.add(v)
            model.append(v)
            S.check_eq(sl[ix], v, 'add returns the index')
        elif op == 'extend':
            vs = [S.key('v'), S.key('v')]
            sl.extend(iter(vs))
            model.extend(vs)
        elif op == 'remove':
            v = S.key('v')
            r, _ = S.raises(ValueError, sl.remove, v)
            S.check(S.Not(member(S, v, model)) if r else member(S, v, model),
                    'remove raises iff the element is absent')
            if r:
                S.reach('remove_missing')
                continue
            take_out(S, model, v, 'remove')
        elif op in ('pop', 'popleft'):
            if not model:
                S.expect_raises(IndexError, getattr(sl, op))
                S.reach('pop_empty')
                continue
            v = getattr(sl, op)()
            others = [key(m) for m in model]
            if op == 'pop':
                S.check(S.And(*[key(v) >= o for o in others]), 'pop gives the highest')
            else:
                S.check(S.And(*[key(v) <= o for o in others]), 'popleft gives the smallest')
            take_out(S, model, v, op)
        elif op == 'index':
            v = S.key('v')
            r, ix = S.raises(ValueError, sl.index, v)
            if r:
                S.check(S.Not(member(S, v, model)), 'index of a present element')
            else:
                S.check_eq(sl[ix], v, 'index')
        S.reach(op)
    p = S.key('probe')
    if p in sl:
        S.reach('in')
        S.check(member(S, p, model), 'membership')
    else:
        S.reach('not in')
        S.check(S.Not(member(S, p, model)), 'non-membership')
    xs = check_list(S, sl, model, key)
    if xs and xs[-1] is p:
        return
    v = S.key('last')
    S.assume(S.Not(S.eq(v, p)))
    sl.add(v)
    model.append(v)
    S.check(ascending(S, [key(x) for x in sl]), 'sorted by key')
    S.check(multiset_eq(S, list(sl), model), 'contents')


class Record:
    """equal by name, sorted by an unrelated key"""

    def __init__(self, name, k):
        self.name = name
        self.k = k

    def __eq__(self, other):
        return self.name == other.name

    def __hash__(self):
        return 0


@R.harness(quick=[dict(n=3, k=1), dict(n=2, k=2)], thorough=[dict(n=3, k=2)],
           labels=['sorted list', 'ranking', 'add', 'remove', 'remove_missing', 'in', 'not in', 'pop', 'popleft'],
           bounds='n records with different names and arbitrary (also equal) keys; k operations by an equal record')
def records(S, n, k):
    recs = [Record(i, S.key('k%d' % i)) for i in range(n)]
    rank = S.flag('ranking')
    S.reach('ranking' if rank else 'sorted list')
    sl = Ranking(list(recs), lambda r: r.k) if rank else SortedList(list(recs), lambda r: r.k)
    model, gone = list(recs), []
    for i in range(k):
        op = S.pick('op', ['add', 'remove', 'pop', 'popleft'][:2 if rank else 4])
        if op == 'add':
            r = Record(n + i, S.key('new'))
            sl.add(r)
            model.append(r)
        elif op == 'remove':
            name = S.choice('name', n + 1)
            probe = Record(name, S.key('other'))
            raised, _ = S.raises(ValueError, sl.remove, probe)
            S.check(raised == (probe not in model), 'removed by equality')
            if raised:
                S.reach('remove_missing')
                continue
            gone += [r for r in model if r == probe]
            model.remove(probe)
        elif model:
            r = getattr(sl, op)()
            S.check(r in model, 'one of the elements')
            for m in model:
                S.check(r.k >= m.k if op == 'pop' else r.k <= m.k, op)
            model.remove(r)
        S.reach(op)
    last = Record(100, S.key('last'))
    sl.add(last)
    model.append(last)
    out = list(sl.get_sorted() if rank else sl)
    S.check(len(out) == len(model) and set(map(id, out)) == set(map(id, model)), 'contents')
    S.check(ascending(S, [r.k for r in out]), 'sorted by key')
    probe = Record(S.choice('probe', n), S.key('other'))
    for i, r in enumerate(out):
        S.check(sl[i] is r, 'indexing')
        S.check((sl.get_position_of if rank else sl.index)(Record(r.name, S.lit(0))) == i, 'found by equality')
        if rank:
            S.check(sl.calculate_ranking_for(r) == i, 'calculate_ranking_for')
    if rank:
        for r in gone:
            S.expect_raises((KeyError, ValueError), sl.calculate_ranking_for, r, msg='forgotten')
        S.reach('in')
        S.reach('not in')
    else:
        found = probe in sl
        S.check(found == (probe in model), 'membership is equality')
        S.reach('in' if found else 'not in')


@R.harness(quick=[dict(n=3, k=2), dict(n=4, k=1)], thorough=[dict(n=4, k=2), dict(n=3, k=3)],
           labels=['add', 'remove', 'remove_missing'],
           bounds='n initial objects with arbitrary (possibly equal) integer keys, k additions or '
                  'removals')
def ranking(S, n, k):
    items = [Item(S.key('k%d' % i), i) for i in range(n)]
    rk = Ranking(list(items), lambda e: e.k)
    model = list(items)
    removed = []
    for i in range(k):
        if S.flag('add'):
            it = Item(S.key('nk'), n + i)
            rk.add(it)
            model.append(it)
            S.reach('add')
        else:
            j = S.choice('which', len(model) + 1)
            if j == len(model):
                S.expect_raises(ValueError, rk.remove, Item(0, 'alien'), msg='remove of an alien')
                S.reach('remove_missing')
            else:
                removed.append(model.pop(j))
                rk.remove(removed[-1])
                S.reach('remove')
    out = list(rk.get_sorted())
    S.check(len(out) == len(model) and set(map(id, out)) == set(map(id, model)), 'contents')
    S.check(ascending(S, [e.k for e in out]), 'sorted')
    for i, e in enumerate(out):
        S.check(rk[i] is e, 'indexing')
        S.check(rk[i - len(out)] is e, 'negative indexing')
        S.check(rk.get_position_of(e) == i, 'get_position_of')
        S.check(rk.calculate_ranking_for(e) == i, 'calculate_ranking_for')
    for e in removed:
        S.expect_raises(ValueError, rk.get_position_of, e, msg='position of a removed element')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)], labels=['slice', 'index', 'index_error'],
           bounds='n elements, arbitrary start/stop in [-n-2, n+2] or None, step in -3..3')
def sliceable_deque(S, n):
    ref = [S.key('x%d' % i) for i in range(n)]
    sd = SliceableDeque(iter(ref))
    if S.flag('slice'):
        def bound(name):
            return None if S.flag(name + 'none') else S.int(name, -n - 2, n + 2)
        sl = slice(S.conc(bound('start')), S.conc(bound('stop')),
                   S.pick('step', [None, 1, 2, 3, -1, -2, -3]))
        S.check_eq(list(sd[sl]), ref[sl], 'slice %r' % (sl,))
        S.reach('slice')
    else:
        i = S.int('i', -n - 2, n + 2)
        r, v = S.raises(IndexError, lambda: sd[i])
        S.check(r == bool(S.Or(i < -n, i >= n)), 'IndexError iff out of range')
        if not r:
            S.check_eq(v, ref[S.conc(i)], 'item')
            S.reach('index')
        else:
            S.reach('index_error')
    S.check(len(sd) == n)
    S.check_eq(list(reversed(sd)), ref[::-1])
    S.check_eq(list(sd), ref)
    sd.insert(1, S.lit(7))
    S.check_eq(list(sd), ref[:1] + [S.lit(7)] + ref[1:])
    del sd[1]
    sd[0] = S.lit(9)
    S.check_eq(list(sd), [S.lit(9)] + ref[1:])
    sd.append(S.lit(3))
    S.check_eq(list(sd), [S.lit(9)] + ref[1:] + [S.lit(3)])
    sd.popleft()
    S.check_eq(list(sd), ref[1:] + [S.lit(3)])
