import copy

from engine.harness import Registry
from props.lib import take_out, multiset_eq, ascending, all_le, member
from satella.coding.structures import Heap, SetHeap

R = Registry('C01', assumptions=['elements are mathematical integers (a total order)'])


def final_checks(S, heap, model, unique=False):
    S.check(len(heap) == len(model), 'length')
    S.check(bool(heap) == bool(model), 'truth value')
    asc = list(heap.iter_ascending())
    S.check(ascending(S, asc), 'iter_ascending is ascending')
    if unique:
        S.check(S.And(True, *[asc[i] < asc[i + 1] for i in range(len(asc) - 1)]), 'duplicates')
    S.check(multiset_eq(S, asc, model), 'iter_ascending yields the contents')
    desc = list(heap.iter_descending())
    S.check_eq(desc, asc[::-1], 'iter_descending')
    S.check(multiset_eq(S, list(heap), model), 'iteration')
    c = copy.copy(heap)
    d = copy.deepcopy(heap)
    S.check(len(heap) == len(model), 'iteration must not change the heap')
    out = []
    while heap:
        out.append(heap.pop())
    S.check_eq(out, asc, 'draining the heap')
    S.check(len(heap) == 0 and not heap, 'drained')
    for other in (c, d):
        S.check(len(other) == len(model), 'a copy is independent')
        S.check_eq([other.pop() for _ in range(len(other))], asc, 'copy')


@R.harness(quick=[dict(n=1, k=2), dict(n=3, k=1)], thorough=[dict(n=2, k=3), dict(n=4, k=1)],
           labels=['pop', 'pop_empty', 'push', 'push_many', 'pop_item', 'pop_item_missing',
                   'filter', 'map', 'filter_map'],
           bounds='n initial elements + k operations of any kind with arbitrary integers, then '
                  'the heap is drained')
def heap_history(S, n, k):
    xs = [S.key('x%d' % i) for i in range(n)]
    heap, model = Heap(iter(xs)), list(xs)
    for i in range(k):
        op = S.pick('op', ['push', 'pop', 'push_many', 'pop_item', 'filter', 'map', 'filter_map'])
        if op == 'push':
            v = S.key('v')
            heap.push(v)
            model.append(v)
        elif op == 'push_many':
            vs = [S.key('v'), S.key('v')]
            heap.push_many(iter(vs))
            model.extend(vs)
        elif op == 'pop':
            if not model:
                S.expect_raises(IndexError, heap.pop, msg='pop of empty')
                S.reach('pop_empty')
                continue
            x = heap.pop()
            S.check(all_le(S, x, model), 'popped element is not the smallest')
            take_out(S, model, x, 'pop')
        elif op == 'pop_item':
            v = S.key('v')
            r, x = S.raises(ValueError, heap.pop_item, v)
            S.check(S.Not(member(S, v, model)) if r else member(S, v, model),
                    'pop_item raises iff the element is absent')
            if not r:
                S.check_eq(x, v, 'pop_item')
                take_out(S, model, v, 'pop_item')
            else:
                S.reach('pop_item_missing')
                continue
        elif op == 'filter':
            v = S.key('v')
            heap.filter_map(filter_fun=lambda y: y != v)
            model = [y for y in model if y != v]
        elif op == 'map':
            heap.filter_map(map_fun=lambda y: -y)
            model = [-y for y in model]
        elif op == 'filter_map':
            v = S.key('v')
            heap.filter_map(lambda y: y >= v, lambda y: v - y)
            model = [v - y for y in model if y >= v]
        S.reach(op)
    final_checks(S, heap, model)


@R.harness(quick=[dict(n=4, k=2), dict(n=6, k=0)], thorough=[dict(n=5, k=2), dict(n=7, k=0)],
           labels=['in', 'not in'],
           bounds='push n arbitrary integers one by one, k pop/push pairs, drain; membership probe')
def heap_push_pop(S, n, k):
    heap, model = Heap(), []
    for i in range(n):
        v = S.key('x%d' % i)
        heap.push(v)
        model.append(v)
    for i in range(k):
        x = heap.pop()
        S.check(all_le(S, x, model), 'popped element is not the smallest')
        take_out(S, model, x, 'pop')
        if S.flag('push'):
            v = S.key('v')
            heap.push(v)
            model.append(v)
    if n < 6:
        p = S.key('probe')
        if p in heap:
            S.reach('in')
            S.check(member(S, p, model), 'membership')
        else:
            S.reach('not in')
            S.check(S.Not(member(S, p, model)), 'non-membership')
    out = []
    while heap:
        out.append(heap.pop())
    S.check(ascending(S, out), 'drained ascending')
    S.check(multiset_eq(S, out, model), 'nothing lost, nothing invented')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['pair', 'plain'], bounds='n pushes of tuples, whole or in parts')
def heap_push_parts(S, n):
    heap, model = Heap(), []
    for i in range(n):
        v = S.key('x%d' % i), S.key('y%d' % i)
        if S.flag('parts'):
            heap.push(*v)
            S.reach('pair')
        else:
            heap.push(v)
            S.reach('plain')
        model.append(v)
    for i in range(n):
        x = heap.pop()
        S.check(type(x) is tuple and len(x) == 2, 'a tuple')
        S.check(S.And(*[S.Or(x[0] < y[0], S.And(S.eq(x[0], y[0]), x[1] <= y[1])) for y in model]), 'the smallest')
        S.check(S.Or(*[S.And(S.eq(x[0], y[0]), S.eq(x[1], y[1])) for y in model]), 'one of those pushed')
        for k, y in enumerate(model):
            if x == y:
                del model[k]
                break
        S.check_eq(len(model), n - i - 1, 'nothing is lost or invented')


@R.harness(quick=[dict(n=1, k=2), dict(n=3, k=1)], thorough=[dict(n=2, k=2), dict(n=4, k=1)],
           labels=['pop', 'pop_empty', 'push', 'push_dup', 'push_many', 'pop_item',
                   'pop_item_missing', 'filter', 'map', 'in', 'not in'],
           bounds='n initial elements (possibly equal) + k operations of any kind, then drained')
def setheap_history(S, n, k):
    xs = [S.key('x%d' % i) for i in range(n)]
    model = []

    def add(v):
        if v not in model:
            model.append(v)
            return True
        return False

    for x in xs:
        add(x)
    heap = SetHeap(iter(xs))
    S.check(len(heap) == len(model), 'constructor admits duplicates')
    for i in range(k):
        op = S.pick('op', ['push', 'pop', 'push_many', 'pop_item', 'filter', 'map'])
        if op == 'push':
            v = S.key('v')
            heap.push(v)
            if not add(v):
                S.reach('push_dup')
        elif op == 'push_many':
            vs = [S.key('v'), S.key('v')]
            heap.push_many(iter(vs))
            for v in vs:
                add(v)
        elif op == 'pop':
            if not model:
                S.expect_raises(IndexError, heap.pop, msg='pop of empty')
                S.reach('pop_empty')
                continue
            x = heap.pop()
            S.check(all_le(S, x, model), 'popped element is not the smallest')
            take_out(S, model, x, 'pop')
        elif op == 'pop_item':
            v = S.key('v')
            r, x = S.raises(ValueError, heap.pop_item, v)
            S.check(S.Not(member(S, v, model)) if r else member(S, v, model),
                    'pop_item raises iff the element is absent')
            if not r:
                S.check_eq(x, v, 'pop_item')
                take_out(S, model, v, 'pop_item')
            else:
                S.reach('pop_item_missing')
                continue
        elif op == 'filter':
            v = S.key('v')
            heap.filter_map(filter_fun=lambda y: y != v)
            model = [y for y in model if y != v]
        elif op == 'map':
            heap.filter_map(map_fun=abs)
            old, model = model, []
            for y in old:
                add(abs(y))
        S.reach(op)
    p = S.key('probe')
    if p in heap:
        S.reach('in')
        S.check(member(S, p, model), 'membership')
    else:
        S.reach('not in')
        S.check(S.Not(member(S, p, model)), 'non-membership')
    # pushing again what is there changes nothing; pushing what was taken out brings it back
    if model:
        heap.push(model[0])
        S.check(len(heap) == len(model), 'second push of the same element')
        x = heap.pop()
        S.check(all_le(S, x, model), 'smallest')
        heap.push(x)
        S.check(len(heap) == len(model), 'a popped element can be pushed again')
    final_checks(S, heap, model, unique=True)


@R.harness(quick=[dict(n=7)], thorough=[dict(n=8)], labels=['heap', 'set'],
           bounds='heaps of n distinct elements in any heap order, removal of any one, then popping all')
def big_remove(S, n):
    xs = [S.key('x%d' % i) for i in range(n)]
    for i in range(1, n):
        S.assume(xs[i] > xs[(i - 1) // 2])
    which = S.choice('which', n)
    cls = S.pick('cls', [Heap, SetHeap])
    S.reach('heap' if cls is Heap else 'set')
    if cls is SetHeap:
        for i in range(n):
            for j in range(i):
                S.assume(S.Not(S.eq(xs[i], xs[j])))
    heap = cls(list(xs))
    S.check_eq(heap.pop_item(xs[which]), xs[which], 'pop_item')
    del xs[which]
    out = [heap.pop() for _ in range(len(xs))]
    S.check(len(heap) == 0)
    S.check(ascending(S, out), 'popped in order')
    S.check(multiset_eq(S, out, xs), 'all popped')


@R.harness(quick=[dict(n=5, how='map'), dict(n=7, how='filter')], thorough=[dict(n=6, how='map'), dict(n=8, how='filter')],
           labels=['heap', 'set', 'map', 'filter', 'merged'],
           bounds='heaps of n elements in any heap order; all of them mapped to any values, or one left out; then popping all')
def big_filter_map(S, n, how):
    S.reach(how)
    if how == 'filter':
        xs = [S.key('x%d' % i) for i in range(n)]
        for i in range(1, n):
            S.assume(xs[i] > xs[(i - 1) // 2])
        S.reach('heap')
        heap = Heap(list(xs))
        which = xs[S.choice('which', n)]
        heap.filter_map(filter_fun=lambda x: x is not which)
        want = [x for x in xs if x is not which]
    else:
        unique = S.flag('set')
        S.reach('set' if unique else 'heap')
        heap = (SetHeap if unique else Heap)(list(range(n)))
        ws = [S.key('w%d' % i) for i in range(n)]
        heap.filter_map(map_fun=lambda i: ws[i])
        want = []
        for w in ws:
            if not unique or not any(w == x for x in want):
                want.append(w)
        if len(want) < n:
            S.reach('merged')
    S.check(len(heap) == len(want), 'length')
    out = [heap.pop() for _ in range(len(want))]
    S.check(not heap, 'all popped')
    S.check(ascending(S, out), 'popped in order')
    S.check(multiset_eq(S, out, want), 'nothing lost, nothing invented')


@R.harness(quick=[dict(n=3, k=1), dict(n=1, k=2)], thorough=[dict(n=4, k=1), dict(n=2, k=2)],
           labels=['append', 'extend', 'iadd', 'remove', 'remove_missing', 'clear', 'copy', 'pop'],
           bounds='a heap (of either kind) of n arbitrary integers, k uses of the methods of a list, then it is drained')
def used_as_a_list(S, n, k):
    unique = S.flag('set')
    xs = [S.key('x%d' % i) for i in range(n)]
    heap, model = (SetHeap if unique else Heap)(list(xs)), []

    def add(v):
        if not unique or not any(y == v for y in model):
            model.append(v)

    for x in xs:
        add(x)
    for i in range(k):
        op = S.pick('op', ['append', 'extend', 'iadd', 'remove', 'clear', 'copy', 'pop'])
        if op == 'append':
            v = S.key('v')
            heap.append(v)
            add(v)
        elif op in ('extend', 'iadd'):
            vs = [S.key('v'), S.key('v')]
            if op == 'extend':
                heap.extend(iter(vs) if S.flag('iterator') else vs)
            else:
                old = heap
                heap += vs
                S.check(heap is old, 'in place')
            for v in vs:
                add(v)
        elif op == 'remove':
            v = S.key('v')
            r, _ = S.raises(ValueError, heap.remove, v)
            S.check(S.Not(member(S, v, model)) if r else member(S, v, model), 'ValueError iff absent')
            if r:
                S.reach('remove_missing')
                continue
            take_out(S, model, v, 'remove')
        elif op == 'clear':
            heap.clear()
            model = []
            S.check(not heap, 'cleared')
            v = S.key('v')
            heap.push(v)
            add(v)
        elif op == 'copy':
            other = heap.copy()
            S.check(type(other) is type(heap) and len(other) == len(heap), 'copy')
            other.clear()
        elif model:
            x = heap.pop()
            S.check(all_le(S, x, model), 'popped element is not the smallest')
            take_out(S, model, x, 'pop')
        else:
            continue
        S.reach(op)
    final_checks(S, heap, model, unique)
