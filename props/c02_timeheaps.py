import copy

from engine.harness import Registry
from props.lib import take_out, multiset_eq, ascending, all_le, member, same
from satella.coding.structures import TimeBasedHeap, TimeBasedSetHeap

R = Registry('C02', assumptions=['timestamps and items are mathematical integers',
                                 'clock stub: returns an arbitrary integer'])


def pairs_eq(S, a, b):
    return multiset_eq(S, a, b)


def drain(S, heap, model, unique=None):
    """everything still on the heap comes out in timestamp order"""
    S.check(len(heap) == len(model), 'length')
    S.check(multiset_eq(S, list(heap.items()), [i for t, i in model]), 'items()')
    if model and isinstance(heap, TimeBasedHeap):
        ts, it = heap.peek_closest()
        S.check(all_le(S, ts, [t for t, i in model]), 'peek_closest')
    out = []
    while heap:
        out.append(heap.pop())
    S.check(ascending(S, [t for t, i in out]), 'popped in timestamp order')
    S.check(pairs_eq(S, out, model), 'nothing lost, nothing invented')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['all', 'none', 'some', 'equal', 'default', 'explicit'],
           bounds='n entries with arbitrary timestamps, one pop_less_than with an arbitrary bound '
                  'taken from the argument or from the clock, partly consumed')
def pop_less_than(S, n):
    now = S.key('now')
    cls = S.pick('cls', [TimeBasedHeap, TimeBasedSetHeap])
    heap = cls(default_clock_source=lambda: now)
    model = []
    for i in range(n):
        ts = S.key('ts%d' % i)
        heap.put(ts, S.lit(i + 1))
        model.append((ts, S.lit(i + 1)))
    arg = S.pick('arg', ['default', 'explicit'])
    S.reach(arg)
    it = heap.pop_less_than() if arg == 'default' else heap.pop_less_than(now)
    limit = S.choice('consume', n + 1)      # n = exhaust
    got = []
    for e in it:
        got.append(e)
        if len(got) == limit:
            break
    for ts, item in got:
        S.check(ts < now, 'only entries strictly earlier than the bound')
    S.check(ascending(S, [t for t, i in got]), 'in order')
    rest = list(model)
    for e in got:
        for j, m in enumerate(rest):
            if m[1] == e[1]:
                S.check_eq(e[0], m[0], 'timestamp')
                del rest[j]
                break
        else:
            S.fail('unknown or repeated entry %r' % (e,))
    if len(got) < limit or limit == 0:
        # exhausted
        for ts, item in rest:
            S.check(ts >= now, 'every entry earlier than the bound has to be returned')
        S.reach('all' if not rest else 'none' if not got else 'some')
        if rest and rest[0][0] == now:
            S.reach('equal')
    drain(S, heap, rest)


@R.harness(quick=[dict(n=2, k=2), dict(n=3, k=1)], thorough=[dict(n=2, k=3), dict(n=4, k=1)],
           labels=['put', 'put_now', 'pop', 'pop_empty', 'pop_item', 'pop_item_missing',
                   'pop_timestamp', 'pop_timestamp_missing', 'remove', 'get_timestamp',
                   'pop_less_than'],
           bounds='n initial entries + k operations of any kind; arbitrary timestamps and items '
                  '(equal or not)')
def history(S, n, k):
    now = S.key('now')
    heap = TimeBasedHeap(default_clock_source=lambda: now)
    model = []
    for i in range(n):
        ts, it = S.key('ts%d' % i), S.key('it%d' % i)
        heap.put(ts, it)
        model.append((ts, it))
    for i in range(k):
        run_op(S, heap, model, now, False)
    drain(S, heap, model)


def run_op(S, heap, model, now, unique):
    op = S.pick('op', ['put', 'put_now', 'pop', 'pop_item', 'pop_timestamp', 'remove',
                       'get_timestamp', 'pop_less_than'])

    def do_put(ts, v):
        if unique:
            model[:] = [m for m in model if m[1] != v]
        model.append((ts, v))

    if op == 'put':
        ts, v = S.key('ts'), S.key('v')
        heap.put(ts, v)
        do_put(ts, v)
    elif op == 'put_now':
        v = S.key('v')
        heap.put(v)
        do_put(now, v)
    elif op == 'pop':
        if not model:
            S.expect_raises(IndexError, heap.pop)
            S.reach('pop_empty')
            return
        e = heap.pop()
        S.check(all_le(S, e[0], [t for t, i in model]), 'popped entry is not the earliest')
        take_out(S, model, e, 'pop')
    elif op == 'pop_item':
        v = S.key('v')
        r, e = S.raises(ValueError, heap.pop_item, v)
        if r:
            S.check(S.Not(member(S, v, [i for t, i in model])), 'pop_item of a present item')
            S.reach('pop_item_missing')
            return
        S.check_eq(e[1], v, 'pop_item')
        take_out(S, model, e, 'pop_item')
    elif op == 'pop_timestamp':
        t = S.key('v')
        r, e = S.raises(ValueError, heap.pop_timestamp, t)
        if r:
            S.check(S.Not(member(S, t, [t_ for t_, i in model])), 'pop_timestamp, ts is present')
            S.reach('pop_timestamp_missing')
            return
        take_out(S, model, (t, e), 'pop_timestamp')
    elif op == 'remove':
        v = S.key('v')
        heap.remove(v)
        model[:] = [m for m in model if m[1] != v]
    elif op == 'get_timestamp':
        v = S.key('v')
        S.assume(member(S, v, [i for t, i in model]))
        ts = heap.get_timestamp(v)
        S.check(member(S, (ts, v), model), 'get_timestamp')
    elif op == 'pop_less_than':
        b = S.key('v')
        got = list(heap.pop_less_than(b))
        for e in got:
            take_out(S, model, e, 'pop_less_than')
        S.check(S.And(True, *[t < b for t, i in got]), 'only strictly earlier')
        S.check(S.And(True, *[t >= b for t, i in model]), 'all of the earlier')
    S.reach(op)


@R.harness(quick=[dict(n=2, k=1), dict(n=0, k=2)], thorough=[dict(n=2, k=2), dict(n=3, k=1)],
           labels=['put', 'put_now', 'pop', 'pop_empty', 'pop_item', 'pop_item_missing',
                   'pop_timestamp', 'pop_timestamp_missing', 'remove', 'get_timestamp',
                   'pop_less_than', 'reput'],
           bounds='n initial entries + k operations of any kind; arbitrary timestamps and items; '
                  'then every item is put again with a new timestamp')
def set_history(S, n, k):
    now = S.key('now')
    heap = TimeBasedSetHeap(default_clock_source=lambda: now)
    model = []
    for i in range(n):
        ts, it = S.key('ts%d' % i), S.key('it%d' % i)
        heap.put(ts, it)
        model[:] = [m for m in model if m[1] != it]
        model.append((ts, it))
        S.check(len(heap) == len(model), 'an item appears at most once')
    for i in range(k):
        run_op(S, heap, model, now, True)
        S.check(len(heap) == len(model), 'an item appears at most once')
    for ts, it in model:
        S.check_eq(heap.get_timestamp(it), ts, 'get_timestamp')
    absent = S.key('absent')
    if S.Not(member(S, absent, [i for t, i in model])):
        S.expect_raises(ValueError, heap.get_timestamp, absent, msg='get_timestamp of missing')
        # it can be put; and putting moves it
        t1, t2 = S.key('t1'), S.key('t2')
        heap.put(t1, absent)
        heap.put(t2, absent)
        model.append((t2, absent))
        S.check_eq(heap.get_timestamp(absent), t2, 'last put wins')
        S.reach('reput')
    drain(S, heap, model)


@R.harness(quick=[dict(n=7)], thorough=[dict(n=8)], labels=['heap', 'set'],
           bounds='heaps of n entries with distinct timestamps in any heap order, removal of any one by item, '
                  'then releasing all')
def big_remove(S, n):
    ts = [S.key('t%d' % i) for i in range(n)]
    for i in range(1, n):
        S.assume(ts[i] > ts[(i - 1) // 2])
    which = S.choice('which', n)
    setheap = S.flag('set')
    heap = TimeBasedSetHeap() if setheap else TimeBasedHeap()
    S.reach('set' if setheap else 'heap')
    for i, t in enumerate(ts):
        heap.put(t, 'i%d' % i)
    if setheap:
        S.check_eq(heap.pop_item('i%d' % which), (ts[which], 'i%d' % which), 'pop_item')
    elif S.flag('pop_timestamp'):
        which2 = int(heap.pop_timestamp(ts[which])[1:])
        S.check_eq(ts[which2], ts[which], 'pop_timestamp')
        which = which2
    else:
        heap.remove('i%d' % which)
    left = [(t, 'i%d' % i) for i, t in enumerate(ts) if i != which]
    out2 = []
    while heap:
        out2.append(heap.pop())
    S.check(ascending(S, [p[0] for p in out2]), 'in order')
    S.check(sorted(p[1] for p in out2) == sorted(p[1] for p in left), 'nothing lost, once each')
    for t, x in out2:
        S.check(S.eq(t, ts[int(x[1:])]), 'own timestamp')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['rescheduled', 'due again', 'later', 'set', 'heap'],
           bounds='n entries, one or the other put anew (at any time) while the due ones are being released')
def put_while_released(S, n):
    """entries put while iterating are released as well, if they are due"""
    now = S.key('now')
    unique = S.flag('set')
    S.reach('set' if unique else 'heap')
    heap = (TimeBasedSetHeap if unique else TimeBasedHeap)(lambda: now)
    model = []
    for i in range(n):
        e = S.key('ts%d' % i), S.lit(i + 1)
        heap.put(*e)
        model.append(e)
    again = S.choice('again', n)        # puts an entry after this one was released
    count = 0
    for ts, item in heap.pop_less_than(now if S.flag('explicit') else None):
        S.check(ts < now, 'only entries strictly earlier than the bound')
        S.check(all_le(S, ts, [t for t, i in model]), 'the earliest one')
        take_out(S, model, (ts, item), 'released')
        if count == again:
            for j in range(2):
                e = S.key('new%d' % j), S.lit(10 + j) if j else item
                heap.put(*e)
                model.append(e)
                S.reach('due again' if e[0] < now else 'later')
            S.reach('rescheduled')
        count += 1
    for ts, item in model:
        S.check(ts >= now, 'every entry earlier than the bound has to be released')
    drain(S, heap, model)


class Job:
    """cannot be ordered"""


@R.harness(quick=[dict(n=3, k=1)], thorough=[dict(n=4, k=1), dict(n=3, k=2)],
           labels=['put', 'put_now', 'push', 'push_many', 'filter', 'map', 'pop_item', 'remove', 'pop_timestamp'],
           bounds='n items that cannot be ordered, with arbitrary (also equal) timestamps; k operations')
def jobs(S, n, k):
    now = S.key('now')
    heap = S.pick('cls', [TimeBasedHeap, TimeBasedSetHeap])(default_clock_source=lambda: now)
    model = []
    for i in range(n):
        job = Job()
        model.append((S.key('ts%d' % i), job))
        heap.put(*model[-1])
    for _ in range(k):
        op = S.pick('op', ['put', 'put_now', 'push', 'push_many', 'filter', 'map', 'pop_item', 'remove', 'pop_timestamp'])
        which = S.choice('which', len(model)) if op in ('filter', 'pop_item', 'remove', 'pop_timestamp') else None
        if op in ('put', 'push'):
            e = S.key('ts'), Job()
            heap.put(*e) if op == 'put' else heap.push(e)
            model.append(e)
        elif op == 'put_now':
            job = Job()
            heap.put(job)
            model.append((now, job))
        elif op == 'push_many':
            es = [(S.key('ts'), Job()), (S.key('ts'), Job())]
            heap.push_many(iter(es))
            model += es
        elif op == 'map':
            d = S.key('shift')
            heap.filter_map(map_fun=lambda e: (d - e[0], e[1]))
            model = [(d - t, j) for t, j in model]
        elif op == 'filter':
            heap.filter_map(filter_fun=lambda e, j=model[which][1]: e[1] is not j)
            del model[which]
        elif op == 'pop_item':
            S.check_eq(heap.pop_item(model[which][1]), model[which], 'pop_item')
            del model[which]
        elif op == 'remove':
            heap.remove(model[which][1])
            del model[which]
        else:
            t = model[which][0]
            job = heap.pop_timestamp(t)
            at = [i for i, m in enumerate(model) if m[1] is job]
            S.check(len(at) == 1, 'an item of the heap')
            S.check_eq(model[at[0]][0], t, 'with this timestamp')
            del model[at[0]]
        S.reach(op)
    out = []
    while heap:
        out.append(heap.pop())
    S.check(ascending(S, [t for t, j in out]), 'released in the order of time')
    S.check(len(out) == len(model), 'nothing lost, nothing invented')
    for t, job in out:
        at = [m for m in model if m[1] is job]
        S.check(len(at) == 1, 'released once')
        S.check_eq(t, at[0][0], 'with its timestamp')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['shallow', 'deep', 'copy', 'cleared', 'pushed'],
           bounds='copies (of any kind) of a heap of n entries with arbitrary timestamps; then either changes')
def copies(S, n):
    now = S.key('now')
    unique = S.flag('set')
    heap = (TimeBasedSetHeap if unique else TimeBasedHeap)(lambda: now)
    model = []
    for i in range(n):
        e = S.key('ts%d' % i), S.lit(i + 1)
        heap.put(*e)
        model.append(e)
    how = S.pick('how', ['shallow', 'deep', 'copy'])
    other = {'shallow': copy.copy, 'deep': copy.deepcopy, 'copy': lambda h: h.copy()}[how](heap)
    S.reach(how)
    S.check(type(other) is type(heap) and other is not heap, 'a heap of the same kind')
    changed, left = (heap, other) if S.flag('which') else (other, heap)
    model2 = list(model)
    if S.flag('clear'):
        changed.clear()
        S.check(not changed and len(changed) == 0, 'cleared')
        model = []
        S.reach('cleared')
    elif unique:
        ts = S.key('ts')
        changed.put(ts, S.lit(1))
        model[0] = ts, S.lit(1)
    changed.put(S.lit(50))      # by its own clock
    model.append((now, S.lit(50)))
    S.reach('pushed')
    for h, m in ((changed, model), (left, model2)):
        if unique:
            for t, i in m:
                S.check_eq(h.get_timestamp(i), t, 'get_timestamp')
        drain(S, h, m)
