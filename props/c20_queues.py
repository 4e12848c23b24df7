import queue

from engine.harness import Registry
from engine.sched import Threads
from satella.coding.concurrent import PeekableQueue
from satella.coding.structures import Subqueue
from satella.exceptions import Empty

R = Registry('C20', assumptions=[
    'threads are preempted between lines, stores and calls of satella code; the standard library '
    'Condition and Queue are executed on model locks; a timeout expires when no thread can run, or '
    'earlier where stated'])

FOCUS = ['coding/concurrent/queue', 'coding/structures/queues']


def is_sublist(a, b):
    """a is a subsequence of b"""
    it = iter(b)
    return all(any(x is y for y in it) for x in a)


@R.harness(quick=[dict(getters=1, puts=1, switches=2), dict(getters=2, puts=2, switches=1)],
           thorough=[dict(getters=1, puts=2, switches=3), dict(getters=2, puts=2, switches=2)],
           labels=['put', 'put_many'],
           bounds='threads each taking one element, a thread putting as many (one by one or at once)')
def every_getter_is_served(S, getters, puts, switches):
    many = S.flag('put_many')
    items = ['item%d' % (i,) for i in range(puts)]
    with Threads(S, switches, focus=FOCUS) as sc:
        q = PeekableQueue()

        def putter():
            if many:
                q.put_many(items)
            else:
                for i in items:
                    q.put(i)

        rs = sc.run(putter, *[q.get for _ in range(getters)], may_block=True)
        S.check(rs[0] == ('ok', None), lambda: repr(rs[0]))
        S.check(all(r[0] == 'ok' for r in rs[1:]),
                lambda: 'threads waiting for an element while the queue has %d: %r' % (q.qsize(), rs))
        got = [r[1] for r in rs[1:]]
        for i in items:
            S.check(sum(g is i for g in got) <= 1, 'no element is given out twice')
        S.check(all(any(g is i for i in items) for g in got), 'elements are those put in')
        if getters == 1:
            S.check(got[0] is items[0], 'the oldest element is served first')
        S.check(q.qsize() == puts - getters, 'what was not taken remains')
        S.reach('put_many' if many else 'put')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['done'],
           bounds='a thread peeking and a thread getting wait, then one element is put')
def peeking_does_not_consume(S, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        q = PeekableQueue()
        second = S.flag('second_element')

        def putter():
            q.put(1)
            if second:
                q.put(2)

        rs = sc.run(q.peek, q.get, putter, may_block=True)
        S.check(rs[1] == ('ok', 1), lambda: 'the getter is not served: %r' % (rs,))
        S.check(rs[2] == ('ok', None), 'put')
        if second:
            S.check(rs[0] in (('ok', 1), ('ok', 2)), lambda: 'the peeker is not served: %r' % (rs,))
            S.check(q.qsize() == 1 and q.peek() == 2 and q.get() == 2, 'the other element remains')
        else:
            # it may come too late to see it
            S.check(rs[0] in (('ok', 1), ('blocked', None)), lambda: repr(rs))
            S.check(q.qsize() == 0, 'peeking does not put it back')
        S.reach('done')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['got', 'empty'],
           bounds='get or peek with an arbitrary timeout, against an element put at an arbitrary '
                  'instant (or never); the timeout may also expire early relative to other threads')
def timeouts(S, switches):
    timeout = S.int('timeout', 0, 8)
    put_at = S.int('put_at', 0, 8)
    S.assume(timeout != put_at)
    never = S.flag('never')
    peek = S.flag('peek')
    with Threads(S, switches, focus=FOCUS) as sc:
        q = PeekableQueue()

        def putter():
            if put_at > 0:
                sc.sleep(put_at)
            if not never:
                q.put(7)

        def getter():
            try:
                return (q.peek if peek else q.get)(timeout), sc.now
            except Empty:
                return 'empty', sc.now

        rs = sc.run(getter, putter)
        v, when = sc.value(rs[0])
        if not never and bool(put_at < timeout):
            S.check(v == 7, 'an element put before the timeout is served')
            S.check(when == put_at, 'served at once')
            S.check(q.qsize() == (1 if peek else 0), 'taken, unless peeked at')
            S.reach('got')
        else:
            S.check(v == 'empty', 'nothing to serve before the timeout')
            S.check(when == timeout, 'raised exactly when the timeout expired')
            S.check(q.qsize() == (0 if never else 1), 'an element put later remains')
            S.reach('empty')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['all', 'left'],
           bounds='two threads getting with timeouts, one element put, timeouts expiring at any moment')
def an_element_is_not_stranded(S, switches):
    with Threads(S, switches, focus=FOCUS, early=True) as sc:
        q = PeekableQueue()

        def getter():
            try:
                return q.get(5)
            except Empty:
                return None

        rs = sc.run(getter, q.get, lambda: q.put(1), may_block=True)
        if rs[0] == ('ok', 1):
            S.check(rs[1] == ('blocked', None), lambda: repr(rs))
            S.reach('left')
        else:
            S.check(rs[0] == ('ok', None), lambda: repr(rs))
            S.check(rs[1] == ('ok', 1), lambda: 'an element is there, but a thread still waits for it: %r' % (rs,))
            S.reach('all')


@R.harness(quick=[dict(k=4)], thorough=[dict(k=6)], labels=['get', 'peek', 'empty', 'many'],
           bounds='k operations by a single thread against a list')
def sequential(S, k):
    with Threads(S, 0) as sc:
        q = PeekableQueue()
        model = []
        for i in range(k):
            op = S.pick('op', ['put', 'put_many', 'get', 'peek'])
            if op == 'put':
                x = None if i == 1 else S.int('x')
                q.put(x)
                model.append(x)
            elif op == 'put_many':
                xs = [S.int('x') for _ in range(S.choice('n', 3))]
                q.put_many(xs)
                model.extend(xs)
                S.reach('many')
            elif model:
                S.check_eq(getattr(q, op)(), model[0], op)
                if op == 'get':
                    model.pop(0)
                S.reach(op)
            else:
                t = S.int('timeout', 0, 3)
                S.expect_raises(Empty, getattr(q, op), t, msg='nothing there')
                S.reach('empty')
            S.check(q.qsize() == len(model), 'size')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['same', 'different'],
           bounds='two threads putting to (possibly the same, not yet existing) named queues, '
                  'then a reader')
def named_queues(S, switches):
    a, b = S.pick('a', ['x', 'y']), S.pick('b', ['x', 'y'])
    with Threads(S, switches, focus=FOCUS) as sc:
        q = Subqueue()
        rs = sc.run(lambda: q.put(a, 1), lambda: q.put(b, 2))
        S.check(all(r == ('ok', None) for r in rs), lambda: repr(rs))
        S.check(q.qsize() == 2, lambda: 'elements lost: %d of 2 are there' % (q.qsize(),))
        if S.flag('any'):
            S.check({q.get_any(), q.get_any()} == {(a, 1), (b, 2)}, 'any element, with its queue')
            S.expect_raises(queue.Empty, q.get_any, msg='no more')
        else:
            S.check({(a, q.get(a)), (b, q.get(b))} == {(a, 1), (b, 2)}, 'elements by queue')
            S.expect_raises(queue.Empty, q.get, a, False, msg='no more')
        S.reach('same' if a == b else 'different')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['taken', 'left'],
           bounds='a thread taking any element while another one puts to a queue, possibly a new one')
def any_element(S, switches):
    first, second = S.pick('first', ['x', 'y']), S.pick('second', ['x', 'y'])
    state = S.pick('state', ['nothing', 'empty', 'existing'])
    existing = state == 'existing'
    sized = S.flag('sized')
    with Threads(S, switches, focus=FOCUS) as sc:
        q = Subqueue()
        if existing:
            q.put(first, 1)
        elif state == 'empty':
            q.assert_queue(first)
        rs = sc.run(lambda: q.put(second, 2), (lambda: (q.qsize(), q.get_any())[1]) if sized else q.get_any)
        S.check(rs[0] == ('ok', None), lambda: repr(rs))
        there = [(first, 1)] * existing + [(second, 2)]
        if rs[1][0] == 'ok':
            S.check(rs[1][1] in there, lambda: 'got %r' % (rs,))
            there.remove(rs[1][1])
            S.reach('taken')
        else:
            S.check(isinstance(rs[1][1], queue.Empty), lambda: 'failed with %r' % (rs[1][1],))
            S.check(not existing, 'an element was there')
            S.reach('left')
        S.check_eq(q.qsize(), len(there), 'size')
        S.check_eq([q.get_any() for _ in there], there, 'what is left')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['first', 'second', 'peeked'],
           bounds='two threads waiting for one element (or more), each with its own timeout, put in at any time before '
                  'these expire')
def one_element_for_two(S, switches):
    peek = S.flag('peek')
    with Threads(S, switches, focus=FOCUS) as sc:
        q = PeekableQueue()
        first, second, at = S.int('first', 4, 9), S.int('second', 4, 9), S.int('at', 1, 3)
        S.assume(first != second)

        def getter(timeout, peek=False):
            def f():
                try:
                    return (q.peek if peek else q.get)(timeout), sc.now
                except Empty:
                    return 'empty', sc.now
            return f

        def putter():
            sc.sleep(at)
            q.put(7)

        rs = [sc.value(r) for r in sc.run(getter(first), getter(second, peek), putter)]
        ends = [(first, rs[0]), (second, rs[1])]
        got = [i for i in range(2) if rs[i][0] == 7]
        if peek:
            S.check(0 in got, 'the element is taken')
            S.reach('peeked')
        else:
            S.check(len(got) == 1, lambda: 'exactly one gets it: %r' % (rs,))
            S.reach('second' if got[0] else 'first')
        for i, (timeout, (v, end)) in enumerate(ends):
            S.check_eq(end, at if i in got else timeout, 'served at once, or else waits for exactly its timeout')


@R.harness(quick=[dict(k=3)], thorough=[dict(k=5)], labels=['get', 'any', 'empty', 'timeout'],
           bounds='k operations on two named queues by a single thread against two lists')
def sequential_named(S, k):
    with Threads(S, 0) as sc:
        q = Subqueue()
        model = {}
        for i in range(k):
            op = S.pick('op', ['put', 'get', 'get_any', 'assert'])
            name = S.pick('name', ['x', '']) if op != 'get_any' else None
            if op == 'put':
                x = S.pick('what', [None, 0, object()])
                q.put(name, x)
                model.setdefault(name, []).append(x)
            elif op == 'assert':
                q.assert_queue(name)
            elif op == 'get':
                left = model.get(name)
                if left:
                    S.check(q.get(name) is left.pop(0), 'first in, first out')
                    S.reach('get')
                else:
                    now = sc.now
                    how = S.pick('how', [dict(block=False), dict(timeout=2)])
                    S.expect_raises(queue.Empty, lambda: q.get(name, **how), msg='nothing in this queue')
                    S.check_eq(sc.now - now, 2 if 'timeout' in how else 0, 'waits as long as asked to')
                    S.reach('timeout' if 'timeout' in how else 'empty')
            else:
                if any(model.values()):
                    n, x = q.get_any()
                    S.check(model.get(n) and model[n].pop(0) is x, 'the oldest one of its queue')
                    S.reach('any')
                else:
                    S.expect_raises(queue.Empty, q.get_any, msg='nothing in any queue')
            S.check(q.qsize() == sum(map(len, model.values())), 'size')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['served', 'timeout'],
           bounds='a thread waiting for an element of a (possibly new) named queue, others being put to this queue and to '
                  'another one')
def waiting_for_a_named_queue(S, switches):
    known = S.flag('known')
    timeout = S.pick('timeout', [None, 2, 10])
    with Threads(S, switches, focus=FOCUS) as sc:
        q = Subqueue()
        if known:
            q.assert_queue('x')
        q.put('y', 'other')

        def getter():
            try:
                return q.get('x', timeout=timeout), sc.now
            except queue.Empty:
                return 'empty', sc.now

        def putter():
            sc.sleep(5)
            q.put('x', 'this')

        rs = sc.run(getter, putter, may_block=True)
        S.check(rs[1] == ('ok', None), 'put')
        S.check(rs[0] == ('ok', ('this', 5) if timeout != 2 else ('empty', 2)), lambda: 'got %r' % (rs,))
        S.reach('served' if timeout != 2 else 'timeout')
        S.check(q.qsize() == (2 if timeout == 2 else 1), 'what is left')
