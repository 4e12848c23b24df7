from engine.harness import Registry
from engine.sched import Threads
from satella.coding.concurrent import LockedDataset, LockedStructure, Monitor, RMonitor, MonitorSet, \
    MonitorDict, MonitorList, DeferredValue, IDAllocator, SequentialIssuer
from satella.exceptions import WouldWaitMore, ResourceNotLocked, Empty, AlreadyAllocated

R = Registry('C21', assumptions=[
    'threads are preempted between lines, stores and calls of satella code and at marked points of '
    'the protected regions; locks are models'])

FOCUS = ['coding/concurrent/', 'coding/decorators/']


class Region:
    """a region that at most one thread should be in; being in it takes a while"""

    def __init__(self, S, sc):
        self.S, self.sc = S, sc
        self.inside = 0
        self.entries = 0

    def visit(self):
        self.S.check(self.inside == 0, 'two threads are in the protected region')
        self.inside += 1
        self.entries += 1
        self.sc.sleep(1)
        self.inside -= 1


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)],
           labels=['synchronized', 'acquire', 'with', 'on', 'attribute', 'reentrant'],
           bounds='two threads entering regions protected by the same monitor, each in any of the ways')
def monitors(S, switches):
    ways = ['synchronized', 'acquire', 'with', 'on', 'attribute']
    reentrant = S.flag('reentrant')
    base = RMonitor if reentrant else Monitor
    if reentrant:
        ways = ways[:3]
        S.reach('reentrant')
    with Threads(S, switches, focus=FOCUS) as sc:
        region = Region(S, sc)

        class M(base):
            def __init__(self):
                super().__init__()

            @Monitor.synchronized
            def enter(self, x):
                region.visit()
                return x

            @Monitor.synchronized
            def nested(self, x):
                with Monitor.acquire(self):
                    return self.enter(x)

        m = M()

        class Slave:
            @Monitor.synchronize_on(m)
            def enter(self, x):
                region.visit()
                return x

        class Holder:
            def __init__(self):
                self.monitor = m

            @Monitor.synchronize_on_attribute('monitor')
            def enter(self, x):
                region.visit()
                return x

        def enter(way, x):
            if way == 'synchronized':
                return (m.nested if reentrant else m.enter)(x)
            elif way == 'acquire':
                with Monitor.acquire(m):
                    region.visit()
            elif way == 'with':
                with m as mm:
                    S.check(mm is m, 'entering gives the monitor')
                    region.visit()
            elif way == 'on':
                return Slave().enter(x)
            else:
                return Holder().enter(x)
            return x

        w = [S.pick('way', ways) for _ in range(2)]
        rs = sc.run(lambda: enter(w[0], 1), lambda: enter(w[1], 2))
        S.check(rs == [('ok', 1), ('ok', 2)], lambda: repr(rs))
        S.check(region.entries == 2, 'both were in')
        for x in w:
            S.reach(x)


class Quit(BaseException):
    pass


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['free', 'raised'],
           bounds='a thread temporarily releasing a monitor it holds, another thread entering; '
                  'the released block may raise')
def temporary_release(S, switches):
    fails = S.flag('fails')
    stay = S.int('stay', 1, 20)
    with Threads(S, switches, focus=FOCUS) as sc:
        region = Region(S, sc)
        m = Monitor()
        free = Region(S, sc)

        def releasing():
            with m:
                region.visit()
                try:
                    with Monitor.release(m):
                        sc.sleep(5)
                        if fails:
                            raise S.pick('type', [KeyError, Quit])('x')
                except (KeyError, Quit):
                    S.reach('raised')
                region.visit()

        def other():
            with Monitor.acquire(m):
                region.visit()
                now = sc.now
                region.inside += 1
                sc.sleep(stay)
                region.inside -= 1
                return now

        rs = sc.run(releasing, other)
        S.check(rs[0] == ('ok', None), lambda: repr(rs))
        S.check(sc.value(rs[1]) <= 3, 'the other thread enters while it is released')
        S.check(region.entries == 3, 'all were in')
        with m:
            pass
        S.reach('free')


@R.harness(quick=[dict()], labels=['raised', 'returned'],
           bounds='a protected function that returns or raises; the monitor is usable afterwards')
def exceptions_release(S):
    with Threads(S, 0) as sc:
        fails = S.flag('fails')
        type_ = S.pick('type', [KeyError, Quit]) if fails else None
        way = S.pick('way', ['synchronized', 'acquire', 'with', 'on', 'attribute', 'dataset', 'dataset_dec',
                             'structure'])

        class M(Monitor):
            @Monitor.synchronized
            def f(self):
                return g()

        class Holder:
            @Monitor.synchronize_on_attribute('m')
            def f(self):
                return g()

        class DS(LockedDataset):
            @LockedDataset.locked()
            def f(self):
                return g()

        def g():
            if fails:
                raise type_('x')
            return 5

        m, h, ds, st = M(), Holder(), DS(), LockedStructure({})
        h.m = m

        def call():
            if way == 'synchronized':
                return m.f()
            if way == 'on':
                return Monitor.synchronize_on(m)(g)()
            if way == 'attribute':
                return h.f()
            if way == 'dataset_dec':
                return ds.f()
            with {'acquire': Monitor.acquire(m), 'with': m, 'dataset': ds, 'structure': st}[way]:
                return g()

        for _ in range(2):      # the second time blocks forever, if it was not released
            r, v = S.raises((KeyError, Quit), call)
            S.check(r == fails and (fails or v == 5), 'result or exception is passed on')
        S.reach('raised' if fails else 'returned')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['counted'],
           bounds='two threads updating a locked dataset by method or by with')
def dataset_updates(S, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        class DS(LockedDataset):
            def __init__(self):
                super().__init__()
                with self:
                    self.counter = 0

            @LockedDataset.locked()
            def increment(self):
                self.counter += 1

        ds = DS()
        ways = [S.pick('way', ['method', 'with', 'timed']) for _ in range(2)]

        def update(way):
            if way == 'method':
                ds.increment()
            elif way == 'with':
                with ds as d:
                    x = d.counter
                    sc.sleep(1)
                    d.counter = x + 1
            else:
                with ds(blocking=True, timeout=10) as d:
                    x = d.counter
                    sc.sleep(1)
                    d.counter = x + 1

        rs = sc.run(lambda: update(ways[0]), lambda: update(ways[1]))
        S.check(rs == [('ok', None)] * 2, lambda: 'an update failed: %r' % (rs,))
        with ds:
            S.check(ds.counter == 2, 'an update was lost')
        S.expect_raises(ResourceNotLocked, lambda: ds.counter, msg='reading without the lock')
        S.expect_raises(ResourceNotLocked, lambda: setattr(ds, 'counter', 5), msg='writing without the lock')
        S.reach('counted')


@R.harness(quick=[dict()], labels=['got', 'refused', 'waited'],
           bounds='one thread holding a locked dataset for an arbitrary time, another one trying to lock '
                  'it with arbitrary settings, then plainly')
def dataset_timeouts(S):
    hold = S.int('hold', 1, 9)
    mode = S.pick('mode', ['plain', 'nonblocking', 'timeout', 'dec_nonblocking', 'dec_timeout'])
    timeout = S.int('timeout', 1, 9)
    S.assume(hold != timeout + 1)
    with Threads(S, 0) as sc:
        class DS(LockedDataset):
            @LockedDataset.locked(blocking=False)
            def nonblocking(self):
                return 'in'

            @LockedDataset.locked(timeout=timeout)
            def timed(self):
                return 'in'

        ds = DS()

        def holder():
            with ds:
                ds.x = 1
                sc.sleep(hold)

        def other():
            sc.sleep(1)
            S.assume(hold > 1)
            try:
                if mode == 'plain':
                    with ds:
                        pass
                elif mode == 'nonblocking':
                    with ds(blocking=False):
                        pass
                elif mode == 'timeout':
                    with ds(timeout=timeout):
                        pass
                elif mode == 'dec_nonblocking':
                    ds.nonblocking()
                else:
                    ds.timed()
                got = sc.now
            except WouldWaitMore:
                got = None
            # a plain lock afterwards waits for as long as necessary
            with ds:
                S.check(ds.x == 1, 'contents')
                S.check(sc.now >= hold, 'the plain lock waits for the holder')
            return got

        rs = sc.run(holder, other)
        S.check(rs[0] == ('ok', None), lambda: repr(rs))
        got = sc.value(rs[1])
        if mode == 'plain' or (mode.endswith('timeout') and bool(hold < timeout + 1)):
            S.check(got is not None and bool(got == hold), 'gets the lock as soon as it is free')
            S.reach('got')
            S.reach('waited')
        else:
            S.check(got is None, 'refused, as it stays locked for longer')
            S.reach('refused')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['done'],
           bounds='two threads in a locked structure')
def locked_structure(S, switches):
    with Threads(S, switches, focus=FOCUS + ['coding/structures/proxy']) as sc:
        d = LockedStructure({'x': 0})

        def update():
            with d as dd:
                v = dd['x']
                sc.sleep(1)
                dd['x'] = v + 1

        rs = sc.run(update, update)
        S.check(rs == [('ok', None)] * 2, lambda: repr(rs))
        S.check(d['x'] == 2, 'an update was lost')
        S.reach('done')


@R.harness(quick=[dict(n=2, switches=2)], thorough=[dict(n=3, switches=2)], labels=['same', 'different', 'there'],
           bounds='threads inserting (possibly equal) items into a set')
def insert_and_check(S, n, switches):
    items = [S.choice('item', 3) for _ in range(n)]
    there = S.flag('already_there')
    with Threads(S, switches, focus=FOCUS) as sc:
        s = MonitorSet([0] if there else [])
        rs = sc.run(*[lambda x=x: s.insert_and_check(x) for x in items])
        for x in set(items):
            wins = sum(sc.value(r) for r, y in zip(rs, items) if y == x)
            S.check(wins == (0 if x == 0 and there else 1), 'exactly one thread inserts an item')
        S.check(set(s) == set(items) | ({0} if there else set()), 'contents')
        S.reach('same' if len(set(items)) < n else 'different')
        if there:
            S.reach('there')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['got', 'double', 'timeout'],
           bounds='two threads setting a deferred value, one waiting for it (with or without a timeout)')
def deferred_value(S, switches):
    setters = S.choice('setters', 3)
    values = S.pick('values', [(0, 0), (None, 0)])
    timed = S.flag('timed')
    timeout = S.int('timeout', 0, 5)
    pause = S.int('pause', 1, 5)
    S.assume(pause != timeout)
    with Threads(S, switches, focus=FOCUS) as sc:
        d = DeferredValue()
        winners = []

        def setter(x):
            if timed:
                sc.sleep(pause)
            try:
                d.set_value(values[x])
                winners.append(values[x])
            except ValueError:
                pass

        def getter():
            try:
                return (d.value if values[0] is None else d.result)(timeout if timed else None), sc.now
            except WouldWaitMore:
                return 'late', sc.now

        rs = sc.run(getter, *[lambda i=i: setter(i) for i in range(setters)], may_block=True)
        S.check(all(r == ('ok', None) for r in rs[1:]), lambda: repr(rs))
        S.check(len(winners) == min(setters, 1), lambda: 'set %d times' % (len(winners),))
        if setters == 2:
            S.reach('double')
        if not setters and not timed:
            S.check(rs[0] == ('blocked', None), 'waits as long as necessary')
        elif setters and (not timed or bool(pause < timeout)):
            v, when = sc.value(rs[0])
            S.check(v is winners[0] and v in values, 'the value that was set')
            for _ in range(2):
                S.check(d.value() is v and d.result() is v and d.value(0) is v and d.value(5) is v, 'it stays there')
            S.check(when == (pause if timed else 0), 'at once')
            S.reach('got')
        else:
            v, when = sc.value(rs[0])
            S.check(v == 'late' and bool(when == timeout), 'raised when the timeout expired')
            S.reach('timeout')


@R.harness(quick=[dict(n=2, switches=1)], thorough=[dict(n=3, switches=1), dict(n=2, switches=2)],
           labels=['allocate', 'mark', 'free', 'issue'],
           bounds='threads allocating, marking and freeing identifiers, or issuing them')
def identifiers(S, n, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        start = 3
        if S.flag('sequential'):
            si = SequentialIssuer(start)
            floor = S.int('no_less', 0, 6)
            kinds = [S.pick('kind', ['issue', 'no_less']) for _ in range(n)]
            rs = sc.run(*[si.issue if k == 'issue' else (lambda: si.no_less_than(floor)) for k in kinds])
            got = [sc.value(r) for r in rs]
            for i in range(n):
                for j in range(i):
                    S.check(got[i] != got[j], lambda: 'issued twice: %r' % (got,))
                S.check(got[i] >= (start if kinds[i] == 'issue' else floor), 'no less than asked for')
            S.reach('issue')
            return
        ids = IDAllocator(start, start + 4)
        first = ids.allocate_int()
        kinds = [S.pick('kind', ['allocate', 'mark', 'free']) for _ in range(n)]
        other = start + 1 if first != start + 1 else start + 2

        def work(kind):
            if kind == 'allocate':
                return ids.allocate_int()
            if kind == 'mark':
                try:
                    ids.mark_as_allocated(other)
                except AlreadyAllocated:
                    return 'taken'
                return other
            try:
                ids.mark_as_free(first)
            except ValueError:
                return 'not allocated'
            return 'freed'

        rs = sc.run(*[lambda k=k: work(k) for k in kinds])
        got = [sc.value(r) for r in rs]
        freed = got.count('freed')
        S.check(freed == (1 if 'free' in kinds else 0), 'freed exactly once')
        nums = [x for x in got if type(x) is int]
        S.check(len(set(nums)) == len(nums), lambda: 'allocated twice: %r' % (got,))
        S.check(freed or first not in nums, 'allocated again')
        S.check('taken' not in got or nums.count(other) == 1, 'taken by somebody')
        rest = []
        while True:
            r, v = S.raises(Empty, ids.allocate_int)
            if r:
                break
            rest.append(v)
        held = set(nums) | ({first} if not freed else set())
        S.check(sorted(rest) == [x for x in range(start, start + 4) if x not in held],
                lambda: 'what remains: %r, held %r' % (rest, held))
        for k in kinds:
            S.reach(k)


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['list', 'dict'],
           bounds='monitored collections are collections, and monitors')
def collections_(S, switches):
    import copy
    with Threads(S, switches, focus=FOCUS) as sc:
        if S.flag('list'):
            xs = MonitorList([0])

            def update():
                with Monitor.acquire(xs):
                    v = xs[0]
                    sc.sleep(1)
                    xs[0] = v + 1
            S.reach('list')
        else:
            xs = MonitorDict({0: 0})

            def update():
                with xs:
                    v = xs[0]
                    sc.sleep(1)
                    xs[0] = v + 1
            S.reach('dict')
        rs = sc.run(update, update)
        S.check(rs == [('ok', None)] * 2, lambda: repr(rs))
        S.check(xs[0] == 2, 'an update was lost')
        deep = S.flag('deep')
        y = (copy.deepcopy if deep else copy.copy)(xs)
        S.check(type(y) is type(xs) and y.data == xs.data and y.data is not xs.data, 'a copy')
        nested = type(xs)({0: []} if type(xs) is MonitorDict else [[]])
        z = (copy.deepcopy if deep else copy.copy)(nested)
        S.check(z[0] == [] and (z[0] is nested[0]) == (not deep), 'only a deep copy copies the elements')
        z[0].append(1)
        S.check(nested[0] == ([] if deep else [1]), 'a deep copy is independent as to the elements too')
        with xs:
            with y:         # has a lock of its own
                y[0] = 5
        S.check(xs[0] == 2, 'a copy is independent')
        del xs[0]
        S.check(len(xs) == 0, 'deletion')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['both', 'one'],
           bounds='two threads waiting for a deferred value, each with a timeout or without, one setting it')
def deferred_to_many(S, switches):
    value = S.pick('value', [None, 0, 5])
    pause = S.int('pause', 0, 5)
    timeouts = [S.int('timeout%d' % i, 1, 5) if S.flag('timed') else None for i in range(2)]
    for t in timeouts:
        S.assume(t is None or t != pause)
    with Threads(S, switches, focus=FOCUS) as sc:
        d = DeferredValue()

        def get(timeout):
            try:
                return d.value(timeout), sc.now
            except WouldWaitMore:
                return 'late', sc.now

        def setter():
            sc.sleep(pause)
            d.set_value(value)

        rs = sc.run(lambda: get(timeouts[0]), setter, lambda: get(timeouts[1]))
        got = 0
        for r, t in zip((rs[0], rs[2]), timeouts):
            v, when = sc.value(r)
            if t is None or bool(pause < t):
                S.check(v is value and when == pause, 'everybody gets the value as soon as it is there')
                got += 1
            else:
                S.check(v == 'late' and when == t, 'the timeout is observed')
        if got:
            S.reach('both' if got == 2 else 'one')


@R.harness(quick=[dict()], labels=['plain', 'keyword', 'defaulted', 'wrong'],
           bounds='a protected function called in each way with positional, keyword or omitted arguments')
def arguments(S):
    with Threads(S, 0):
        got = []

        def g(a, b=7, *rest, **more):
            got.append((a, b, rest, more))
            return len(got)

        class M(Monitor):
            @Monitor.synchronized
            def f(self, a, b=7, *rest, **more):
                return g(a, b, *rest, **more)

        class RM(RMonitor):
            @RMonitor.synchronized
            def f(self, a, b=7, *rest, **more):
                return g(a, b, *rest, **more)

        class Holder:
            @Monitor.synchronize_on_attribute('m')
            def f(self, a, b=7, *rest, **more):
                return g(a, b, *rest, **more)

        class DS(LockedDataset):
            @LockedDataset.locked()
            def f(self, a, b=7, *rest, **more):
                self.x = a
                return g(a, b, *rest, **more)

        h = Holder()
        h.m = M()
        fun = S.pick('way', [M().f, RM().f, h.f, DS().f, Monitor.synchronize_on(M())(g)])
        x, y = S.int('x', -5, 5), S.int('y', -5, 5)
        for i in range(1, 3):
            form = S.pick('form', ['plain', 'keyword', 'defaulted', 'rest', 'wrong'])
            if form == 'plain':
                rv, want = fun(x, y), (x, y, (), {})
            elif form == 'keyword':
                rv, want = fun(b=y, a=x), (x, y, (), {})
            elif form == 'defaulted':
                rv, want = fun(x), (x, 7, (), {})
            elif form == 'rest':
                rv, want = fun(x, y, 3, c=None), (x, y, (3,), {'c': None})
            else:
                S.expect_raises(TypeError, fun, msg='a missing argument')
                S.reach('wrong')
                continue
            S.check(got[-1] == want and rv == len(got), lambda: 'called with %r, not %r' % (got[-1], want))
            if form != 'rest':
                S.reach(form)


@R.harness(quick=[dict()], labels=['read', 'write', 'callable', 'inside'],
           bounds='accessing any attribute of a locked dataset from without and within, also after a failed '
                  'attempt to lock it and with attributes that are callable, private or not there yet')
def dataset_access(S):
    with Threads(S, 0) as sc:
        class DS(LockedDataset):
            shared = 3

            def __init__(self):
                super().__init__()
                with self:
                    self.x = S.pick('value', [0, None, len, lambda: 5])
                    self._hidden = 1

            @LockedDataset.locked(blocking=False)
            def method(self):
                return self.x

            @LockedDataset.locked(timeout=0)
            def at_once(self):
                self.new = 3
                return self.x

        ds = DS()
        before = ds.method()
        last = S.pick('before', ['nothing', 'with', 'method', 'raise', 'limited'])
        if last == 'with':
            with ds as d:
                S.check(d is ds and d.x is before, 'entering gives the dataset')
        elif last == 'method':
            S.check(ds.at_once() is before, 'the method is run')
        elif last == 'raise':
            r, _ = S.raises(KeyError, lambda: _enter_and_fail(ds))
            S.check(r, 'the exception goes through')
        elif last == 'limited':
            with ds(blocking=False) as d:
                S.check(d is ds, 'entering gives the dataset')
                S.expect_raises(WouldWaitMore, lambda: ds(blocking=False).__enter__(), msg='locked')
                S.check(d.x is before, 'still locked after a failed attempt')
                S.expect_raises(WouldWaitMore, ds.at_once, msg='locked')
                S.expect_raises(WouldWaitMore, ds.method, msg='locked')
                S.check(d.x is before, 'still locked after a failed attempt')
                now = sc.now
                S.expect_raises(WouldWaitMore, lambda: ds(timeout=2).__enter__(), msg='locked')
                S.check(sc.now == now + 2, 'waits for as long as told')
                d.x = before
        what = S.pick('what', ['x', '_hidden', 'new', 'shared'])
        if S.flag('write'):
            r, _ = S.raises(ResourceNotLocked, setattr, ds, what, 9)
            S.check(r, 'writing without the lock')
            with ds:
                S.check(what != 'x' or ds.x is before, 'nothing was written')
                S.check(what == 'new' or getattr(ds, what) != 9, 'nothing was written')
                setattr(ds, what, 9)
                S.check(getattr(ds, what) == 9, 'written')
                S.reach('inside')
            S.reach('write')
        elif what != 'new':
            r, v = S.raises(ResourceNotLocked, getattr, ds, what)
            S.check(r, 'reading without the lock')
            S.reach('read')
            if callable(before):
                S.reach('callable')


def _enter_and_fail(ds):
    with ds:
        ds.x = ds.x
        raise KeyError()


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['own', 'shared', 'reentrant'],
           bounds='two structures with locks of their own or one in common, used by two threads; what is '
                  'done to a structure is done to the object wrapped')
def structure_locks(S, switches):
    import threading
    with Threads(S, switches, focus=FOCUS + ['coding/structures/proxy']) as sc:
        kind = S.pick('lock', ['own', 'shared', 'reentrant'])
        lock = {'own': lambda: None, 'shared': threading.Lock, 'reentrant': threading.RLock}[kind]()
        xs, ys = [1], [2]
        a, b = LockedStructure(xs, lock), LockedStructure(ys, lock)
        inside = []

        def use(s, x):
            with s as ss:
                S.check(ss is s, 'entering gives the structure')
                S.check(kind == 'own' or not inside, 'two threads hold one lock')
                inside.append(x)
                if kind == 'reentrant':
                    with s:
                        ss.append(x)
                else:
                    ss.append(x)
                sc.sleep(1)
                inside.remove(x)
            return sc.now

        rs = sc.run(lambda: use(a, 8), lambda: use(b, 9))
        S.check(xs == [1, 8] and ys == [2, 9], 'the objects wrapped')
        S.check(max(sc.value(r) for r in rs) == (1 if kind == 'own' else 2), 'waits for a common lock only')
        S.check(len(a) == 2 and a[1] == 8 and list(b) == [2, 9] and a == [1, 8] and 8 in a, 'reads pass')
        S.reach(kind)
