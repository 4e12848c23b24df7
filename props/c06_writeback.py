from concurrent.futures import Future, ThreadPoolExecutor

from engine.harness import Registry
from engine.sched import Threads
from satella.coding.structures import ExclusiveWritebackCache
from satella.exceptions import WouldWaitMore

R = Registry('C06', assumptions=[
    'the executor runs its jobs one at a time in order of submission; each job runs at an arbitrary '
    'later operation boundary, or when its result is awaited', 'nobody else touches the storage'])


class FifoFuture(Future):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def result(self, timeout=None):
        while not self.done():
            self.ex.step()
        return super().result(0)


class FifoExecutor:
    def __init__(self):
        self.queue = []
        self.log = []

    def submit(self, fn, *args, **kwargs):
        f = FifoFuture(self)
        self.queue.append((f, fn, args, kwargs))
        return f

    def step(self):
        f, fn, args, kwargs = self.queue.pop(0)
        try:
            v = fn(*args, **kwargs)
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(v)


@R.harness(quick=[dict(k=3, warm=(0,)), dict(k=2, warm=(98, 99, 100, 101))],
           thorough=[dict(k=4, warm=(0,)), dict(k=3, warm=(97, 98, 99, 100, 101))],
           labels=['hit', 'read', 'read_missing', 'known_missing', 'write', 'delete', 'delete_missing',
                   'drain', 'step', 'no_delete', 'not_remembered'],
           bounds='k reads/writes/deletes of 2 keys, arbitrary initial storage, arbitrary progress of '
                  'background jobs; preceded by `warm` reads of another key')
def writeback(S, k, warm):
    storage = {}
    for key in 'ab':
        if S.flag('has_' + key):
            storage[key] = S.key('init_' + key)
    storage['w'] = 0
    truth = dict(storage)
    reads = []
    writes = []
    w = S.pick('warm', list(warm))

    def read(key):
        reads.append(key)
        return storage[key]

    def write(key, v):
        writes.append(key)
        storage[key] = v

    def delete(key):
        writes.append(key)
        del storage[key]

    ex = FifoExecutor()
    ske = S.flag('store_key_errors')
    candel = S.flag('candel')
    c = ExclusiveWritebackCache(write, read, delete if candel else None, ex, store_key_errors=ske)
    for i in range(w):
        S.check(c['w'] == 0)
    S.check(reads == (['w'] if w else []), 'a value is read from storage once')
    cached, known, touched = set(), set(), set()
    issued = 0
    for i in range(k):
        op = S.pick('op', ['get', 'set', 'del', 'step'])
        if op == 'step':
            if ex.queue:
                ex.step()
                S.reach('step')
            continue
        key = 'a' if i == 0 else S.pick('key', 'ab')
        if op == 'get':
            n = len(reads)
            r, v = S.raises(KeyError, c.__getitem__, key)
            new = len(reads) - n
            if key in truth:
                S.check(not r, 'present')
                S.check_eq(v, truth[key], 'the latest value is read')
                S.reach('hit' if key in cached else 'read')
                S.check(new == (0 if key in cached else 1), lambda: 'storage reads: %d' % (new,))
                cached.add(key)
                touched.add(key)
            else:
                S.check(r, 'absent')
                if key in known and w == 0:
                    S.check(new == 0, 'absence is remembered')
                elif not ske and key not in touched:
                    S.check(new == 1, 'absence is not to be remembered')
                    S.reach('not_remembered')
                else:
                    S.check(new <= 1)
                if ske:
                    known.add(key)
                if new == 0:
                    S.reach('known_missing')
                else:
                    S.reach('read_missing')
        elif op == 'set':
            v = S.key('v')
            c[key] = v
            truth[key] = v
            cached.add(key)
            touched.add(key)
            known.discard(key)
            issued += 1
            S.reach('write')
        else:
            if not candel:
                S.expect_raises(TypeError, c.__delitem__, key)
                S.reach('no_delete')
                continue
            S.reach('delete' if key in truth else 'delete_missing')
            del c[key]
            truth.pop(key, None)
            cached.discard(key)
            touched.add(key)
            if ske:
                known.add(key)
            issued += 1
    for key in 'ab':
        r, v = S.raises(KeyError, c.__getitem__, key)
        S.check(r == (key not in truth), 'final presence')
        if not r:
            S.check_eq(v, truth[key], 'final value')
    while ex.queue:
        S.reach('drain')
        ex.step()
    S.check(storage.keys() == truth.keys(), 'storage has the right keys')
    for key in truth:
        S.check_eq(storage[key], truth[key], 'storage has the latest value')
    S.check(len(writes) == issued, 'each change is written exactly once')


def explains(order, initial, final, results):
    """running the operations in this order gives these results and leaves this"""
    state = initial
    for who, op, v in order:
        if op == 'get':
            if results[who, op, v] != (state if state is not None else 'missing'):
                return False
        elif op == 'set':
            state = v
        else:
            state = None
    return state == final


def merges(a, b):
    if not a or not b:
        yield list(a) + list(b)
        return
    for rest in merges(a[1:], b):
        yield [a[0], *rest]
    for rest in merges(a, b[1:]):
        yield [b[0], *rest]


@R.harness(quick=[dict(counts=(1, 1), switches=1), dict(counts=(1, 2), switches=1, reads=True)],
           thorough=[dict(counts=(1, 2), switches=1), dict(counts=(1, 1), switches=2)],
           labels=['get', 'set', 'del', 'agrees'],
           bounds='two threads using the same key of a cache, 1 or 2 operations each (in the quick tier the second '
                  'operation is a read), an executor with one thread')
def shared(S, counts, switches, reads=False):
    initial = 'initial' if S.flag('stored') else None
    ske = S.flag('store_key_errors')
    plans = [[(who, S.pick('op', ['get', 'set', 'del']) if not (reads and who) else
               'get' if i else S.pick('op', ['set', 'del']), '%d.%d' % (who, i)) for i in range(n)]
             for who, n in enumerate(counts)]
    storage = {} if initial is None else {'k': initial}
    results = {}
    with Threads(S, switches, focus=['coding/structures/dictionaries/writeback']) as sc:
        ex = ThreadPoolExecutor(max_workers=1)
        c = ExclusiveWritebackCache(storage.__setitem__, storage.__getitem__, lambda k: storage.pop(k, None),
                                    ex, store_key_errors=ske)

        def actor(plan):
            for step in plan:
                who, op, v = step
                if op == 'get':
                    try:
                        results[step] = c['k']
                    except KeyError:
                        results[step] = 'missing'
                elif op == 'set':
                    c['k'] = v
                else:
                    del c['k']
                S.reach(op)

        outcome = sc.run(*[lambda p=p: actor(p) for p in plans])
        S.check(all(r == ('ok', None) for r in outcome), lambda: repr(outcome))
        try:
            last = c['k']
        except KeyError:
            last = None
        ex.shutdown()
        S.check(any(explains(order, initial, last, results) for order in merges(*plans)),
                lambda: 'plans %r from %r gave %r and then %r' % (plans, initial, results, last))
        S.check(storage.get('k') == last, lambda: 'the storage holds %r, the cache %r' % (storage.get('k'), last))
        S.reach('agrees')


@R.harness(quick=[dict(jobs=1, workers=1, switches=0), dict(jobs=2, workers=1, switches=0),
                  dict(jobs=1, workers=1, switches=1)],
           thorough=[dict(jobs=3, workers=1, switches=1), dict(jobs=3, workers=2, switches=1)],
           labels=['written', 'timeout', 'unlimited'],
           bounds='waiting for the writes of a thread pool executor, each taking an arbitrary time, with an '
                  'arbitrary limit or none')
def waiting(S, jobs, workers, switches):
    limit = S.int('limit', 0, 6) if S.flag('limited') else None
    durations = [S.int('duration', 1, 6) for _ in range(jobs)]
    storage = {}
    with Threads(S, switches, focus=['coding/structures/dictionaries/writeback']) as sc:
        ex = ThreadPoolExecutor(max_workers=workers)

        def write(k, v):
            sc.sleep(durations[k])
            storage[k] = v

        c = ExclusiveWritebackCache(write, storage.__getitem__, None, ex)
        for i in range(jobs):
            c[i] = 'value'
        start = sc.clock()
        try:
            c.sync(limit) if S.flag('positional') else c.sync(timeout=limit)
            S.check(len(storage) == jobs, 'sync returns when everything is written')
            S.reach('written' if limit is not None else 'unlimited')
        except WouldWaitMore:
            S.check(limit is not None, 'nothing to time out')
            S.check(sc.clock() - start >= limit, 'given up before its time')
            S.reach('timeout')
        if limit is not None:
            S.check(sc.clock() - start <= limit + 2, 'the limit is honoured')
        ex.shutdown()
        S.check(len(storage) == jobs, 'everything is written')
        S.check(all(storage[i] == 'value' for i in range(jobs)))
