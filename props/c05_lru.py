from engine.harness import Registry
from props.lib import Clock
from props.c04_cachedict import Executor, Getter
from satella.coding.structures import LRU, LRUCacheDict

R = Registry('C05', assumptions=['clock readings are integers, non-decreasing'])


@R.harness(quick=[dict(n=3, k=2), dict(n=0, k=3)], thorough=[dict(n=3, k=3), dict(n=4, k=2), dict(n=1, k=4)],
           labels=['new', 'used', 'remove', 'remove_missing', 'evict', 'evict_empty', 'probe'],
           bounds='n arbitrary items added or marked as used, then k operations')
def lru(S, n, k):
    l = LRU()
    model = []      # least recently used first; pairwise distinct on each path

    def pos(x):
        for i, m in enumerate(model):
            if m == x:
                return i
        return -1

    for i in range(n + k):
        op = S.pick('op', ['use', 'add']) if i < n else \
            S.pick('op', ['use', 'add', 'remove', 'evict', 'in'])
        if op == 'evict':
            if not model:
                S.expect_raises(KeyError, l.get_item_to_evict)
                S.reach('evict_empty')
            else:
                v = l.get_item_to_evict()
                S.check_eq(v, model.pop(0), 'least recently used is evicted')
                S.reach('evict')
            continue
        x = S.key('x')
        p = pos(x)
        if op == 'use':
            l.mark_as_used(x)
            if p >= 0:
                model.append(model.pop(p))
                S.reach('used')
            else:
                model.append(x)
                S.reach('new')
        elif op == 'add':
            if p >= 0:
                continue
            l.add(x)
            model.append(x)
        elif op == 'remove':
            r, _ = S.raises(KeyError, l.remove, x)
            S.check(r == (p < 0), 'remove raises iff missing')
            if p >= 0:
                model.pop(p)
                S.reach('remove')
            else:
                S.reach('remove_missing')
        else:
            S.check((x in l) == (p >= 0), 'membership')
            S.reach('probe')
        S.check(len(l) == len(model), 'length')
    for i in range(len(model)):
        S.check_eq(l.get_item_to_evict(), model.pop(0), 'eviction order')
    S.check(len(l) == 0)


@R.harness(quick=[dict(k=3, size=2), dict(k=3, size=1)],
           thorough=[dict(k=4, size=2), dict(k=4, size=3), dict(k=4, size=1)],
           labels=['boom', 'hit', 'fetch', 'fetch_fail', 'evicted', 'overwrite', 'feed_old', 'del', 'invalidate',
                   'cached_miss'],
           bounds='max_size entries are preloaded, then k operations on any of max_size+2 keys')
def lru_cache_dict(S, k, size):
    clock = Clock(S)
    getter, ex = Getter(S), Executor()
    fails = S.flag('cache_failures')
    booms = []

    def source(key):
        if not booms and S.flag('boom'):
            booms.append(key)
            raise OSError('the source is not available')
        return getter(key)

    cd = LRUCacheDict(10, 10, source, ex, max_size=size, time_getter=clock,
                      cache_failures_interval=10 if fails else None)
    model = {}      # insertion order = use order

    def store(key, v):
        if key in model:
            del model[key]
        elif len(model) == size:
            del model[next(iter(model))]
            S.reach('evicted')
        model[key] = v

    keys = ['k%d' % i for i in range(size + 2)]
    for i in range(size):
        cd[keys[i]] = i
        store(keys[i], i)
    missed = set()
    for i in range(k):
        op = S.pick('op', ['get', 'set', 'feed', 'del', 'invalidate'])
        # keys never touched so far are interchangeable
        key = S.pick('key', keys[:min(size + 2, size + i + 1)])
        if op == 'get':
            n = len(getter.calls)
            b = len(booms)
            r, v = S.raises((KeyError, OSError), cd.__getitem__, key)
            new = len(getter.calls) - n
            if len(booms) > b:
                S.check(r and isinstance(v, OSError) and key not in model, 'other exceptions are propagated')
                S.reach('boom')
            elif key in model:
                S.check(new == 0 and not r and v == model[key], 'hit')
                store(key, v)
                S.reach('hit')
            elif key in missed:
                S.check(new == 0 and r, 'cached miss')
                S.reach('cached_miss')
            else:
                S.check(new == 1, lambda: 'fetched once: %d' % (new,))
                if getter.last is None:
                    S.check(r)
                    S.reach('fetch_fail')
                    if fails:
                        missed.add(key)
                else:
                    S.check(not r and v == getter.last)
                    store(key, v)
                    S.reach('fetch')
        elif op == 'set':
            if key in model:
                S.reach('overwrite')
            cd[key] = 's%d' % i
            store(key, 's%d' % i)
            missed.discard(key)
        elif op == 'feed':
            if key in model:
                S.reach('feed_old')
            cd.feed(key, 'f%d' % i)
            store(key, 'f%d' % i)
            missed.discard(key)
        else:
            if op == 'del':
                r, _ = S.raises(KeyError, cd.__delitem__, key)
                S.check(r == (key not in model))
            else:
                cd.invalidate(key)
            S.reach(op)
            model.pop(key, None)
            missed.discard(key)
        S.check(len(cd) <= size, 'size limit')
        S.check(set(cd) == set(model), lambda: 'contents: %r, expected %r' % (set(cd), set(model)))
    for x in list(cd):
        S.check(cd[x] == model[x], 'value')
    S.check(not ex.pending())


@R.harness(quick=[dict(k=3, size=2)], thorough=[dict(k=4, size=2), dict(k=3, size=3)],
           labels=['refreshed', 'refresh_gone', 'refresh_failed', 'expired', 'stale', 'fresh'],
           bounds='k reads/writes at arbitrary instants with refreshes completing at any later time')
def refreshes(S, k, size):
    clock = Clock(S)
    getter, ex = Getter(S), Executor()
    stale = S.int('stale', 0)
    exp = S.int('exp')
    S.assume(exp >= stale)
    cd = LRUCacheDict(stale, exp, getter, ex, max_size=size, time_getter=clock)
    keys = ['k%d' % i for i in range(size + 1)]
    ts = {}
    for i in range(size):
        cd[keys[i]] = i
        ts[keys[i]] = clock.now
    for i in range(k):
        clock.advance()
        key = S.pick('key', keys)
        before = set(cd)
        n = len(getter.calls)
        write = not S.flag('get')
        if not write:
            r, v = S.raises(KeyError, cd.__getitem__, key)
            if key in before:
                if clock.now - ts[key] > exp:
                    S.reach('expired')
                    S.check(len(getter.calls) == n + 1, 'expired entry is fetched')
                    S.check(set(cd) == (before if not r else before - {key}),
                            'refetching a present key evicts nothing else')
                    S.check(r == (getter.last is None))
                else:
                    S.check(not r and len(getter.calls) == n)
                    S.reach('stale' if clock.now - ts[key] > stale else 'fresh')
                    S.check(set(cd) == before, 'a hit evicts nothing')
        else:
            cd[key] = 's'
            S.check(key in set(cd))
        if key in set(cd) and (key not in before or len(getter.calls) > n or write):
            ts[key] = clock.now
        S.check(len(cd) <= size, 'size limit')
        p = ex.pending()
        if p and S.flag('run'):
            before = set(cd)
            p[-1].run()
            key = getter.calls[-1]
            if getter.last is None:
                S.reach('refresh_failed')
                S.check(set(cd) == before - {key})
            else:
                ts[key] = clock.now
                S.reach('refreshed' if key in before else 'refresh_gone')
                if key in before:
                    S.check(set(cd) == before, 'refreshing a present key evicts nothing')
                else:
                    S.check(key in set(cd) and len(cd) <= size)
