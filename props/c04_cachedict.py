from concurrent.futures import Future

from engine.harness import Registry
from props.lib import Clock
from satella.coding.structures import CacheDict

R = Registry('C04', assumptions=[
    'clock readings are integers (arbitrary, non-decreasing); value_getter is an arbitrary function '
    'that returns a fresh value or raises KeyError; background fetches complete at an arbitrary '
    'operation boundary, or never'])


class LazyFuture(Future):
    """completes when its result is demanded, or when the harness lets it"""

    def __init__(self, fn, args):
        super().__init__()
        self.job = (fn, args)

    def run(self):
        if self.job is None:
            return
        (fn, args), self.job = self.job, None
        try:
            v = fn(*args)
        except Exception as e:
            self.set_exception(e)
        else:
            self.set_result(v)

    def result(self, timeout=None):
        self.run()
        return super().result(0)


class Executor:
    def __init__(self):
        self.futures = []

    immediate = None        # callable: should this job finish at once?

    def submit(self, fn, *args, **kwargs):
        f = LazyFuture(lambda *a: fn(*a, **kwargs), args)
        self.futures.append(f)
        if self.immediate is not None and self.immediate():
            f.run()
        return f

    def pending(self):
        return [f for f in self.futures if f.job is not None]


class Getter:
    def __init__(self, S):
        self.S = S
        self.calls = []
        self.last = None

    def __call__(self, key):
        self.calls.append(key)
        if self.S.flag('getter_fails'):
            self.last = None
            raise KeyError(key)
        self.last = ('value', len(self.calls))
        return self.last


OPS = ['get', 'set', 'feed', 'feed_ts', 'del', 'invalidate', 'info', 'run', 'mget']


@R.harness(quick=[dict(k=3, keys=1, default=False), dict(k=2, keys=2, default=False), dict(k=2, keys=1, default=True)],
           thorough=[dict(k=4, keys=1, default=False), dict(k=3, keys=2, default=False),
                     dict(k=3, keys=1, default=True)],
           labels=['fetch', 'fetch_fail', 'fresh', 'stale', 'expired', 'cached_miss', 'miss_expired',
                   'refreshed', 'refresh_failed', 'info', 'noinfo', 'info_miss', 'default', 'deleted',
                   'del_missing', 'feed_ts', 'immediate'],
           bounds='k operations of any kind on up to `keys` keys after an initial read, arbitrary '
                  'instants, stale/expiration/failure intervals')
def cache_dict(S, k, keys, default):
    clock = Clock(S)
    stale = S.int('stale', 0)
    exp = S.int('expiration')
    S.assume(exp >= stale)
    fail = S.int('fail', 0) if S.flag('cache_failures') else None
    getter, ex = Getter(S), Executor()
    factory = (lambda: 'default') if default else None
    cd = CacheDict(stale, exp, getter, ex, cache_failures_interval=fail, time_getter=clock,
                   default_value_factory=factory)
    model = {}

    def fetched(key):
        """the model's reaction to a completed getter call"""
        if getter.last is None:
            model.pop(key, None)
            if fail is not None:
                model[key] = ('miss', None, clock.now)
        else:
            model[key] = ('val', getter.last, clock.now)

    def get(key, viaget=False):
        e = model.get(key)
        if e is not None and e[0] == 'val' and clock.now - e[2] > stale and clock.now - e[2] <= exp \
                and S.flag('immediate'):
            # the background refresh is over before the read returns
            n = len(getter.calls)
            ex.immediate = lambda: True
            try:
                v = cd[key]
            finally:
                ex.immediate = None
            S.check(len(getter.calls) == n + 1, 'one refresh')
            S.check(v == e[1] or (v == getter.last is not None), 'the stale (or the refreshed) value is served')
            S.reach('immediate')
            fetched(key)
            return
        ncalls, nfut = len(getter.calls), len(ex.pending())
        if viaget:
            r, v = False, cd.get(key, 'nope')
            if v == 'nope':
                r = True
        else:
            r, v = S.raises(KeyError, cd.__getitem__, key)
        new = len(getter.calls) - ncalls
        newpend = len(ex.pending()) - nfut
        if e is None:
            blocking = True
        else:
            age = clock.now - e[2]
            blocking = bool(age > (exp if e[0] == 'val' else fail))
        if blocking:
            S.check(new == 1 and getter.calls[-1] == key, 'value is fetched exactly once')
            S.check(newpend == 0, 'nothing left in background')
            if e is not None:
                S.reach('expired' if e[0] == 'val' else 'miss_expired')
            fetched(key)
            if getter.last is None:
                S.reach('fetch_fail')
                missing(r, v)
            else:
                S.reach('fetch')
                S.check(not r and v == getter.last, 'the fetched value is returned')
        else:
            S.check(new == 0, 'no blocking fetch')
            if e[0] == 'miss':
                S.reach('cached_miss')
                S.check(newpend == 0, 'no background fetch')
                missing(r, v)
            else:
                S.check(not r and v == e[1], lambda: 'cached value: %r, %r' % (v, e[1]))
                if age > stale:
                    S.reach('stale')
                    S.check(newpend == 1, 'one refresh is scheduled')
                else:
                    S.reach('fresh')
                    S.check(newpend == 0, 'no refresh of a fresh value')

    def missing(r, v):
        if default:
            S.reach('default')
            S.check(not r and v == 'default', 'default is returned')
        else:
            S.check(r, lambda: 'KeyError expected, got %r' % (v,))

    get('a')
    for i in range(k):
        clock.advance()
        op = S.pick('op', OPS)
        key = 'a' if keys == 1 else S.pick('key', 'ab')
        if op == 'get':
            get(key)
        elif op == 'mget':
            if default:
                continue
            get(key, True)
        elif op == 'set':
            cd[key] = i
            model[key] = ('val', i, clock.now)
        elif op == 'feed':
            cd.feed(key, i)
            model[key] = ('val', i, clock.now)
        elif op == 'feed_ts':
            S.reach('feed_ts')
            ts = S.int('ts', 0)
            cd.feed(key, i, ts)
            model[key] = ('val', i, ts)
        elif op == 'del':
            r, _ = S.raises(KeyError, cd.__delitem__, key)
            has = key in model and model[key][0] == 'val'
            S.check(r == (not has), 'del raises iff there is no value')
            S.reach('del_missing' if r else 'deleted')
            model.pop(key, None)
        elif op == 'invalidate':
            cd.invalidate(key)
            model.pop(key, None)
        elif op == 'info':
            e = model.get(key)
            n = len(getter.calls)
            x = cd.has_info_about(key)
            S.check(len(getter.calls) == n, 'no calls')
            if e is None:
                S.check(not x, 'no info')
                S.reach('noinfo')
            else:
                valid = clock.now - e[2] <= (exp if e[0] == 'val' else fail)
                S.check(valid if x else S.Not(valid), 'has_info_about')
                S.reach('info' if e[0] == 'val' else 'info_miss')
        elif op == 'run':
            p = ex.pending()
            if not p:
                continue
            f = p[S.choice('which', len(p))]
            n = len(getter.calls)
            f.run()
            S.check(len(getter.calls) == n + 1)
            S.reach('refreshed' if getter.last is not None else 'refresh_failed')
            fetched(getter.calls[-1])
        vals = [x for x in model if model[x][0] == 'val']
        S.check(len(cd) == len(vals) and set(cd) == set(vals), 'iteration')


UNITS = [('', 1), ('s', 1), (' s', 1), (' sec', 1), ('m', 60), (' m', 60), (' min', 60), ('h', 3600),
         (' hour', 3600), ('d', 86400), ('w', 7 * 86400), (' week', 7 * 86400)]


@R.harness(quick=[dict(hi=12)], thorough=[dict(hi=60)], labels=['string', 'fresh', 'stale', 'expired'],
           bounds='intervals given as strings: count 0..hi times any unit; arbitrary instant of the read')
def interval_strings(S, hi):
    su, sm = UNITS[S.choice('unit', len(UNITS))]
    n = S.conc(S.int('n', 0, hi))
    clock = Clock(S)
    getter, ex = Getter(S), Executor()
    # the expiration interval is one second longer than the stale one
    cd = CacheDict('%d%s' % (n, su), n * sm + 1, getter, ex, time_getter=clock)
    S.reach('string')
    cd['a'] = 5
    clock.advance()
    S.assume(clock.now <= 10 ** 9)
    v = cd.get('a', 'nope')
    if clock.now > n * sm + 1:
        S.check(len(getter.calls) == 1, 'expired')
        S.reach('expired')
    else:
        S.check(v == 5)
        if clock.now > n * sm:
            S.reach('stale')
            S.check(len(ex.pending()) == 1, 'stale')
        else:
            S.reach('fresh')
            S.check(len(ex.pending()) == 0, 'fresh')
    # and the other way round
    cd = CacheDict(0, '%d%s' % (n, su), getter, ex, time_getter=clock,
                   cache_failures_interval='%d%s' % (n, su))
    t0 = clock.now
    cd['a'] = 5
    clock.advance()
    calls = len(getter.calls)
    cd.get('a')
    S.check((len(getter.calls) > calls) == bool(clock.now - t0 > n * sm), 'expiration from a string')
