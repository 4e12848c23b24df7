import warnings
from engine.harness import Registry
from satella.coding import Closeable, EmptyContextManager, wrap_callable_in_context_manager
from satella.dao import Loadable, must_be_loaded
from satella.db import transaction

R = Registry('C33', assumptions=['single thread'])


class Boom(Exception):
    pass


class Quit(KeyboardInterrupt):
    pass


class Boom2(Exception):
    pass


class Cursor:
    def __init__(self, log, fail):
        self.log, self.fail = log, fail

    def execute(self, what):
        self.log.append(('execute', what))

    def close(self):
        self.log.append('cursor closed')
        if self.fail == 'close cursor':
            raise Boom2(self.fail)


class Conn:
    def __init__(self, log, fail):
        self.log, self.fail = log, fail

    def _do(self, what):
        self.log.append(what)
        if self.fail == what:
            raise Boom2(what)

    def cursor(self):
        self.log.append('cursor')
        return Cursor(self.log, self.fail)

    def commit(self):
        self._do('commit')

    def rollback(self):
        self._do('rollback')

    def close(self):
        self._do('connection closed')


@R.harness(quick=[dict(k=2)], labels=['committed', 'rolled back', 'commit failed', 'rollback failed', 'getter', 'reused',
                                      'connection closed', 'close failed'],
           bounds='k transactions, each body succeeding or failing at any point; commit, rollback or closing failing')
def transactions(S, k):
    log = []
    fail = S.pick('fail', [None, 'commit', 'rollback', 'close cursor'])
    close = S.flag('close')
    conn = Conn(log, fail)
    gets = []

    class Pool:
        def get(self):
            gets.append(1)
            return conn
    way = S.pick('way', ['connection', 'function', 'method'])
    t = transaction(conn if way == 'connection' else (lambda: Pool().get()) if way == 'function' else Pool().get, close,
                    log_exception=S.flag('log'))
    for i in range(k if not close else 1):
        del log[:]
        at = S.choice('at', 3)      # 2: no exception
        kind = S.pick('exception', [Boom, Quit]) if at < 2 else None

        def body():
            with t as cur:
                S.check(isinstance(cur, Cursor), 'cursor')
                if at == 0:
                    raise kind()
                cur.execute(i)
                if at == 1:
                    raise kind()
        try:
            body()
            out = None
        except (Boom, Boom2, Quit) as e:
            out = e
        exp = ['cursor'] + ([('execute', i)] if at else []) + \
            ['commit' if at == 2 else 'rollback', 'cursor closed'] + (['connection closed'] if close else [])
        S.check(log == exp, lambda: 'calls %r, expected %r' % (log, exp))
        if (fail == 'commit' and at == 2) or (fail == 'rollback' and at < 2) or fail == 'close cursor':
            S.check(type(out) is Boom2, 'failure is reported')
            S.reach('commit failed' if fail == 'commit' else 'rollback failed' if fail == 'rollback' else 'close failed')
        else:
            S.check((out is None) if at == 2 else type(out) is kind, 'exceptions pass through')
            S.reach('committed' if at == 2 else 'rolled back')
        if close:
            S.reach('connection closed')
        if i:
            S.reach('reused')
    if way != 'connection':
        S.check(len(gets) == 1, 'connection is got once')
        S.reach('getter')


@R.harness(quick=[dict(k=3)], labels=['closed once', 'context', 'exception', 'deleted', 'half initialised', 'not closed'],
           bounds='up to k operations: closing, leaving a context, destruction, checking')
def closeable(S, k):
    log = []
    half = S.flag('half')

    class C(Closeable):
        def __init__(self):
            if not half:
                super().__init__()

        def close(self):
            if super().close():
                log.append('cleanup')

    closed = False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = C()
        for _ in range(k):
            op = S.pick('op', ['close', 'context', 'exception', 'check', 'delete'])
            if op == 'close':
                c.close()
                closed = True
            elif op == 'context':
                with c as d:
                    S.check(d is c, 'context')
                closed = True
                S.reach('context')
            elif op == 'exception':
                def body():
                    with c:
                        raise kind()
                kind = S.pick('exception', [Boom, Quit])
                S.expect_raises(kind, body)
                closed = True
                S.reach('exception')
            elif op == 'check':
                S.check(c.closed == (half or closed), 'closed')
                S.check(len(log) == int(closed and not half), 'cleaned up exactly once')
                if not closed and not half:
                    S.reach('not closed')
            else:
                c.__del__()
                closed = True
                S.reach('deleted')
            S.check(len(log) == int(closed and not half), 'cleaned up exactly once')
        del c
        S.check(len(log) == int(not half), 'cleaned up exactly once at the end')
        S.reach('half initialised' if half else 'closed once')


@R.harness(quick=[dict(k=3)], labels=['eager', 'lazy', 'loaded', 'failed', 'ctxt', 'empty'],
           bounds='k calls, each load succeeding or failing')
def loading(S, k):
    fail = [False]
    loads = []

    class L(Loadable):
        def refresh(self, load_from=None):
            loads.append(1)
            if fail[0]:
                raise Boom()
            self.value = value
            super().refresh(load_from)

        @must_be_loaded
        def get(self, a, b=0):
            return self.value + a + b
    value = S.int('value')
    lazy = S.flag('lazy')
    o = L(load_lazy=lazy)
    loaded = not lazy
    S.check(len(loads) == int(loaded), 'loaded at once exactly if not lazy')
    S.reach('lazy' if lazy else 'eager')
    for _ in range(k):
        fail[0] = S.flag('fail')
        n = len(loads)
        r, v = S.raises(Boom, o.get, 1, b=2)
        S.check(len(loads) == n + (0 if loaded else 1), 'loaded once')
        if loaded or not fail[0]:
            loaded = True
            S.check(not r, 'called')
            S.check_eq(v, value + 3, 'result')
            S.reach('loaded')
        else:
            S.check(r, 'failure to load')
            S.reach('failed')
    log = []

    class Ctx:
        def __init__(self, *a, **kw):
            log.append((a, kw))

        def __enter__(self):
            log.append('enter')

        def __exit__(self, *a):
            log.append(('exit', a[0]))
    boom = S.flag('boom')

    def fun(a, b):
        log.append('called')
        if boom:
            raise Boom()
        return a + b
    f = wrap_callable_in_context_manager(fun, Ctx, 1, z=2)
    for i in range(2):
        del log[:]
        r, v = S.raises(Boom, f, value, b=1)
        S.check(r == boom and log == [((1,), {'z': 2}), 'enter', 'called', ('exit', Boom if boom else None)], 'in context')
        if not boom:
            S.check_eq(v, value + 1, 'result')
    S.reach('ctxt')
    with EmptyContextManager(1, x=2):
        S.reach('empty')
