import concurrent.futures
import logging
import warnings

from engine.harness import Registry
from satella.cassandra import parallel_for, wrap_future
from satella.cassandra.common import ResponseFuture
from satella.coding.concurrent import Future as SatellaFuture
from satella.coding.predicates import x
from satella.opentracing import set_maximum_traceback_length, trace_exception, trace_function, trace_future
from props.c40_traceback import isolated

try:
    from cassandra.query import SimpleStatement
except ImportError:
    SimpleStatement = None

R = Registry('C42', assumptions=[
    'tracers, spans and the driver of Cassandra are models that do what their documentation says'])


class Bad(Exception):
    pass


class Quit(BaseException):
    pass


class Device:
    def __init__(self, device_id):
        self.device_id = device_id


class Scope:
    def __init__(self, tracer, record):
        self.tracer, self.record = tracer, record

    def __enter__(self):
        self.record['open'] = True
        self.tracer.current.append(self.record)
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.record['open'] = False
        self.record['exc'] = exc_val
        self.tracer.current.pop()
        return False


class Tracer:
    def __init__(self):
        self.spans = []
        self.current = []

    def start_active_span(self, name, *args, tags=None, **kwargs):
        record = {'name': name, 'tags': tags, 'copy': dict(tags or {}), 'other': (args, kwargs)}
        self.spans.append(record)
        return Scope(self, record)


class Span:
    def __init__(self):
        self.tags = {}
        self.logs = []
        self.finished = 0

    def set_tag(self, key, value):
        self.tags[key] = value
        return self

    def log_kv(self, key_values, timestamp=None):
        self.logs.append(key_values)
        return self

    def finish(self, *args):
        self.finished += 1


@R.harness(quick=[dict(k=2)], thorough=[dict(k=3)],
           labels=['no tags', 'tags', 'factory', 'older factory', 'predicate', 'overridden', 'raised', 'returned', 'keyword',
                   'nested'],
           bounds='k calls, with any arguments, given by position or by keyword; tags and tag factories of all kinds')
def functions(S, k):
    tracer = Tracer()
    tags = S.pick('tags', [None, {}, {'a': 1}])
    orig = None if tags is None else dict(tags)
    kind = S.pick('factory', [None, 'dict', 'list', 'older', 'predicate'])
    factory = {None: None, 'dict': {'a': lambda d, v=0: v, 'b': lambda d, v=0: d.device_id},
               'list': [('b', lambda *args, **kwargs: len(args) + len(kwargs)), ('a', lambda d, v=0: v + 1)],
               'older': [('b', lambda args: args[0].device_id)],
               'predicate': {'b': x[0].device_id}}[kind]
    S.reach({None: 'no tags' if tags is None else 'tags', 'dict': 'factory', 'list': 'factory', 'older': 'older factory',
             'predicate': 'predicate'}[kind])
    calls = []
    plan = {}

    @trace_function(tracer, 'the name', tags, factory)
    def fun(device, v=0):
        "doc"
        S.check(len(tracer.current) > len(calls) - len(done), 'called within the span')
        calls.append((device, v))
        if plan['nested'] and len(calls) == 1:
            S.reach('nested')
            fun(device, v + 5)
            done.append(1)
        if plan['raises'] is not None:
            raise plan['raises']
        return v + 2

    S.check(fun.__name__ == 'fun' and fun.__doc__ == 'doc', 'the name and documentation are preserved')
    done = []
    plan['nested'] = k == 2 and S.flag('nested')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(k):
            d, v = Device(S.int('id')), S.int('v')
            del calls[:], done[:], tracer.spans[:]
            plan['raises'] = S.pick('raises', [None, Bad, Quit])
            if plan['raises'] is not None:
                plan['raises'] = plan['raises']('x')
                plan['nested'] = False
            how = S.pick('how', ['positional', 'keyword', 'default'] if kind != 'older' and kind != 'predicate'
                         else ['positional', 'default'])
            if how == 'keyword':
                call = lambda: fun(d, v=v)
                S.reach('keyword')
            elif how == 'default':
                v = 0
                call = lambda: fun(d)
            else:
                call = lambda: fun(d, v)
            r, out = S.raises((Bad, Quit), call)
            nested = plan['nested'] and len(calls) > 1
            S.check_eq(calls, [(d, v)] + ([(d, v + 5)] if nested else []), 'called once, with the arguments given')
            S.check(r == (plan['raises'] is not None), 'raises what the function does')
            if r:
                S.check(out is plan['raises'], 'the exception')
                S.reach('raised')
            else:
                S.check_eq(out, v + 2, 'the result')
                S.reach('returned')
            S.check_eq(len(tracer.spans), 2 if nested else 1, 'one span for each call')
            for rec, val in zip(tracer.spans, [v, v + 5]):
                S.check(rec['name'] == 'the name', 'the name of the span')
                S.check(rec['open'] is False, 'the span is over')
                if not nested:
                    S.check(rec['exc'] is (out if r else None), 'the exception is known to the span')
                want = dict(orig or {})
                if kind == 'dict':
                    if 'a' in want:
                        S.reach('overridden')
                    want.update(a=val, b=d.device_id)
                elif kind == 'list':
                    want.update(b=1 if how == 'default' and rec is tracer.spans[0] else 2, a=val + 1)
                elif kind is not None:
                    want.update(b=d.device_id)
                S.check_eq(rec['copy'], want, 'the tags')
            plan['nested'] = False
            S.check_eq(tags, orig, 'the tags given are left alone')


class CassandraFuture(ResponseFuture):
    def __init__(self):     # noqa
        self.outcome = None
        self.callbacks, self.errbacks = [], []

    def add_callback(self, fn, *args, **kwargs):
        if self.outcome is None:
            self.callbacks.append((fn, args, kwargs))
        elif self.outcome[0] == 'ok':
            fn(self.outcome[1], *args, **kwargs)
        return self

    def add_errback(self, fn, *args, **kwargs):
        if self.outcome is None:
            self.errbacks.append((fn, args, kwargs))
        elif self.outcome[0] == 'exc':
            fn(self.outcome[1], *args, **kwargs)
        return self

    def add_callbacks(self, callback, errback, callback_args=(), callback_kwargs=None, errback_args=(), errback_kwargs=None):
        self.add_callback(callback, *callback_args, **(callback_kwargs or {}))
        self.add_errback(errback, *errback_args, **(errback_kwargs or {}))

    def complete(self, what, value):
        self.outcome = what, value
        for fn, args, kwargs in self.callbacks if what == 'ok' else self.errbacks:
            fn(value, *args, **kwargs)

    set_result = lambda self, v: self.complete('ok', v)
    set_exception = lambda self, v: self.complete('exc', v)


def raised(type_):
    try:
        raise type_('the message')
    except BaseException as e:
        return e


@R.harness(quick=[dict()],
           labels=['plain', 'satella', 'cassandra', 'succeeded', 'failed', 'cancelled', 'done before', 'done after', 'handled',
                   'never raised'],
           bounds='futures of three kinds, that succeed, fail or are cancelled before or after, wherever that happens')
def futures(S):
    kind = S.pick('kind', ['plain', 'satella', 'cassandra'])
    fut = {'plain': concurrent.futures.Future, 'satella': SatellaFuture, 'cassandra': CassandraFuture}[kind]()
    S.reach(kind)
    how = S.pick('how', ['succeed', 'fail', 'fail'] + (['cancel'] if kind != 'cassandra' else []))
    value = S.int('value')
    exc = None
    if how == 'fail':
        if S.flag('raised'):
            exc = raised(S.pick('exc', [Bad, Quit]))
        else:
            exc = Bad('the message')
            S.reach('never raised')

    def complete():
        if how == 'cancel':
            S.check(fut.cancel(), 'cancelled')
            fut.set_running_or_notify_cancel()
        else:
            if kind != 'cassandra':
                fut.set_running_or_notify_cancel()
            if how == 'succeed':
                fut.set_result(value)
            else:
                fut.set_exception(exc)

    span = Span()
    before = S.flag('before')
    within = S.flag('within')       # while handling some other exception
    logger = logging.getLogger('concurrent.futures')
    disabled, logger.disabled = logger.disabled, True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if before:
                complete()
                S.reach('done before')
            if within:
                try:
                    raise KeyError('another')
                except KeyError:
                    trace_future(fut, span)
                    if not before:
                        S.check(not span.finished, 'not finished yet')
                        complete()
                S.reach('handled')
            else:
                trace_future(fut, span)
                if not before:
                    S.check(not span.finished, 'not finished yet')
                    complete()
                    S.reach('done after')
    finally:
        logger.disabled = disabled
    S.check_eq(span.finished, 1, 'the span is finished once')
    if how == 'fail':
        S.check(span.tags.get('error') is True, 'marked as an error')
        S.check(len(span.logs) == 1 and span.logs[0].get('error.object') is exc and
                span.logs[0].get('error.kind') is type(exc) and span.logs[0].get('message') == 'the message',
                lambda: 'the exception is attached: %r' % (span.logs,))
        S.reach('failed')
    elif how == 'succeed':
        S.check(not span.tags and not span.logs, 'nothing else is attached')
        S.reach('succeeded')
    else:
        S.reach('cancelled')
    if kind != 'cassandra' and how == 'succeed':
        S.check_eq(fut.result(), value, 'the future is left alone')


@R.harness(quick=[dict()], labels=['no span', 'no exception', 'given', 'in progress', 'without traceback', 'short', 'exact',
                                   'long', 'argument', 'global', 'default'],
           bounds='exceptions given or in progress; limits of any relation to the length of the traceback, given or global')
def exceptions(S):
    way = S.pick('way', ['no span', 'no exception', 'given', 'in progress', 'without traceback'])
    S.reach(way)
    exc = Bad('the message')
    span = Span()
    if way == 'no span':
        S.check(trace_exception(None) is None and trace_exception(None, Bad, exc, None) is None, 'nothing is done')
        return
    if way == 'no exception':
        trace_exception(span)
        S.check(not span.logs and not span.tags, 'there is nothing to log')
        return
    limited = S.pick('limited', ['default', 'argument', 'global'])
    S.reach(limited)

    def run(limit, *args):
        span = Span()
        kwargs = {'max_tb_length': limit} if limited == 'argument' and limit is not None else {}
        set_maximum_traceback_length(limit if limit is not None and limited == 'global' else 65536)
        try:
            trace_exception(span, *args, **kwargs)
        finally:
            set_maximum_traceback_length(65536)
        S.check(span.tags == {'error': True}, 'marked as an error')
        S.check(len(span.logs) == 1, 'logged once')
        log = span.logs[0]
        S.check(log['event'] == 'error' and log['message'] == 'the message' and log['error.object'] is exc and
                log['error.kind'] is Bad, lambda: 'what is logged: %r' % (log,))
        S.check(not span.finished, 'the span goes on')
        return log['stack']

    def both(*args):
        full = run(None, *args)
        S.check(isinstance(full, str), 'the traceback is text')
        if way != 'without traceback':
            S.check('isolated.py' in full, 'the traceback')
        if limited == 'default' or not full:
            return
        n = len(full)
        limit = S.pick('limit', [0, 1, n - 1, n, n + 1])
        S.check_eq(run(limit, *args), full[:limit], 'the traceback, trimmed')
        S.reach('short' if limit < n else 'exact' if limit == n else 'long')

    if way == 'in progress':
        isolated('caught_bad', lambda e: both(), [1, 2, 3], exc)
    elif way == 'given':
        caught = []
        isolated('caught_bad', caught.append, [1, 2, 3], exc)
        both(type(caught[0]), caught[0], caught[0].__traceback__)
    else:
        both(Bad, exc, None)


@R.harness(quick=[dict()], labels=['python', 'satella', 'result', 'exception', 'before', 'after', 'waiting'],
           bounds='futures of three kinds, completed before or after, with any result or an exception')
def wrapped(S):
    kind = S.pick('kind', ['python', 'satella', 'cassandra'])
    if kind != 'cassandra':
        fut = concurrent.futures.Future() if kind == 'python' else SatellaFuture()
        S.check(wrap_future(fut) is fut, 'it is one already')
        S.check(not fut.running(), 'it is left alone')
        S.reach(kind)
        return
    cf = CassandraFuture()
    ok = S.flag('ok')
    value = S.pick('value', [S.int('result'), None, []])
    exc = Bad('x')

    def complete():
        if ok:
            cf.set_result(value)
        else:
            cf.set_exception(exc)
    before = S.flag('before')
    if before:
        complete()
    fut = wrap_future(cf)
    S.check(isinstance(fut, concurrent.futures.Future), 'a Python future')
    seen = []
    if not before:
        S.check(fut.running() and not fut.done(), 'it is running')
        S.check(not fut.cancel(), 'too late to cancel')
        fut.add_done_callback(seen.append)
        S.expect_raises(concurrent.futures.TimeoutError, lambda: fut.result(timeout=0), msg='not done')
        S.reach('waiting')
        complete()
        S.check(seen == [fut], 'callbacks are called')
    S.check(fut.done() and not fut.cancelled(), 'done')
    if ok:
        S.check_eq(fut.result(timeout=0), value, 'the result')
        S.reach('result')
    else:
        S.check(fut.exception(timeout=0) is exc, 'the exception')
        S.reach('exception')
    S.reach('before' if before else 'after')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=5)],
           labels=['one query', 'statement', 'queries', 'iterator', 'without arguments', 'failed', 'fewer queries',
                   'fewer arguments', 'stopped'],
           bounds='up to n queries with any arguments, each of which succeeds or fails')
def queries(S, n):
    kind = S.pick('kind', ['text', 'list', 'iterator'] + (['statement'] if SimpleStatement else []))
    args = [None if S.flag('none') else (S.int('arg'), i) for i in range(S.choice('n', n + 1))]
    if None in args:
        S.reach('without arguments')
    log = []
    bad = S.choice('bad', n + 1)        # this one fails
    results = [S.int('row') for _ in range(n)]

    class Cursor:
        def execute_async(self, *a):
            i = len(log)
            log.append(a)

            class F:
                def result(self):
                    S.check(len(log) == len(want), 'all of them are started first')
                    if i == bad:
                        raise Bad(i)
                    return results[i]
            return F()

    if kind == 'text':
        query, qs = 'Q', ['Q'] * len(args)
        S.reach('one query')
    elif kind == 'statement':
        query = SimpleStatement('Q')
        qs = [query] * len(args)
        S.reach('statement')
    else:
        qs = ['Q%d' % i for i in range(S.choice('queries', n + 1))]
        query = list(qs) if kind == 'list' else iter(qs)
        S.reach('queries' if kind == 'list' else 'iterator')
        S.reach('fewer queries' if len(qs) < len(args) else 'fewer arguments' if len(qs) > len(args) else 'as many')
    want = [(q,) if a is None else (q, a) for q, a in zip(qs, args)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = iter(parallel_for(Cursor(), query, S.pick('arguments', [list, iter])(args)))
        got = []
        failed = False
        while True:
            try:
                got.append(next(it))
            except StopIteration:
                break
            except Bad as e:
                failed = True
                S.check(e.args == (len(got),), 'the first to fail')
                break
    S.check_eq(log, want, 'what is executed')
    S.check(failed == (bad < len(want)), 'fails if one of them does')
    S.check_eq(got, results[:bad if failed else len(want)], 'results, in order')
    S.reach('failed' if failed else 'stopped')
