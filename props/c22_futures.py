import concurrent.futures
import logging
from concurrent.futures import Future as PythonFuture, ThreadPoolExecutor, CancelledError
from concurrent.futures import InvalidStateError

from engine.harness import Registry
from engine.sched import Threads
from satella.coding.concurrent import Future, WrappingFuture, FutureCollection, \
    call_in_separate_thread, run_as_future, parallel_execute, parallel_construct, sync_threadpool
from satella.coding.concurrent.futures import call_in_future, wrap_if, ExecutorWrapper
from satella.exceptions import WouldWaitMore

R = Registry('C22', assumptions=[
    'threads are preempted between lines, stores and calls of satella code; the standard library '
    'Future, ThreadPoolExecutor and queues are executed on model locks'])

FOCUS = ['coding/concurrent/futures', 'coding/concurrent/functions', 'coding/concurrent/sync',
         'coding/concurrent/list_processor', 'coding/concurrent/thread.py', 'coding/concurrent/atomic']


logging.disable(logging.CRITICAL)     # exceptions in callbacks are logged


class Bad(Exception):
    pass


class Worse(Exception):
    pass


def outcome(S, name):
    """the way a future ends"""
    return S.pick(name, ['result', 'exception', 'cancel'])


def finish(fut, how, value, exc):
    if how == 'cancel':
        fut.cancel()
        fut.set_running_or_notify_cancel()
    else:
        fut.set_running_or_notify_cancel()
        if how == 'result':
            fut.set_result(value)
        else:
            fut.set_exception(exc)


@R.harness(quick=[dict(k=2)], thorough=[dict(k=3)], labels=['result', 'exception', 'cancel', 'transformed', 'late'],
           bounds='a future with up to k callbacks transforming its outcome and one of each kind of '
                  'notification, registered before or after it ended')
def callbacks(S, k):
    with Threads(S, 0) as sc:
        how = outcome(S, 'how')
        x, exc = (S.int('x') if S.flag('some_result') else None), Bad('x')
        fut = Future()
        calls = []
        late = S.flag('late')
        steps = []
        for i in range(S.choice('transforms', k + 1)):
            t = S.pick('transform', ['add', 'fail', 'recover', 'raise', 'set_none', 'keep'])
            d = S.int('delta')
            steps.append((t, d))

            def transform(f, t=t, d=d):
                S.check(f is fut, 'the future is given')
                if t == 'raise':
                    raise KeyError('ignored')
                if t == 'keep':
                    r, v = S.raises((Bad, Worse), f.result)
                    S.check(r == (f.exception() is not None) and (not r or v is f.exception()),
                            'the outcome as seen by the callback')
                    return
                if t == 'set_none':
                    f.set_result(None)
                    return
                if f.exception() is not None:
                    if t == 'recover':
                        f.set_result(d)
                elif t == 'add':
                    f.set_result((f.result() or 0) + d)
                elif t == 'fail':
                    f.set_exception(Worse(i))
            fut.add_pre_done_callback(transform)

        def register():
            S.check(fut.on_success(lambda v: calls.append(('success', v))) is fut, 'chaining')
            S.check(fut.on_failure(lambda v: calls.append(('failure', v))) is fut, 'chaining')
            if how != 'cancel':
                S.check(fut.chain(lambda v: calls.append(('chain', v))) is fut, 'chaining')
            fut.add_done_callback(lambda f: calls.append(('done', f)))

        if not late:
            register()
        finish(fut, how, x, exc)
        if late:
            S.check(not calls, 'not registered yet')
            register()
            S.reach('late')
        # the model
        kind, v = how, (x if how == 'result' else exc)
        for t, d in steps:
            if how == 'cancel':
                break
            if t == 'set_none':
                kind, v = 'result', None
            elif t == 'add' and kind == 'result':
                v = (v or 0) + d
                S.reach('transformed')
            elif t == 'fail' and kind == 'result':
                kind, v = 'exception', Worse
            elif t == 'recover' and kind == 'exception':
                kind, v = 'result', d
        S.check(fut.done(), 'done')
        if how == 'cancel':
            S.check(fut.cancelled(), 'cancelled')
            S.expect_raises(CancelledError, fut.result, msg='cancelled')
            S.check([c[0] for c in calls] == ['done'], lambda: 'called upon a cancellation: %r' % (calls,))
        elif kind == 'result':
            S.check_eq(fut.result(), v, 'final result')
            S.check(fut.exception() is None, 'no exception')
            S.check([c[0] for c in calls] == ['success', 'chain', 'done'], lambda: repr(calls))
            S.check_eq([c[1] for c in calls[:2]], [v, v], 'final result is passed')
        else:
            r, e = S.raises(Exception, fut.result)
            S.check(r and (type(e) is Worse if v is Worse else e is exc), 'final exception is raised')
            S.check(fut.exception() is e, 'final exception')
            S.check(calls == [('failure', e), ('chain', e), ('done', fut)], lambda: repr(calls))
        if how != 'cancel':
            S.expect_raises(InvalidStateError, fut.set_result, 1, msg='already done')
            S.expect_raises(InvalidStateError, fut.set_exception, exc, msg='already done')
            S.check(not fut.cancel(), 'too late to cancel')
        S.reach(how)


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['transformed', 'exception'],
           bounds='a thread waiting for a future (or its exception), another completing it, with a '
                  'callback transforming the outcome that takes a while')
def only_the_final_outcome_is_seen(S, switches):
    x, d = S.int('x'), S.int('delta', 1)
    way = S.pick('way', ['add', 'fail', 'recover'])
    see = S.pick('see', ['result', 'exception', 'result_timeout'])
    wrapping = S.flag('wrapping')
    with Threads(S, switches, focus=FOCUS) as sc:
        source = PythonFuture() if wrapping else Future()
        fut = WrappingFuture(source) if wrapping else source

        def transform(f):
            sc.sleep(2)
            if way == 'fail':
                f.set_exception(Worse('x'))
            elif way == 'recover':
                f.set_result(d)
            else:
                f.set_result(f.result() + d)
        fut.add_pre_done_callback(transform)

        def complete():
            source.set_running_or_notify_cancel()
            if way == 'recover':
                source.set_exception(Bad('x'))
            else:
                source.set_result(x)

        def look():
            sc.sleep(S.choice('when', 2))
            if see == 'exception':
                e = fut.exception()
                return ('exc', type(e)) if e is not None else ('result', fut.result())
            try:
                return 'result', (fut.result(1) if see == 'result_timeout' else fut.result())
            except concurrent.futures.TimeoutError:
                return 'timeout', sc.now
            except (Bad, Worse) as e:
                return 'exc', type(e)

        rs = sc.run(complete, look)
        S.check(rs[0] == ('ok', None), lambda: repr(rs))
        kind, v = sc.value(rs[1])
        if kind == 'timeout':
            S.check(see == 'result_timeout' and v <= 2, 'timed out')
            S.reach('timeout')
        elif way == 'fail':
            S.check((kind, v) == ('exc', Worse), lambda: 'got %r %r' % (kind, v))
            S.reach('exception')
        else:
            S.check(kind == 'result', lambda: 'got %r %r' % (kind, v))
            S.check_eq(v, x + d if way == 'add' else d, 'the final result')
            S.reach('transformed')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['result', 'exception', 'cancel'],
           bounds='an ordinary future being wrapped while another thread completes or cancels it')
def wrapping(S, switches):
    how = outcome(S, 'how')
    x, exc = S.int('x'), Bad('x')
    with Threads(S, switches, focus=FOCUS) as sc:
        source = PythonFuture()
        calls = []

        def wrap():
            fut = wrap_if(source)
            S.check(isinstance(fut, Future) and wrap_if(fut) is fut, 'a satella future')
            fut.add_done_callback(lambda f: calls.append(f))
            try:
                return 'result', fut.result(), fut
            except CancelledError:
                return 'cancel', None, fut
            except Bad as e:
                return 'exception', e, fut

        rs = sc.run(wrap, lambda: finish(source, how, x, exc), may_block=True)
        S.check(rs[1] == ('ok', None), lambda: repr(rs))
        S.check(rs[0][0] == 'ok', lambda: 'the wrapping future does not notice (%s): %r' % (how, rs[0]))
        kind, v, fut = sc.value(rs[0])
        S.check(kind == how, lambda: '%s seen as %s' % (how, kind))
        if kind == 'result':
            S.check_eq(v, x, 'the result')
        elif kind == 'exception':
            S.check(v is exc, 'the exception')
        S.check(fut.done() and fut.cancelled() == (how == 'cancel'), 'state')
        S.check(calls == [fut], lambda: 'callbacks called %d times' % (len(calls),))
        S.reach(kind)


@R.harness(quick=[dict()], labels=['pending', 'running', 'done'],
           bounds='cancelling a wrapping future in every state of the wrapped one')
def cancelling_the_wrapper(S):
    with Threads(S, 0) as sc:
        source = PythonFuture()
        fut = WrappingFuture(source)
        calls = []
        fut.add_done_callback(lambda f: calls.append(f))
        state = S.pick('state', ['pending', 'running', 'done'])
        if state != 'pending':
            S.check(fut.set_running_or_notify_cancel() if S.flag('via_wrapper')
                    else source.set_running_or_notify_cancel(), 'running')
        if state == 'done':
            source.set_result(1)
        c = fut.cancel()
        S.check(c == (state == 'pending'), 'only a pending future can be cancelled')
        S.check(source.cancelled() == c and fut.cancelled() == c, 'both are cancelled, or none')
        S.check(len(calls) == (0 if state == 'running' else 1), lambda: 'callbacks called %d times' % (len(calls),))
        if state == 'running':
            S.check(fut.running() and not fut.done(), 'still running')
            source.set_result(2)
            S.check(fut.result() == 2 and len(calls) == 1, 'completes normally')
        elif state == 'done':
            S.check(fut.result() == 1, 'its result remains')
        else:
            S.check(not source.set_running_or_notify_cancel(), 'will not run')
        S.reach(state)


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['results', 'exception', 'cancelled', 'not_cancelled', 'set', 'running', 'timeout'],
           bounds='a collection of n futures, each in any state')
def collection(S, n):
    with Threads(S, 0) as sc:
        futs = [PythonFuture() for _ in range(n)]
        form = S.pick('form', ['list', 'add', 'iadd', 'plus', 'generator'])
        if form == 'list':
            fc = FutureCollection(list(futs))
        elif form == 'generator':
            fc = FutureCollection(f for f in futs)
        elif form == 'add':
            fc = FutureCollection()
            for f in futs:
                S.check(fc.add(f) is fc, 'add returns the collection')
        elif form == 'iadd':
            fc = FutureCollection([])
            fc += futs[0]
            fc += FutureCollection(futs[1:]) if S.flag('collection') else futs[1:]
        else:
            base = FutureCollection([futs[0]])
            rest = S.pick('rest', ['list', 'collection', 'single'])
            if rest == 'list':
                fc = base + futs[1:]
            elif rest == 'collection':
                fc = base + FutureCollection(futs[1:])
            else:
                fc = base
                for f in futs[1:]:
                    fc = fc + f
            S.check(len(base) == 1, 'a sum is a new collection')
        S.check(len(fc) == n and all(fc[i] is futs[i] for i in range(n)), 'futures, in order')
        if form != 'list':
            for f in futs:
                f.set_result(0)
            return
        op = S.pick('op', ['outcomes', 'cancel', 'set_result', 'set_exception', 'running', 'callback'])
        if op == 'callback':
            calls = []
            only = S.flag('only_one')
            fc.add_done_callback(calls.append, only_one=only)
            for f in futs:
                f.set_result(1)
            S.check(calls == (futs[:1] if only else futs), 'callbacks')
        elif op == 'outcomes':
            kinds = [S.pick('kind', ['result', 'exception', 'never']) for _ in range(n)]
            vals = [S.int('v') for _ in range(n)]
            excs = [Bad(i) for i in range(n)]
            for f, kd, v, e in zip(futs, kinds, vals, excs):
                if kd != 'never':
                    finish(f, kd, v, e)
            first = next((i for i in range(n) if kinds[i] != 'result'), None)
            r, got = S.raises(Exception, fc.result, 1)
            r2, got2 = S.raises(Exception, fc.exception, 1)
            if first is None:
                S.check(not r and not r2 and got2 is None, 'no exception')
                S.check_eq(got, vals, 'results, in order')
                S.reach('results')
            elif kinds[first] == 'exception':
                S.check(r and got is excs[first], 'the exception is raised')
                S.check(not r2 and got2 is excs[first], 'the exception is returned')
                S.reach('exception')
            else:
                S.check(r and isinstance(got, WouldWaitMore), 'timeout')
                S.check(r2 and isinstance(got2, WouldWaitMore), 'timeout')
                S.reach('timeout')
        elif op == 'cancel':
            busy = [S.flag('busy') for _ in range(n)]
            for f, b in zip(futs, busy):
                if b:
                    f.set_running_or_notify_cancel()
            r = fc.cancel()
            S.check(r == (not any(busy)), 'True iff all were cancelled')
            S.check([f.cancelled() for f in futs] == [not b for b in busy],
                    'all that could be cancelled are cancelled')
            S.reach('cancelled' if r else 'not_cancelled')
        elif op == 'running':
            gone = [S.flag('gone') for _ in range(n)]
            for f, g in zip(futs, gone):
                if g:
                    f.cancel()
            r = fc.set_running_or_notify_cancel()
            S.check(r == (not all(gone)), 'True iff at least one was not cancelled')
            S.check([f.running() for f in futs] == [not g for g in gone], 'the others are running')
            S.reach('running')
        else:
            S.check(fc.set_running_or_notify_cancel() is True, 'running')
            v, e = S.int('v'), Bad('x')
            getattr(fc, op)(v if op == 'set_result' else e)
            for f in futs:
                if op == 'set_result':
                    S.check_eq(f.result(), v, 'result of each')
                else:
                    S.check(f.exception() is e, 'exception of each')
            S.reach('set')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)],
           labels=['separate', 'run_as', 'executor', 'in_future', 'raised', 'returned'],
           bounds='a function called in another thread by each of the available ways, returning or raising')
def calls_in_other_threads(S, switches):
    way = S.pick('way', ['separate', 'run_as', 'executor', 'in_future'])
    fails = S.flag('fails')
    a, b = S.int('a'), S.int('b')
    exc = S.pick('exc', [Bad, SystemExit])('x') if fails else None
    with Threads(S, switches, focus=FOCUS) as sc:
        calls = []

        def fun(x, y=0):
            calls.append((x, y))
            sc.sleep(1)
            if fails:
                raise exc
            return x - y

        tpe = None
        if way == 'separate':
            delay = S.pick('delay', [0, 3])
            fut = call_in_separate_thread(daemon=True, delay=delay,
                                          no_thread_attribute=S.flag('no_attr'))(fun)(a, y=b)
        elif way == 'run_as':
            fut = run_as_future(fun)(a, y=b)
        else:
            tpe = ThreadPoolExecutor(max_workers=1)
            if way == 'executor':
                ew = ExecutorWrapper(tpe)
                fut = ew.submit(fun, a, y=b)
            else:
                c = call_in_future(tpe, fun, a, y=b)
                S.check(not calls, 'not called yet')
                fut = c(1, 2, z=3) if S.flag('args_ignored') else c()
            S.check(isinstance(fut, Future), 'a satella future')
        r, v = S.raises((Bad, SystemExit), fut.result)
        S.check(fut.done(), 'done')
        S.check_eq(calls, [(a, b)], 'called once, with the arguments given')
        if fails:
            S.check(r and v is exc, 'its exception')
        else:
            S.check(not r, 'no exception')
            S.check_eq(v, a - b, 'its result')
        if tpe is not None:
            (ew if way == 'executor' else tpe).shutdown()
        S.reach('raised' if fails else 'returned')
        S.reach(way)


@R.harness(quick=[dict(n=2, switches=1)], thorough=[dict(n=3, switches=1), dict(n=2, switches=2)],
           labels=['execute', 'construct'],
           bounds='n calls executed in parallel, each taking an arbitrary time and returning or raising')
def in_parallel(S, n, switches):
    way = S.pick('way', ['execute', 'construct'])
    times = [S.pick('time', [1, 2]) for _ in range(n)]
    vals = [S.int('v') for _ in range(n)]
    bad = [S.flag('bad') for _ in range(n)]
    with Threads(S, switches, focus=FOCUS) as sc:
        excs = [Bad(i) for i in range(n)]

        def work(i):
            sc.sleep(times[i])
            if way == 'execute' and bad[i]:
                raise excs[i]
            return None if bad[i] else vals[i]

        if way == 'execute':
            out = list(parallel_execute(run_as_future(work), [(i,) for i in range(n)]))
            S.check(len(out) == n, 'one outcome for each call')
            for i in range(n):
                if bad[i]:
                    S.check(out[i] is excs[i], 'the exception, in its place')
                else:
                    S.check_eq(out[i], vals[i], 'the result, in its place')
        else:
            with ThreadPoolExecutor(max_workers=2) as tpe:
                out = parallel_construct(range(n), work, tpe)
            S.check_eq(out, [v for v, b in zip(vals, bad) if not b], 'results in order, without None')
        S.reach(way)


@R.harness(quick=[dict(workers=1, jobs=1, switches=1), dict(workers=2, jobs=1, switches=1)],
           thorough=[dict(workers=2, jobs=2, switches=2)], labels=['synced', 'timeout'],
           bounds='synchronising a thread pool executor with jobs taking an arbitrary time, with an arbitrary '
                  'limit (or none); it must stay usable')
def synchronisation(S, workers, jobs, switches):
    limit = S.int('limit', 0, 6) if S.flag('limited') else None
    durations = [S.int('duration', 1, 6) for _ in range(jobs)]
    with Threads(S, switches, focus=['coding/concurrent/sync', 'coding/concurrent/thread.py']) as sc:
        done = []
        tpe = ThreadPoolExecutor(max_workers=workers)

        def job(d):
            sc.sleep(d)
            done.append(d)

        for d in durations:
            tpe.submit(job, d)
        try:
            sync_threadpool(tpe, max_wait=limit)
            S.check(len(done) == jobs, 'all the jobs are done')
            S.reach('synced')
        except WouldWaitMore:
            S.check(limit is not None, 'nothing to time out')
            S.check(sc.now <= limit + 1.5, 'raised in time')
            if workers >= jobs:
                S.check(S.Or(*[d + 2 >= limit for d in durations]), 'raised, though there was time')
            S.reach('timeout')
        # it is left usable
        f = tpe.submit(lambda: 'fine')
        S.check(f.result() == 'fine', 'the pool works afterwards')
        tpe.shutdown()
        S.check(len(done) == jobs, 'all the jobs are done')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['result', 'exception', 'cancel'],
           bounds='two threads waiting for one future, wrapping or not, that a third one ends')
def several_waiters(S, switches):
    how = outcome(S, 'how')
    x = S.pick('x', [None, 0])
    exc = Bad('x')
    wrapping = S.flag('wrapping')
    with Threads(S, switches, focus=FOCUS) as sc:
        source = PythonFuture() if wrapping else Future()
        fut = wrap_if(source)

        def wait(see):
            try:
                return 'result', (see() if see == fut.result else None if see() is None else see())
            except CancelledError:
                return 'cancel', None
            except Bad as e:
                return 'exception', e

        def end():
            sc.sleep(1)
            finish(source, how, x, exc)

        rs = sc.run(lambda: wait(fut.result), lambda: wait(fut.exception), end, may_block=True)
        if how == 'exception':
            S.check(rs == [('ok', ('exception', exc)), ('ok', ('result', exc)), ('ok', None)], lambda: repr(rs))
        elif how == 'result':
            S.check(rs == [('ok', ('result', x)), ('ok', ('result', None)), ('ok', None)], lambda: repr(rs))
        else:
            S.check(rs == [('ok', ('cancel', None))] * 2 + [('ok', None)], lambda: repr(rs))
        S.reach(how)


@R.harness(quick=[dict(switches=0)], thorough=[dict(switches=1)], labels=['all', 'first', 'failed', 'order'],
           bounds='two futures ended at arbitrary times with any outcome, waited for by the functions of '
                  'the standard library')
def standard_functions(S, switches):
    times = [S.int('time%d' % i, 1, 5) for i in range(2)]
    S.assume(times[0] != times[1])
    hows = [S.pick('how', ['result', 'exception']) for _ in range(2)]
    kinds = [S.pick('future', ['satella', 'wrapping']) for _ in range(2)]
    way = S.pick('way', ['all', 'first', 'failed', 'order'])
    with Threads(S, switches, focus=FOCUS) as sc:
        sources = [Future() if k == 'satella' else PythonFuture() for k in kinds]
        futs = [wrap_if(f) for f in sources]

        def end(i):
            sc.sleep(times[i])
            finish(sources[i], hows[i], i, Bad(i))

        def wait():
            if way == 'order':
                out = []
                for f in concurrent.futures.as_completed(futs):
                    S.check(sc.now == times[futs.index(f)], 'as soon as it ends')
                    out.append(futs.index(f))
                return out
            done, not_done = concurrent.futures.wait(
                futs, return_when={'all': 'ALL_COMPLETED', 'first': 'FIRST_COMPLETED',
                                   'failed': 'FIRST_EXCEPTION'}[way])
            S.check(done | not_done == set(futs), 'each is done or not done')
            return sc.now, {futs.index(f) for f in done}

        rs = sc.run(wait, lambda: end(0), lambda: end(1), may_block=True)
        S.check(rs[0][0] == 'ok', lambda: 'the waiting thread: %r' % (rs[0],))
        got = sc.value(rs[0])
        a, b = (0, 1) if bool(times[0] < times[1]) else (1, 0)      # a ends first
        if way == 'order':
            S.check(got == [a, b], 'in the order they end')
        elif way == 'first' or way == 'failed' and hows[a] == 'exception':
            S.check(got[0] == times[a] and got[1] == {a}, 'noticed when the first one ends')
        else:
            S.check(got[0] == times[b] and got[1] == {0, 1}, 'noticed when the last one ends')
        S.reach(way)


@R.harness(quick=[dict()], labels=['executor', 'in_future', 'separate', 'parallel', 'shutdown'],
           bounds='calls with or without arguments given in advance; a pool with a wrapper shut down at once '
                  'or not; calls in parallel with keyword arguments, each taking an arbitrary time')
def arguments_and_times(S):
    what = S.pick('what', ['in_future', 'separate', 'parallel', 'shutdown', 'construct'])
    a, b = S.int('a', -5, 5), S.int('b', -5, 5)
    with Threads(S, 0) as sc:
        if what == 'in_future':
            args = S.pick('args', [(), (a,), (a, b)])
            kwargs = S.pick('kwargs', [{}, {'c': a}])
            with ThreadPoolExecutor(max_workers=1) as tpe:
                c = call_in_future(S.pick('pool', [tpe, ExecutorWrapper(tpe)]),
                                   lambda *xs, **kw: (xs, kw), *args, **kwargs)
                for given, named in (((), {}), ((1,), {}), ((1, 2), {'c': 5}), ((), {'d': 1})):
                    S.check_eq(c(*given, **named).result(), (args, kwargs), 'the arguments given in advance')
            S.reach('in_future')
            S.reach('executor')
        elif what == 'separate':
            started = sc.now
            no_attr = S.flag('no_attr')
            delay = S.pick('delay', [0, 2])

            def work(*args, **kwargs):
                sc.sleep(3)
                return args, kwargs
            way = S.pick('way', ['separate', 'run_as'])
            fut = (call_in_separate_thread(name='t', no_thread_attribute=no_attr, delay=delay)
                   if way == 'separate' else run_as_future)(work)(a, c=b)
            S.check(sc.now == started, 'does not wait for the call')
            if way == 'separate':
                S.check(hasattr(fut, 'thread') == (not no_attr), 'the thread')
                if not no_attr:
                    S.check(fut.thread.future is fut and fut.thread.name == 't', 'the thread of that future')
            else:
                delay = 0
            sc.sleep(1 + delay)
            S.check(fut.running() and not fut.done() and not fut.cancel(), 'it is running')
            S.check_eq(fut.result(), ((a,), {'c': b}), 'result')
            S.check(sc.now == started + delay + 3, 'ended in time')
            S.reach('separate')
        elif what == 'parallel':
            times = [S.int('time%d' % i, 1, 5) for i in range(2)]

            @run_as_future
            def f(i, x=None):
                sc.sleep(times[i])
                if S.flag('fails'):
                    raise Bad(i)
                return i, x
            named = S.pick('named', ['none', 'dicts', 'shorter', 'generator'])
            args = [(0,), (1,)] if S.flag('list') else ((i,) for i in range(2))
            if named == 'none':
                it = parallel_execute(f, args)
                want = [(0, None), (1, None)]
            elif named == 'shorter':
                it = parallel_execute(f, args, [{'x': a}])
                want = [(0, a)]
            else:
                kw = [{'x': a}, {'x': b}]
                it = parallel_execute(f, args, kw if named == 'dicts' else (k for k in kw))
                want = [(0, a), (1, b)]
            out = list(it)
            S.check(len(out) == len(want), 'one outcome per call')
            for i, (x, y) in enumerate(zip(out, want)):
                S.check(x.args == (i,) if isinstance(x, Bad) else x == y,
                        'the outcome, in its place')
            longest = times[0] if len(want) == 1 or bool(times[0] > times[1]) else times[1]
            S.check(sc.now == longest, 'at the same time')
            S.reach('parallel')
        elif what == 'construct':
            vals = [S.pick('v', [None, 0, a, [], False]) for _ in range(2)]
            with ThreadPoolExecutor(max_workers=1) as tpe:
                out = parallel_construct(iter(vals), lambda v: v, tpe)
            want = [v for v in vals if v is not None]
            S.check(len(out) == len(want) and all(x is y for x, y in zip(out, want)), 'all but None, in order')
        else:
            tpe = ThreadPoolExecutor(max_workers=1)
            ew = ExecutorWrapper(tpe)
            fut = ew.submit(sc.sleep, 3)
            wait = S.pick('wait', [None, True, False])
            if wait is None:
                ew.shutdown()
            else:
                ew.shutdown(wait=wait)
            S.check(sc.now == (0 if wait is False else 3), 'waits for the calls, unless told otherwise')
            S.expect_raises(RuntimeError, ew.submit, len, 'x', msg='closed')
            fut.result()
            S.check(sc.now == 3, 'what was submitted is done')
            S.reach('shutdown')


@R.harness(quick=[dict(switches=0)], thorough=[dict(switches=1)], labels=['results', 'exception', 'timeout'],
           bounds='a thread waiting for a collection of two futures ending at arbitrary times, with a limit for '
                  'a single one or none')
def collection_timing(S, switches):
    times = [S.int('time%d' % i, 1, 9) for i in range(2)]
    limit = S.int('limit', 1, 9) if S.flag('limited') else None
    hows = [S.pick('how', ['result', 'exception']) for _ in range(2)]
    see = S.pick('see', ['result', 'exception'])
    if limit is not None:
        S.assume(S.And(times[0] != limit, times[1] != limit, times[1] != times[0] + limit))
    with Threads(S, switches, focus=FOCUS) as sc:
        futs = [Future(), PythonFuture()]
        excs = [Bad(0), Bad(1)]
        fc = FutureCollection(futs)

        def end(i):
            sc.sleep(times[i])
            finish(futs[i], hows[i], i, excs[i])

        def wait():
            args = () if limit is None else (limit,)
            try:
                return getattr(fc, see)(*args), sc.now
            except (Bad, WouldWaitMore) as e:
                return e, sc.now

        rs = sc.run(wait, lambda: end(0), lambda: end(1), may_block=True)
        v, when = sc.value(rs[0])
        now = 0
        for i in range(2):
            end_ = times[i] if bool(times[i] > now) else now
            if limit is not None and bool(end_ > now + limit):
                S.check(isinstance(v, WouldWaitMore) and when == now + limit, 'the limit is for a single future')
                S.reach('timeout')
                return
            now = end_
            if hows[i] == 'exception':
                S.check(v is excs[i] and when == now, 'the first exception')
                S.reach('exception')
                return
        S.check(v == ([0, 1] if see == 'result' else None) and when == now, 'all the results')
        S.reach('results')
