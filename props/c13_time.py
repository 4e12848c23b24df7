import time
import warnings
from concurrent.futures import Future

from engine.harness import Registry
from engine.sched import Threads
from engine.timestub import controlled
from props.lib import Clock
from satella.exceptions import WouldWaitMore
from satella.time import measure, ExponentialBackoff, parse_time_string, sleep, time_as_int, time_ms, time_us

R = Registry('C13', assumptions=['clock readings are integers, arbitrary, non-decreasing'])


@R.harness(quick=[dict(k=4)], thorough=[dict(k=5)],
           labels=['running', 'stopped', 'resumed', 'reset', 'already_running', 'already_stopped',
                   'timeouted', 'not_timeouted', 'created_stopped', 'adjusted', 'unstoppable', 'ctx', 'ctx without stop'],
           bounds='k starts/stops/resets/adjustments at arbitrary instants, arbitrary timeout')
def stopwatch(S, k):
    clock = Clock(S)
    timeout = S.int('timeout', 0) if S.flag('has_timeout') else None
    stopped = S.flag('create_stopped')
    sos = stopped or S.flag('stop_on_stop')
    adj = S.int('adjust') if S.flag('adjusting') else 0
    m = measure(stop_on_stop=sos, adjust=adj, time_getter_callable=clock, create_stopped=stopped,
                timeout=timeout)
    acc, since = -adj, clock.now         # elapsed = acc + (now - since if running)
    if stopped:
        acc, since = 0, None
        S.reach('created_stopped')

    def elapsed():
        return acc if since is None else acc + (clock.now - since)

    for i in range(k):
        clock.advance()
        op = S.pick('op', ['start', 'stop', 'reset', 'adjust', 'ctx'])
        if op in ('start', 'stop') and not sos:
            S.expect_raises(TypeError, getattr(m, op))
            S.reach('unstoppable')
        elif op == 'start':
            r, _ = S.raises(TypeError, m.start)
            S.check(r == (since is not None), 'TypeError iff already running')
            if not r:
                since = clock.now
                S.reach('resumed')
            else:
                S.reach('already_running')
        elif op == 'stop':
            r, _ = S.raises(TypeError, m.stop)
            S.check(r == (since is None), 'TypeError iff already stopped')
            if not r:
                acc, since = elapsed(), None
            else:
                S.reach('already_stopped')
        elif op == 'reset':
            if not sos:
                continue
            m.reset()
            acc, since = 0, None
            S.reach('reset')
        elif op == 'adjust':
            if since is None:
                continue
            d = S.int('d')
            m.adjust(d)
            acc = acc - d
            S.reach('adjusted')
        elif op == 'ctx':
            if not sos:
                if since is None:
                    continue
                with m as m2:
                    S.check(m2 is m)
                    clock.advance()
                    S.check_eq(m(), elapsed(), 'elapsed inside')
                clock.advance()
                S.check_eq(m(), elapsed(), 'elapsed, as it never stops')
                S.reach('ctx without stop')
                continue
            with m as m2:
                S.check(m2 is m)
                if since is None:
                    since = clock.now
                clock.advance()
                S.check_eq(m(), elapsed(), 'elapsed inside')
            acc, since = elapsed(), None
            S.reach('ctx')
        if sos:
            S.check(m.stopped == (since is None), 'stopped')
        S.check_eq(m(), elapsed(), 'elapsed')
        S.check_eq(m.get_time_elapsed(), elapsed(), 'elapsed')
        S.reach('running' if since is not None else 'stopped')
    clock.advance()
    S.check_eq(m(), elapsed(), 'elapsed')
    if timeout is None:
        S.check(m.timeouted is False and m.time_remaining is None)
        m.assert_not_timeouted()
    else:
        over = bool(elapsed() >= timeout)
        S.reach('timeouted' if over else 'not_timeouted')
        S.check(m.timeouted == over, 'timeouted')
        r, _ = S.raises(WouldWaitMore, m.assert_not_timeouted)
        S.check(r == over, 'assert_not_timeouted')
        S.check_eq(m.time_remaining, 0 if over else timeout - elapsed(), 'time remaining')


@R.harness(quick=[{}], labels=['future', 'decorated', 'raised', 'generator'],
           bounds='arbitrary instants; a future, a function (returning or raising) and a generator')
def measured_things(S):
    clock = Clock(S)
    fut = Future()
    m = measure(fut, time_getter_callable=clock)
    clock.advance()
    t1 = clock.now
    S.check_eq(m(), t1, 'running')
    if S.flag('ok'):
        fut.set_result(1)
    else:
        fut.set_exception(ValueError())
    clock.advance()
    S.check_eq(m(), t1, 'measurement stops with the future')
    S.reach('future')

    fails = S.flag('fails')
    seen = []

    @measure(time_getter_callable=clock)
    def fun(mo, x):
        seen.append(mo)
        S.check_eq(mo(), 0, 'starts with the call')
        clock.advance()
        if fails:
            raise S.pick('type', [ValueError, KeyboardInterrupt])(x)
        return x + 1

    clock.advance()
    t2 = clock.now
    r, v = S.raises((ValueError, KeyboardInterrupt), fun, 5)
    S.check(r == fails and (r or v == 6), 'outcome is preserved')
    dur = clock.now - t2
    clock.advance()
    S.check_eq(seen[0](), dur, 'duration of the call')
    S.reach('raised' if r else 'decorated')

    @measure(time_getter_callable=clock)
    def gen(mo):
        seen.append(mo)
        yield 1
        yield 2
        return 7

    got = []

    def delegate():
        got.append((yield from gen()))

    t3 = clock.now
    for _ in delegate():
        clock.advance()
    S.check(got == [7], 'what the generator returns')
    dur = clock.now - t3
    clock.advance()
    S.check_eq(seen[1](), dur, 'duration of the generator')
    S.reach('generator')


@R.harness(quick=[dict(k=5)], thorough=[dict(k=7)],
           labels=['grace', 'first', 'doubled', 'limited', 'success', 'waiting', 'ready', 'slept'],
           bounds='k failures/successes at arbitrary instants, arbitrary start, limit, grace 0..2')
def backoff(S, k):
    clock = Clock(S)
    start, limit = S.int('start', 1), S.int('limit', 1)
    grace = S.choice('grace', 3)
    slept = []
    with controlled(clock):
        eb = ExponentialBackoff(start, limit, slept.append, grace)
        fails, until, wait = 0, None, 0
        for i in range(k):
            clock.advance()
            if S.flag('success'):
                eb.success()
                fails, until, wait = 0, None, 0
                S.reach('success')
            else:
                eb.failed()
                fails += 1
                if fails > grace:
                    n = fails - grace - 1
                    full = start * 2 ** n
                    if full > limit:
                        wait = limit
                        S.reach('limited')
                    else:
                        wait = full
                        S.reach('doubled' if n else 'first')
                    until = clock.now + wait
                else:
                    S.reach('grace')
            S.check(eb.available == (fails <= grace), 'available')
            eb.sleep()
            S.check_eq(slept[-1], wait, 'time to sleep')
            S.reach('slept')
        clock.advance()
        if until is None:
            S.check(eb.time_until_next_check() is None and eb.ready_for_next_check)
        elif clock.now > until:
            if S.flag('ask'):
                S.check(eb.time_until_next_check() is None, 'wait is over')
            S.check(eb.ready_for_next_check, 'ready')
            S.reach('ready')
        elif clock.now < until:
            S.check_eq(eb.time_until_next_check(), until - clock.now, 'time until next check')
            S.check(not eb.ready_for_next_check, 'not ready')
            S.reach('waiting')
        eb.success()
        S.check(eb.available and eb.ready_for_next_check and eb.time_until_next_check() is None)


@R.harness(quick=[dict(k=4)], thorough=[dict(k=7)], labels=['ok', 'other', 'immediate'],
           bounds='up to k failures before a success or an unrelated exception')
def launch(S, k):
    n = S.choice('fails', k)
    other = S.flag('other')
    start, limit = S.int('start', 1), S.int('limit', 1)
    S.assume(limit >= start)
    slept, calls = [], []
    eb = ExponentialBackoff(start, limit, slept.append)
    imm = S.flag('immediate')

    def fun(*args, **kwargs):
        calls.append((args, kwargs))
        if len(calls) <= n:
            raise ValueError()
        if other:
            raise TypeError()
        return 'result'

    if imm:
        r, f = S.raises(TypeError, lambda: eb.launch(ValueError, immediate=True)(fun))
        S.reach('immediate')
        S.check(r == other)
        S.check(all(c == ((), {}) for c in calls))
    else:
        f = eb.launch((ValueError, KeyError))(fun)
        S.check(not calls)
        r, v = S.raises(TypeError, f, 1, b=2)
        S.check(r == other and (r or v == 'result'))
        S.check(all(c == ((1,), {'b': 2}) for c in calls))
    S.check(len(calls) == n + 1, 'called until it succeeds')
    S.check(len(slept) == n, 'sleeps after each failure')
    for i, s in enumerate(slept):
        full = start * 2 ** i
        S.check_eq(s, S.Ite(full > limit, limit, full), 'sleep')
    if not other:
        S.check(eb.available, 'success is noted')
        S.reach('ok')
    else:
        S.reach('other')


UNITS = [(1, ['', 's', ' s', ' sec', ' second', ' seconds', ' secs']), (60, ['m', ' m', 'min', ' min', ' mins', ' minutes']),
         (3600, ['h', ' h', ' hour', ' hours', 'hrs']), (86400, ['d', ' day', ' days']),
         (7 * 86400, ['w', ' week', ' weeks'])]


@R.harness(quick=[dict(hi=40)], thorough=[dict(hi=200)], labels=['string', 'number'],
           bounds='counts 0..hi with every unit spelling; arbitrary numbers')
def time_strings(S, hi):
    x = S.int('x')
    S.check_eq(parse_time_string(x), x, 'numbers are seconds')
    S.reach('number')
    mult, names = S.pick('unit', UNITS)
    n = S.conc(S.int('n', 0, hi))
    for name in names:
        S.check(parse_time_string('%d%s' % (n, name)) == n * mult,
                lambda: '%d%s is %r' % (n, name, parse_time_string('%d%s' % (n, name))))
    S.reach('string')


@R.harness(quick=[dict(k=3)], thorough=[dict(k=5)], labels=['slept', 'interrupted', 'aborted', 'negative', 'early'],
           bounds='up to k interruptions or early wake-ups, at arbitrary instants; arbitrary interval')
def sleeping(S, k):
    clock = Clock(S)
    y = given = S.int('y')
    if S.flag('text'):
        y, given = S.pick('string', [(2, '2s'), (60, '1m'), (10800, '3h')])
    abort = S.flag('abort')
    state = {'n': 0, 'int': False}

    def fake_sleep(secs):
        S.check(S.And(secs >= 0, secs <= y), 'sleeps no longer than needed')
        state['n'] += 1
        if state['n'] <= k:
            what = S.pick('what', ['full', 'early', 'interrupt'])
            if what != 'full':
                d = S.int('slept', 0)
                S.assume(d <= secs)
                clock.now = clock.now + d
                S.reach('early')
                if what == 'interrupt':
                    state['int'] = True
                    raise KeyboardInterrupt()
                return
        clock.now = clock.now + secs

    # satella.time.measure binds the clock at import; it goes through the same stub
    with controlled(clock, fake_sleep):
        out = sleep(given, abort)
    if y < 0:
        S.check(out is False and state['n'] == 0, 'negative interval')
        S.reach('negative')
    elif abort and state['int']:
        S.check(out is False, 'aborted')
        S.reach('aborted')
    else:
        S.check(out is True, 'slept')
        S.check_eq(clock.now, y, 'exactly the interval')
        S.reach('interrupted' if state['int'] else 'slept')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)],
           labels=['returned', 'raised', 'passed', 'by success', 'by time', 'failed again', 'forever', 'at once'],
           bounds='a thread waiting, with any or no timeout, another one which at any times (also during a step of the wait) '
                  'reports a success or a failure; threads wake up after their time')
def waiting(S, switches):
    with Threads(S, switches=switches, focus=('time/backoff', 'coding/concurrent/thread'), late=1) as t:
        start = S.int('start', 1, 25) * 2       # the clock never shows the very moment when the wait ends
        timeout = S.int('timeout', 0, 100) if S.flag('timeout') else None
        first, later = S.Ite(start > 30, 30, start), S.Ite(start * 2 > 30, 30, start * 2)
        eb = ExponentialBackoff(start, 30)
        until = None
        if S.flag('failed'):
            eb.failed()
            until = first
            if S.flag('passed'):
                t.sleep(until + 1)
                S.reach('passed')
        begin = t.now
        second = S.pick('second', [None, 'success', 'failed'])
        changed = []

        def waiter():
            try:
                eb.wait_until_available(timeout) if timeout is not None else eb.wait_until_available()
                return 'returned', t.now
            except WouldWaitMore:
                return 'raised', t.now

        def other():
            if S.flag('after'):
                t.sleep(S.int('after', 1, 30) * 2)
            changed.append(t.now)
            eb.success() if second == 'success' else eb.failed()

        got = t.run(waiter, *([other] if second else []))
        kind, when = [t.value(r) for r in got][0]
        S.reach(kind)
        wait = later if until is not None else first
        # the earliest moment when it was available
        if until is None or begin > until:
            earliest = begin
            S.reach('at once')
            if second == 'failed' and when > changed[0] and S.eq(changed[0], begin):
                earliest = changed[0] + wait + 1        # this one was the first
        else:
            earliest = until + 1
            if changed and second == 'failed':
                S.assume(S.Not(S.eq(changed[0], earliest)))     # either may be first
            if changed and changed[0] <= until:
                earliest = changed[0] if second == 'success' else changed[0] + wait + 1
                S.reach('by success' if second == 'success' else 'failed again')
            else:
                S.reach('by time')
        if second == 'failed':
            left = changed[0] + wait - t.now
            S.check_eq(eb.time_until_next_check(), left if left >= 0 else None, 'the failure is not forgotten')
        if kind == 'returned':
            S.check(when >= earliest, 'returned although unavailable')
            S.check(when <= earliest + 1, 'returned late')
            if timeout is None:
                S.reach('forever')
        else:
            S.check(timeout is not None and when >= begin + timeout, 'raised before its time')
            S.check(when <= begin + timeout + 1, 'raised late')
            S.check(earliest >= when, 'raised although available')


@R.harness(quick=[dict()], labels=['restarted', 'restopped', 'refused', 'exceeded', 'not exceeded', 'resumed', 'own exception'],
           bounds='two operations at arbitrary instants, arbitrary limit')
def shorthands(S):
    clock = Clock(S)
    m = measure(time_getter_callable=clock)
    acc, since = 0, clock.now
    for i in range(2):
        clock.advance()
        op = S.pick('op', ['stop', 'reset_and_start', 'reset_and_stop', 'update'])
        running = since is not None
        r, _ = S.raises(TypeError, getattr(m, op))
        if op == 'reset_and_start':
            S.check(not r, 'may be restarted')
            acc, since = 0, clock.now
            S.reach('restarted')
        elif op == 'update':
            S.check(r == running, 'TypeError iff already running')
            if not r:
                since = clock.now
                S.reach('resumed')
        else:
            S.check(r == (not running), 'TypeError iff already stopped')
            if r:
                S.reach('refused')
            else:
                acc, since = 0 if op == 'reset_and_stop' else acc + (clock.now - since), None
                S.reach('restopped')
        S.check(m.stopped == (since is None), 'stopped')
    clock.advance()
    elapsed = acc if since is None else acc + (clock.now - since)
    limit = S.int('limit')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        over = bool(elapsed > limit)
        S.check(m.has_exceeded(limit) == over, 'exceeded')
        if S.flag('own'):
            r, _ = S.raises(KeyError, m.raise_if_exceeded, limit, KeyError)
            S.reach('own exception')
        else:
            r, _ = S.raises(WouldWaitMore, m.raise_if_exceeded, limit)
        S.check(r == over, 'raises iff exceeded')
    S.reach('exceeded' if over else 'not exceeded')


@R.harness(quick=[dict()], labels=['read'], bounds='any clock reading of nanoseconds')
def readings(S):
    ns = S.int('ns', 0, 2 ** 63)
    saved = time.time_ns
    time.time_ns = lambda: ns
    try:
        secs = S.pick('secs', [0, 1, 1700000000, 2 ** 33])
        fraction = S.pick('fraction', [0, 0.25, 0.75])
        with controlled(lambda: secs + fraction):
            S.check(time_as_int() == secs, 'seconds')
            S.check_eq(time_ms(), ns // 10 ** 6, 'milliseconds')
            S.check_eq(time_us(), ns // 1000, 'microseconds')
    finally:
        time.time_ns = saved
    S.reach('read')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['both at once'],
           bounds='two threads waiting and a third one reporting a success before their wait ends by itself')
def two_waiting(S, switches):
    with Threads(S, switches=switches, focus=('time/backoff',), late=0) as t:
        eb = ExponentialBackoff(10, 30)
        eb.failed()
        begin = t.now

        def waiter():
            eb.wait_until_available()
            return t.now

        def other():
            t.sleep(3)
            eb.success()

        got = t.run(waiter, waiter, other)
        for end in [t.value(r) for r in got][:2]:
            S.check(end - begin <= 3, lambda: 'not woken up by a success: %r' % (end - begin,))
        S.reach('both at once')


@R.harness(labels=['function', 'generator', 'method', 'sibling'],
           bounds='a measured function, method or generator calling itself up to 2 levels deep; arbitrary instants')
def nested_calls(S):
    """each call has a measurement of its own"""
    clock = Clock(S)
    kind = S.pick('kind', ['function', 'generator', 'method'])
    depth = 1 + S.choice('depth', 2)
    m = measure(time_getter_callable=clock)
    seen, done = [], []

    def around(mo, n, inner):
        start = clock.now
        S.check_eq(mo(), 0, 'starts with the call')
        S.check(not mo.stopped, 'running')
        seen.append((mo, len(seen)))
        clock.advance()
        if n:
            inner()
        clock.advance()
        S.check_eq(mo(), clock.now - start, 'measures its own call')
        done.append((mo, clock.now - start))

    if kind == 'function':
        @m
        def fun(mo, n):
            around(mo, n, lambda: fun(n - 1))
    elif kind == 'method':
        class A:
            @m
            def method(self, mo, n):
                around(mo, n, lambda: self.method(n - 1))

        fun = A().method
    else:
        @m
        def gen(mo, n):
            yield n
            around(mo, n, lambda: list(gen(n - 1)))
            yield n

        def fun(n):
            return list(gen(n))

    fun(depth)
    if S.flag('sibling'):
        clock.advance()
        fun(0)
        S.reach('sibling')
    clock.advance()
    S.check(len({id(mo) for mo, _ in seen}) == len(seen) and all(mo is not m for mo, _ in seen), 'copies')
    for mo, dur in done:
        S.check_eq(mo(), dur, 'stopped when the call ended')
        S.check(mo.stopped, 'stopped')
    S.reach(kind)
