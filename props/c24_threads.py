import logging
import threading

from engine.harness import Registry
from engine.sched import Threads
from satella.coding.concurrent import TerminableThread, IntervalTerminableThread, SingleStartThread, \
    ThreadCollection, BogusTerminableThread, Condition, Timer
from satella.coding.concurrent import timer as timer_module
from satella.exceptions import WouldWaitMore, ResourceLocked
from satella.instrumentation.cpu_time import CPUTimeAwareIntervalTerminableThread, sleep_cpu_aware
from satella.instrumentation.cpu_time import collector, concurrency

R = Registry('C24', assumptions=[
    'threads are preempted between lines, stores and calls of satella code; sleeping takes exactly as long '
    'as requested (for timers, 1/16 s longer); forced termination (terminate(force=True)) is out of reach'])

FOCUS = ['coding/concurrent/thread', 'coding/concurrent/timer']
logging.disable(logging.CRITICAL)


class Bad(Exception):
    pass


class Worse(Bad):
    pass


class Other(Exception):
    pass


class patched:
    def __init__(self, obj, name, value):
        self.args = obj, name, value

    def __enter__(self):
        obj, name, value = self.args
        self.old = getattr(obj, name)
        setattr(obj, name, value)

    def __exit__(self, *a):
        setattr(self.args[0], self.args[1], self.old)


class Profile:
    """stands for the thread observing the CPU usage"""
    thread = None

    @classmethod
    def get_instance(cls):
        return cls

    @staticmethod
    def request_percentile(p):
        pass

    @staticmethod
    def percentile(p):
        return 0


def profile():
    return patched(concurrency, '_CPUProfileBuilderThread', Profile)


@R.harness(quick=[dict(loops=2, switches=0), dict(loops=1, switches=1)], thorough=[dict(loops=3, switches=1)],
           labels=['simple', 'interval', 'cpu', 'finished', 'crashed', 'in_prepare', 'asked'],
           bounds='threads of each kind ending in iteration up to "loops", or in preparation, by any kind of exception, '
                  'or being asked to terminate')
def ending(S, loops, switches):
    kind = S.pick('kind', ['simple', 'interval', 'cpu'])
    base = {'simple': TerminableThread, 'interval': IntervalTerminableThread,
            'cpu': CPUTimeAwareIntervalTerminableThread}[kind]
    how = S.pick('how', ['terminable', 'subclass', 'exit', 'other', 'asked', 'asks_itself'])
    after = S.choice('after', loops + 1)        # 0: in prepare()
    given = S.pick('given', ['class', 'tuple', 'none'])
    terminate_on = {'class': Bad, 'tuple': (KeyError, Bad), 'none': None}[given]
    with Threads(S, switches, focus=FOCUS + ['instrumentation/cpu_time']) as sc, profile():
        events = []

        class MyThread(base):
            def fail(self):
                if how == 'terminable':
                    raise Bad()
                if how == 'subclass':
                    raise Worse()
                if how == 'exit':
                    raise SystemExit()
                if how == 'other':
                    raise Other()
                if how == 'asks_itself':
                    self.terminate()

            def prepare(self):
                events.append('prepare')
                if after == 0:
                    self.fail()

            def loop(self):
                events.append('loop')
                sc.sleep(1)
                if events.count('loop') == after:
                    self.fail()

            def cleanup(self):
                events.append('cleanup')

        t = MyThread(*(() if kind == 'simple' else (5,)), terminate_on=terminate_on)
        S.check(not t.terminating, 'not terminating yet')
        S.check(t.start() is t, 'start returns the thread')
        if how == 'asked':
            S.reach('asked')
            sc.sleep(after)
            S.check(t.terminate() is t, 'terminate returns the thread')
            S.check(t.terminating, 'terminating')
            asked = sc.now
            t.join()
            S.check(sc.now <= asked + 3, 'terminates late')
            S.check(events.count('loop') >= 1 or after == 0, 'loops until then')
        else:
            t.join()
            n = after
            S.check(events.count('loop') == n, lambda: '%d loops instead of %d' % (events.count('loop'), n))
        S.check(not t.is_alive(), 'ended')
        S.check(events[:1] == ['prepare'] and events.count('prepare') == 1, 'prepared once, first')
        S.check(events[-1] == 'cleanup' and events.count('cleanup') == 1, 'cleaned up once, last')
        dies = how == 'other' or (given == 'none' and how in ('terminable', 'subclass'))
        S.check(t.terminating == (not dies), 'terminated properly iff not by an unexpected exception')
        S.check(len(sc.crashes) == (1 if dies else 0), lambda: 'crashes: %r' % (sc.crashes,))
        if dies:
            S.check(type(sc.crashes[0]) is {'other': Other, 'terminable': Bad, 'subclass': Worse}[how], 'the exception')
        S.reach('crashed' if dies else 'finished')
        if after == 0:
            S.reach('in_prepare')
        S.reach(kind)


@R.harness(quick=[dict(n=3)], thorough=[dict(n=5)], labels=['overrun', 'slept', 'exact', 'interval', 'cpu'],
           bounds='n iterations, each taking an arbitrary time, of a thread with an arbitrary interval')
def intervals(S, n):
    kind = S.pick('kind', ['interval', 'cpu'])
    base = {'interval': IntervalTerminableThread, 'cpu': CPUTimeAwareIntervalTerminableThread}[kind]
    seconds = S.int('seconds', 1, 6)
    takes = [S.int('takes', 0, 8) for _ in range(n)]
    occupied = S.flag('occupied')
    with Threads(S, 0) as sc, profile(), \
            patched(collector, 'calculate_occupancy_factor', lambda: 1 if occupied else -1):
        starts, overruns = [], []

        class MyThread(base):
            def loop(self):
                starts.append(sc.now)
                if len(starts) == n + 1:
                    self.terminate()
                    return
                sc.sleep(takes[len(starts) - 1])

            def on_overrun(self, time_taken):
                overruns.append((len(starts) - 1, time_taken))

        S.reach(kind)
        sooner = 0
        if kind == 'cpu':
            sooner = S.int('max_sooner', 0, 2)
            t = MyThread(seconds, sooner, 0.5, S.pick('wakeup', [1, 0.25]))
        else:
            t = MyThread(seconds)
        with t:
            t.join()
        S.check(len(starts) == n + 1, 'loops')
        expected = []
        for i in range(n):
            period = starts[i + 1] - starts[i]
            if takes[i] > seconds:
                S.check_eq(period, takes[i], 'called again at once')
                expected.append((i, takes[i]))
                S.reach('overrun')
            elif kind == 'interval' or occupied:
                S.check_eq(period, seconds, 'the interval is kept')
                S.reach('exact' if takes[i] == seconds else 'slept')
            else:
                S.check(S.And(period <= seconds, period >= seconds - sooner), 'at most max_sooner sooner')
                S.reach('slept')
        S.check_eq(overruns, expected, 'overruns are reported')


@R.harness(quick=[dict()], labels=['slept', 'terminated'],
           bounds='sleeping for an arbitrary time, waking up at arbitrary intervals, terminated at an arbitrary moment')
def safe_sleep(S):
    interval, step, when = S.int('interval', -2, 8), S.int('step', 1, 4), S.int('when', 0, 12)
    with Threads(S, 0) as sc:
        out = []

        class MyThread(TerminableThread):
            def loop(self):
                start = sc.now
                try:
                    self.safe_sleep(interval, step)
                except SystemExit:
                    out.append(('exit', start, sc.now))
                    raise
                out.append(('slept', start, sc.now))
                self.terminate()

        t = MyThread().start()
        sc.sleep(when)
        t.terminate()
        t.join()
        kind, start, end = out[0]
        S.check(len(out) == 1, 'once')
        if kind == 'slept':
            S.check_eq(end - start, S.Ite(interval > 0, interval, 0), 'the time slept')
            S.check(end <= when, 'not noticed')
        else:
            S.check(S.And(end >= when, end - when <= step), 'noticed late')
        S.reach('slept' if kind == 'slept' else 'terminated')


@R.harness(quick=[dict(n=1, switches=1), dict(n=2, switches=0)], thorough=[dict(n=2, switches=1), dict(n=1, switches=2)],
           labels=['notified', 'timeout', 'silent', 'two'],
           bounds='one or two threads waiting for a condition (with arbitrary timeouts, or none), which is notified at an '
                  'arbitrary moment, once, twice or for all')
def condition(S, n, switches):
    given = [S.int('timeout', -2 if n == 1 else 0, 5), S.int('timeout', -2 if n == 1 else 0, 5) if S.flag('limited') else None][-n:]
    timeouts = [None if t is None else S.Ite(t > 0, t, 0) for t in given]
    when = S.int('when', 0, 6)
    quiet = S.flag('dont_raise')
    way = S.pick('way', ['notify', 'notify2', 'all', 'All'])
    with Threads(S, switches, focus=FOCUS) as sc:
        cond = Condition()

        def waiter(i):
            start = sc.now
            try:
                v = cond.wait(given[i], dont_raise=quiet)
                S.check(v is None, 'returns nothing')
                return 'returned', sc.now - start
            except WouldWaitMore:
                return 'timeout', sc.now - start
            except ResourceLocked:
                S.check(timeouts[i] == 0 and sc.now == start, 'there was time to wait for the lock')
                return 'locked', 0

        def notifier():
            sc.sleep(when)
            if way == 'notify':
                cond.notify()
            elif way == 'notify2':
                cond.notify(2)
            elif way == 'all':
                cond.notify_all()
            else:
                cond.notifyAll()

        rs = sc.run(*[lambda i=i: waiter(i) for i in range(n)], notifier, may_block=True)
        sc.value(rs[n])
        woken = 0
        for i in range(n):
            if rs[i][0] == 'blocked':
                S.check(timeouts[i] is None, 'blocked though there is a timeout')
                continue
            kind, took = sc.value(rs[i])
            if kind == 'locked':
                continue
            if kind == 'timeout':
                S.check(not quiet, 'raised though it should not')
                S.check_eq(took, timeouts[i], 'timed out at another time')
                S.reach('timeout')
            elif took == when and not (quiet and timeouts[i] is not None and timeouts[i] == when):
                woken += 1
                S.reach('notified')
            else:
                S.check(quiet and timeouts[i] is not None, 'woken up by no one')
                S.check_eq(took, timeouts[i], 'returned at another time')
                S.reach('silent')
        if when > 0:        # both were waiting by then
            waiting = S.Sum([S.Ite(True if t is None else t > when, 1, 0) for t in timeouts])
            most = 1 if way == 'notify' else 2
            # one timing out at that very moment may consume the notification
            most = most - S.Sum([S.Ite(t == when, 1, 0) for t in timeouts if t is not None])
            S.check(woken >= S.Ite(S.Or(waiting < most, way in ('all', 'All')), waiting, most), 'a waiting thread is not woken up')
            if way == 'notify':
                S.check(woken <= 1, 'too many are woken up')
        if woken == 2 or n < 2:
            S.reach('two')


@R.harness(quick=[dict()], labels=['locked', 'waited'],
           bounds='waiting for a condition whose lock another thread holds for an arbitrary time')
def condition_lock_held(S):
    held, timeout = S.int('held', 1, 6), S.int('timeout', 0, 6)
    with Threads(S, 0) as sc:
        cond = Condition()

        def holder():
            with cond:
                sc.sleep(held)

        def waiter():
            sc.sleep(1)
            try:
                cond.wait(timeout)
            except ResourceLocked:
                return 'locked', sc.now
            except WouldWaitMore:
                return 'waited', sc.now

        rs = sc.run(holder, waiter)
        sc.value(rs[0])
        kind, end = sc.value(rs[1])
        S.check_eq(end, 1 + timeout, 'the timeout covers the lock, too')
        if kind == 'locked':
            S.check(held >= 1 + timeout, 'the lock was free')
        else:
            S.check(held <= 1 + timeout, 'the lock was not free')
        S.reach(kind)


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['notified', 'timeout', 'silent', 'terminated'],
           bounds='a thread safely waiting for a condition for an arbitrary time; it is notified, or the thread '
                  'terminated, at an arbitrary moment')
def safe_wait(S, switches):
    timeout, step, when = S.int('timeout', 1, 4), S.int('step', 1, 3), S.int('when', 1, 5)
    what = S.pick('what', ['notify', 'terminate'])
    quiet = S.flag('dont_raise')
    with Threads(S, switches, focus=['coding/concurrent/thread.py']) as sc:
        cond = Condition()
        out = []

        class MyThread(TerminableThread):
            def loop(self):
                start = sc.now
                try:
                    self.safe_wait_condition(cond, timeout, step, dont_raise=quiet)
                    out.append(('returned', sc.now - start))
                except WouldWaitMore:
                    out.append(('timeout', sc.now - start))
                except SystemExit:
                    out.append(('exit', sc.now - start))
                self.terminate()

        t = MyThread().start()
        start = sc.now
        sc.sleep(when)
        if what == 'notify':
            cond.notify_all()
        else:
            t.terminate()
        t.join()
        S.check(len(out) == 1, 'once')
        kind, took = out[0]
        S.check(took <= timeout, 'waits for too long')
        if kind == 'exit':
            S.check(what == 'terminate' and took >= when and took - when <= step, 'noticed late')
            S.reach('terminated')
        elif kind == 'timeout':
            S.check(not quiet, 'raised though it should not')
            S.check_eq(took, timeout, 'timed out at another time')
            # between two waits it is not listening
            S.check(S.Or(what == 'terminate' and when + step >= timeout, when >= timeout, when % step == 0),
                    'the notification was missed')
            S.reach('timeout')
        elif what == 'notify' and took == when:
            S.reach('notified')
        else:
            S.check(quiet, 'woken up by no one')
            S.check_eq(took, timeout, 'returned at another time')
            S.reach('silent')


@R.harness(quick=[dict()], labels=['started', 'joined', 'timeout', 'bogus'],
           bounds='threads that may be started repeatedly and stand-ins for threads, in every order of three operations')
def special_threads(S):
    with Threads(S, 0) as sc:
        kind = S.pick('kind', ['single', 'bogus'])
        if kind == 'single':
            runs = []
            t = SingleStartThread(target=runs.append, args=('x',))
            for _ in range(1 + S.choice('times', 3)):
                S.check(t.start() is t, 'start returns the thread')
            t.join()
            S.check(runs == ['x'], 'runs once')
            S.reach('started')
            return
        t = BogusTerminableThread()
        started = terminated = False
        for _ in range(3):
            op = S.pick('op', ['start', 'terminate', 'join', 'join_later', 'limited_join_later'])
            if op == 'start':
                r, e = S.raises(RuntimeError, t.start)
                S.check(r == (started or terminated), 'can be started once')
                started = started or not r
            elif op == 'terminate':
                t.terminate()
                terminated = True
            elif op == 'join':
                timeout = S.int('timeout', 0, 5)
                start = sc.now
                r, e = S.raises(Exception, t.join, timeout)
                if not started and not terminated:
                    S.check(r and type(e) is RuntimeError, 'not started')
                elif not terminated:
                    S.check(r and type(e) is WouldWaitMore, 'raises when the time is out')
                    S.check_eq(sc.now - start, timeout, 'times out on time')
                    S.reach('timeout')
                else:
                    S.check(not r and sc.now == start, 'joined')
                    S.reach('joined')
            elif started and not terminated:
                when = S.int('when', 0, 5)
                start = sc.now

                def later():
                    sc.sleep(when)
                    t.terminate()
                rs = sc.run(t.join if op == 'join_later' else lambda: t.join(timeout=7), later)
                sc.value(rs[0])
                S.check(S.And(sc.now - start >= when, sc.now - start <= when + 1), 'joined when it was terminated')
                terminated = True
                S.reach('bogus')
            S.check(t.is_alive() == (started and not terminated), 'is it alive')
            S.check(t.terminated == terminated, 'terminated')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['joined', 'timeout', 'terminated'],
           bounds='collections of n threads, built by every operation, each thread running for an arbitrary time')
def collections(S, n):
    with Threads(S, 0) as sc:
        lasts = [S.int('lasts', 1, 5) for _ in range(n)]
        log = []

        class MyThread(threading.Thread):
            def __init__(self, i, daemon=False):
                super().__init__(daemon=daemon)
                self.i = i

            def run(self):
                log.append(self.i)
                sc.sleep(lasts[self.i])


        class Unterminable(MyThread):
            pass

        terminable = S.flag('terminable')
        if terminable:
            MyThread.terminate = lambda self, force: log.append((self.i, force))
            Unterminable.terminate = property(lambda self: self.nothing)

        how = S.pick('how', ['from_class', 'list', 'add', 'append', 'iadd', 'plus'])
        if how == 'from_class':
            tc = ThreadCollection.from_class(MyThread, range(n), daemon=True)
            threads = list(tc)
            S.check(tc.daemon and all(t.daemon for t in threads), 'arguments are passed')
        else:
            if S.flag('plain_first'):
                threads = [Unterminable(0)] + [MyThread(i) for i in range(1, n)]
            else:
                threads = [MyThread(i) for i in range(n)]
            tc = ThreadCollection()
            if how == 'list':
                tc = ThreadCollection(t for t in threads)
            elif how in ('add', 'append'):
                for t in threads:
                    S.check(getattr(tc, how)(t) is tc, 'returns the collection')
            elif how == 'iadd':
                same = tc
                tc += threads[0]
                tc += ThreadCollection(threads[1:]) if S.flag('collection') else threads[1:]
                S.check(tc is same, 'in place')
            else:
                old = tc
                tc = tc + threads[0] + (ThreadCollection(threads[1:]) if S.flag('collection') else iter(threads[1:]))
                S.check(len(old) == 0, 'a sum is a new collection')
        S.check(len(tc) == n and list(tc) == threads, 'the threads, in order')
        which = S.choice('which', n)
        threads[which].daemon = True
        S.check(tc.daemon, 'any of them is a daemon')
        tc.daemon = False
        S.check(not any(t.daemon for t in threads) and not tc.daemon, 'none is a daemon')
        S.check(not tc.is_alive(), 'not alive')
        S.check(tc.start() is tc and tc.is_alive(), 'started')
        running = ThreadCollection.get_currently_running()
        S.check(type(running) is ThreadCollection and list(running) == threading.enumerate(), 'all that run')
        others = ThreadCollection.get_currently_running(include_main_thread=False)
        S.check(list(others) == [t for t in running if t is not threading.main_thread()], 'all but the main one')
        start = sc.now
        S.check(tc.terminate(True) is tc, 'terminate returns the collection')
        timeout = S.int('timeout', 0, 5) if S.flag('limited') else None
        r, e = S.raises(WouldWaitMore, tc.join, timeout)
        alive = [i for i in range(n) if threads[i].is_alive()]
        S.check(tc.is_alive() == bool(alive), 'is it alive')
        if r:
            S.check(timeout is not None and alive, 'joined')
            S.check(S.Or(*[lasts[i] >= timeout for i in range(n)]), 'raised, though there was time')
            S.reach('timeout')
            tc.join()
        else:
            S.check(not alive, 'joined, though one is alive')
        S.check(S.And(*[sc.now - start >= x for x in lasts]), 'joined too early')
        S.check(sorted(x for x in log if type(x) is int) == list(range(n)), 'each runs once')
        asked = [x for x in log if type(x) is tuple]
        if terminable:
            S.check(asked == [(i, True) for i in range(n) if type(threads[i]) is MyThread], 'each is terminated')
            S.reach('terminated')
        S.reach('joined')


class TimerThreads(Threads):
    """sleeping takes a little bit longer than requested"""
    def sleep(self, secs):
        super().sleep(secs + 0.0625)


@R.harness(quick=[dict(n=2, switches=0), dict(n=1, switches=1), dict(n=2, switches=1, plain=True)],
           thorough=[dict(n=3, switches=0, plain=True), dict(n=2, switches=1), dict(n=2, switches=2, plain=True)],
           labels=['executed', 'cancelled', 'same', 'raised', 'exited', 'separate'],
           bounds='n timers with arbitrary intervals, started by other threads at arbitrary moments, the first '
                  'possibly cancelled, its function returning, raising or exiting')
def timers(S, n, switches, plain=False):
    intervals = [S.int('interval', 1 if plain else 0, 1 if plain and switches else 2) for _ in range(n)]
    if not plain and n == 2:
        intervals[0] = intervals[0] * 2
    if '__it__' in timer_module.TimerBackgroundThread.__dict__:
        del timer_module.TimerBackgroundThread.__it__
    with TimerThreads(S, switches, focus=FOCUS + ['coding/structures/singleton']) as sc:
        log = {}
        wait = [0] + [(S.int('wait', 0, 0 if plain and switches else 1) * (1 if plain else 2)) for _ in range(n - 1)]
        ends = ['return' if plain else S.pick('end', ['return', 'raise', 'exit'])] + ['return'] * (n - 1)
        separate = [not plain and S.flag('separate')] + [False] * (n - 1)
        cancel = [S.int('cancel_after', 0, 4) if not plain and S.flag('cancel') else None] + [None] * (n - 1)
        started, cancelled = {}, {}

        def use(i):
            def fun(a, b=None):
                S.check(i not in log, 'executed twice')
                S.check((a, b) == (i, 'b'), 'the arguments')
                log[i] = sc.now
                if ends[i] == 'raise':
                    raise Bad()
                if ends[i] == 'exit':
                    raise SystemExit()

            t = Timer(intervals[i], fun, [i], {'b': 'b'}, spawn_separate=separate[i])
            sc.sleep(wait[i])
            started[i] = sc.now
            t.start()
            if cancel[i] is not None:
                sc.sleep(cancel[i])
                t.cancel()
                cancelled[i] = sc.now

        rs = sc.run(*[lambda i=i: use(i) for i in range(n)])
        for r in rs:
            sc.value(r)
        sc.sleep(12)
        for i in range(n):
            if i in log:
                due = started[i] + intervals[i]
                S.check(log[i] >= due, 'executed too early')
                S.check(log[i] <= due + 1.25, 'executed too late')
                if i in cancelled:
                    S.check(log[i] <= cancelled[i], 'executed after it was cancelled')
                S.reach({'return': 'executed', 'raise': 'raised', 'exit': 'exited'}[ends[i]])
                if separate[i]:
                    S.reach('separate')
            else:
                S.check(i in cancelled, 'a timer was not executed')
                S.check(cancelled[i] <= started[i] + intervals[i] + 1.25, 'not executed, though cancelled later')
                S.reach('cancelled')
        if plain:
            for x in ('raised', 'exited', 'separate', 'cancelled'):
                S.reach(x)
        if n > 1 and len(started) > 1:
            if started[0] + intervals[0] == started[1] + intervals[1]:
                S.reach('same')
        else:
            S.reach('same')
    del timer_module.TimerBackgroundThread.__it__


@R.harness(quick=[dict()], labels=['slept', 'awoken'],
           bounds='sleeping for an arbitrary time unless the CPU usage (arbitrary at each check) passes arbitrary limits')
def cpu_sleep(S):
    secs, each = S.int('seconds', 0, 4), S.int('each', 1, 3)
    below = S.int('below', 0, 100) if S.flag('has_below') else None
    above = S.int('above', 0, 100) if S.flag('has_above') else None
    usage = []

    def measure():
        usage.append(S.int('usage', 0, 100))
        return usage[-1]

    with Threads(S, 0) as sc, patched(collector, 'calculate_occupancy_factor', measure):
        r = sleep_cpu_aware(secs, below, above, each)
        S.check(sc.now <= secs, 'sleeps for too long')
        passed = [S.Or(below is not None and u < below, above is not None and u > above) for u in usage[1:]]
        if r:
            S.check(passed[-1], 'awoken for no reason')
            S.check(S.Not(S.Or(False, *passed[:-1])), 'should have awoken earlier')
            S.reach('awoken')
        else:
            S.check_eq(sc.now, secs, 'does not sleep long enough')
            S.check(S.Not(S.Or(False, *passed)), 'should have awoken earlier')
            S.reach('slept')


@R.harness(quick=[dict()], labels=['simple', 'interval', 'cpu', 'raised'],
           bounds='threads used as context managers for an arbitrary time, sleeping between iterations in any way; '
                  'the block may raise')
def as_context_manager(S):
    kind = S.pick('kind', ['simple', 'interval', 'cpu'])
    base = {'simple': TerminableThread, 'interval': IntervalTerminableThread,
            'cpu': CPUTimeAwareIntervalTerminableThread}[kind]
    when, seconds = S.int('when', 1, 20), S.pick('seconds', [30, '30s', '0.5m'])
    fails = S.pick('fails', [None, KeyError, SystemExit])
    with Threads(S, 0) as sc, profile(), patched(collector, 'calculate_occupancy_factor', lambda: 1):
        events = []

        class MyThread(base):
            def loop(self):
                events.append(sc.now)
                if kind == 'simple':
                    self.safe_sleep(30)

            def cleanup(self):
                events.append('cleanup')

        if kind == 'cpu':
            t = MyThread(seconds, S.pick('max_sooner', [None, 0, 20]), 0.5, 2)
        else:
            t = MyThread(*([seconds] if kind == 'interval' else []))

        def use():
            with t as tt:
                S.check(tt is t and t.is_alive(), 'started')
                sc.sleep(when)
                S.check(t.is_alive() and not t.terminating, 'it runs until the end of the block')
                if fails:
                    raise fails('x')

        r, e = S.raises((KeyError, SystemExit), use)
        S.check(r == (fails is not None) and (not r or type(e) is fails), 'the exception of the block')
        S.check(t.terminating and not t.is_alive(), 'it has ended')
        S.check(sc.now <= when + 2, 'noticed late')
        S.check(events == [0, 'cleanup'], 'cleaned up once')
        if r:
            S.reach('raised')
        S.reach(kind)


@R.harness(quick=[dict()], labels=['sooner', 'later'],
           bounds='an interval of ten or twenty seconds that may be shortened by the default of 10%')
def default_max_sooner(S):
    seconds = S.pick('seconds', [10, 20, '20s'])
    occupied = S.flag('occupied')
    takes = S.int('takes', 0, 3)
    with Threads(S, 0) as sc, profile(), \
            patched(collector, 'calculate_occupancy_factor', lambda: 1 if occupied else -1):
        starts = []

        class MyThread(CPUTimeAwareIntervalTerminableThread):
            def loop(self):
                starts.append(sc.now)
                sc.sleep(takes)
                if len(starts) == 3:
                    self.terminate()

        t = MyThread(seconds, wakeup_interval=0.25).start()
        t.join()
        secs = 10 if seconds == 10 else 20
        for i in range(2):
            period = starts[i + 1] - starts[i]
            if occupied:
                S.check(period == secs, 'the interval is kept')
                S.reach('later')
            else:
                S.check(period >= secs * 9 // 10 and period < secs, 'at most a tenth sooner')
                S.reach('sooner')


@R.harness(quick=[dict()], labels=['plain', 'separate'],
           bounds='a timer given any arguments, with an interval being any number of quarters of a second, or a '
                  'string, started at any quarter')
def timer_arguments(S):
    start, secs = S.int('start', 0, 7), S.int('quarters', 0, 9)
    args = S.pick('args', [None, [], (), (1,), [None, 2]])
    kwargs = S.pick('kwargs', [None, {}, {'a': 0}])
    form = S.pick('form', ['number', '1m', '2s'])
    interval = secs / 4 if form == 'number' else {'1m': 60, '2s': 2}[form]
    separate = S.flag('separate')
    if '__it__' in timer_module.TimerBackgroundThread.__dict__:
        del timer_module.TimerBackgroundThread.__it__
    with TimerThreads(S, 0) as sc:
        calls = []
        Timer(0, lambda: None).start()
        sc.sleep(start / 4)
        t = Timer(interval if form == 'number' else form, lambda *a, **k: calls.append((a, k, sc.now)), args, kwargs,
                  spawn_separate=separate)
        sc.sleep(1)
        begin = sc.now - 1
        S.check(not calls, 'not started')
        t.start()
        sc.sleep(interval + 3)
        S.check(len(calls) == 1, 'executed once')
        a, k, when = calls[0]
        S.check(a == tuple(args or ()) and k == (kwargs or {}), 'the arguments')
        S.check(S.And(when >= begin + 1 + interval, when <= begin + 2.25 + interval), 'executed in time')
        S.reach('separate' if separate else 'plain')
    del timer_module.TimerBackgroundThread.__it__


@R.harness(quick=[dict()], labels=['waited', 'timeout'],
           bounds='waiting for a condition with limits given as strings')
def time_strings(S):
    timeout, each = S.pick('timeout', [('3s', 3), ('0.05m', 3), (2, 2)]),         S.pick('each', [('1s', 1), ('2', 2), (1, 1)])
    quiet = S.flag('quiet')
    notify = S.int('notify', 1, 5) if S.flag('notified') else None
    with Threads(S, 0) as sc:
        cond = Condition()
        out = []

        class MyThread(TerminableThread):
            def loop(self):
                r, _ = S.raises(WouldWaitMore, self.safe_wait_condition, cond, timeout[0], each[0], quiet)
                out.append((r, sc.now))
                r, _ = S.raises(WouldWaitMore, cond.wait, timeout[0], dont_raise=quiet)
                out.append((r, sc.now))
                self.terminate()

        t = MyThread().start()
        if notify is not None:
            sc.sleep(notify - 0.25)
            cond.notify_all()
        t.join()
        now = 0
        for i in range(2):
            r, when = out[i]
            if notify is not None and S.And(notify - 0.25 > now, notify - 0.25 < now + timeout[1]):
                S.check(not r and when == notify - 0.25, 'notified')
                S.reach('waited')
            else:
                S.check(r == (not quiet) and when == now + timeout[1], 'timed out')
                S.reach('timeout')
            now = when
