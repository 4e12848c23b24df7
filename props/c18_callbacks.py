import logging

from engine.harness import Registry
from engine.sched import Threads
from engine.timestub import controlled
from props.lib import Clock
from satella.coding.concurrent import CallableGroup, CallNoOftenThan, CancellableCallback
from satella.instrumentation.memory import MemoryPressureManager
from satella.instrumentation.memory import conditions as c, memthread

R = Registry('C18', assumptions=[
    'memory readings are stubbed (any value); threads are preempted between lines, stores and calls of '
    'satella code'])

FOCUS = ['coding/concurrent/callablegroup', 'instrumentation/memory']
logging.disable(logging.CRITICAL)


class Bad(Exception):
    pass


class Unhashable:
    """something that can be called"""
    __hash__ = None

    def __init__(self, fun):
        self.fun = fun

    def __call__(self, *args, **kwargs):
        return self.fun(*args, **kwargs)

    def __eq__(self, other):
        return isinstance(other, Unhashable)


@R.harness(quick=[dict(n=2, steps=2)], thorough=[dict(n=2, steps=3), dict(n=3, steps=2)],
           labels=['called', 'raised', 'swallowed', 'one_shot', 'cancelled', 'twice'],
           bounds='a group of up to n callbacks (returning or raising, one-shot or not) over up to "steps" '
                  'calls, cancellations and repeated additions')
def group(S, n, steps):
    gather, swallow = S.flag('gather'), S.flag('swallow')
    cg = CallableGroup(gather, swallow)
    calls = []
    members = []            # [index, handle, one_shot, raises, value, exc]
    arg = S.int('arg')
    for i in range(1 + S.choice('members', n)):
        raises, one_shot = S.flag('raises'), S.flag('one_shot')
        v = None if i else S.int('v')
        exc = Bad(i)

        def fun(x, y=None, i=i, raises=raises, v=v, exc=exc):
            calls.append((i, x, y))
            if raises:
                raise exc
            return v

        if i == 0:
            fun = Unhashable(fun)
        own = i > 0 and S.flag('own')
        f = CancellableCallback(fun) if own else fun
        h = cg.add(f, one_shot) if one_shot else cg.add(f)
        S.check(isinstance(h, CancellableCallback) and (not own or h is f), 'a cancellable callback is returned')
        S.check(h == h and not h != h and hash(h) == hash(h) and h != fun and
                all(h != m[1] or h is m[1] for m in members), 'equal only to itself')
        members.append([i, h, one_shot, raises, v, exc])
    for _ in range(steps):
        op = S.pick('op', ['call', 'cancel', 'again', 'end'])
        if op == 'end':
            break
        if op == 'cancel':
            if not members:
                break
            m = members[S.choice('which', len(members))]
            m[1].cancel()
            S.check(m[1].cancelled and not m[1], 'cancelled')
            S.check(cg.has_cancelled_callbacks, 'has cancelled callbacks')
            S.check(m[1](1) is None, 'does nothing')
            S.reach('cancelled')
            if S.flag('remove'):
                cg.remove_cancelled()
                S.check(not cg.has_cancelled_callbacks, 'cancelled callbacks removed')
                members = [m for m in members if not m[1].cancelled]
        elif op == 'again':
            if not members:
                break
            m = members[S.choice('which', len(members))]
            if m[1].cancelled:
                break
            S.check(cg.add(m[1], m[2]) is m[1], 'the same one')
            S.reach('twice')
        else:
            members = [m for m in members if not m[1].cancelled]
            expected, results, error = [], [], None
            left = []
            for j, m in enumerate(members):
                expected.append((m[0], arg, 'y'))
                results.append(m[5] if m[3] else m[4])
                if not m[2]:
                    left.append(m)
                else:
                    S.reach('one_shot')
                if m[3] and not swallow:
                    error = m[5]
                    left.extend(members[j + 1:])
                    break
            del calls[:]
            r, out = S.raises(Bad, cg, arg, y='y')
            S.check_eq(calls, expected, 'called, in order, with the arguments')
            if error is not None:
                S.check(r and out is error, 'exception is propagated')
                S.reach('raised')
            else:
                S.check(not r, lambda: 'raised %r' % (out,))
                S.check_eq(out, results if gather else None, 'results, in order')
                S.reach('swallowed' if any(m[3] for m in members) else 'called')
            members = left
            S.check(not cg.has_cancelled_callbacks, 'no cancelled callbacks')


@R.harness(quick=[dict()], labels=['added', 'cancelled', 'nested'],
           bounds='a callback that adds, cancels or calls others while the group of three is being called')
def changes_during_a_call(S):
    cg = CallableGroup()
    calls = []
    what = S.pick('what', ['add', 'cancel', 'call_other'])
    other = CallableGroup()
    other.add(lambda: calls.append('other'))

    def changer():
        calls.append('changer')
        if len(calls) > 3:
            return
        if what == 'add':
            cg.add(lambda: calls.append('new'))
        elif what == 'cancel':
            h.cancel()
        else:
            other()

    where = S.choice('where', 3)
    names = ['a', 'b']
    handles = {}
    order = []
    for i in range(3):
        if i == where:
            cg.add(changer)
            order.append('changer')
        else:
            name = names.pop(0)
            handles[name] = cg.add(lambda name=name: calls.append(name))
            order.append(name)
    victim = S.pick('victim', ['a', 'b'])
    h = handles[victim]
    cg()
    first = list(calls)
    if what == 'cancel':
        late = order.index(victim) < where
        S.check(first == [o for o in order if o != victim or late], lambda: 'called %r' % (first,))
        S.reach('cancelled')
    elif what == 'call_other':
        S.check([x for x in first if x != 'other'] == order and first.count('other') == 1, repr(first))
        S.reach('nested')
    else:
        S.check([x for x in first if x != 'new'] == order, lambda: 'called %r' % (first,))
        S.reach('added')
    del calls[:]
    calls.extend('xxxx')
    cg()
    second = calls[4:]
    if what == 'cancel':
        order.remove(victim)
    elif what == 'add':
        S.check(second.count('new') == 1, lambda: 'called %r' % (second,))
        second.remove('new')
    S.check(second == order, lambda: 'called afterwards: %r' % (second,))


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['call', 'add', 'cancel'],
           bounds='a group of two callbacks (possibly one-shot, or raising) called by a thread, while another one '
                  'calls it, adds to it or cancels')
def group_in_threads(S, switches):
    what = S.pick('what', ['call', 'add', 'cancel'])
    one_shot = S.flag('one_shot')
    raises = S.flag('raises')
    with Threads(S, switches, focus=FOCUS) as sc:
        cg = CallableGroup()
        calls = []

        def a():
            calls.append('a')
            sc.sleep(1)
            if raises:
                raise Bad('x')

        def b():
            calls.append('b')
            return 'b'

        cg.add(a, one_shot)
        h = cg.add(b)

        def call():
            try:
                return cg()
            except Bad:
                return 'raised'

        def other():
            if what == 'call':
                return call()
            if what == 'add':
                cg.add(lambda: calls.append('c'))
            else:
                h.cancel()
                cg.remove_cancelled()
        rs = sc.run(call, other)
        for r in rs:
            sc.value(r)
        n = 2 if what == 'call' else 1
        S.check(calls.count('a') == (1 if one_shot else n), lambda: 'a called %d times' % (calls.count('a'),))
        failed = [sc.value(r) for r in rs].count('raised')
        S.check((failed > 0) == raises, 'exceptions are propagated')
        if what != 'cancel':
            S.check(calls.count('b') == n - failed, lambda: 'b called %d times' % (calls.count('b'),))
        else:
            S.check(calls.count('b') <= 1, 'b')
        before = len(calls)
        call()
        later = calls[before:]
        if one_shot:
            S.check('a' not in later, 'a one-shot callback is gone')
            S.check(('b' in later) == (what != 'cancel'), 'b is still there')
            S.check(('c' in later) == (what == 'add'), 'c is there')
        else:
            S.check(later.count('a') == 1, 'a is still there')
            if not raises:
                S.check(('b' in later) == (what != 'cancel'), 'b is still there')
                S.check(('c' in later) == (what == 'add'), 'c is there')
        S.reach(what)


@R.harness(quick=[dict(n=3)], thorough=[dict(n=5)], labels=['called', 'skipped', 'raised'],
           bounds='n attempts to call, at arbitrary times, the callback taking an arbitrary time')
def limited_calls(S, n):
    t0 = S.int('start', 0)
    interval = S.int('interval', 0)
    with controlled(Clock(S, lo=t0)) as clock:
        calls = []
        raises = [S.flag('raises') for _ in range(n)]
        takes = S.int('takes', 0)

        def fun(a, b):
            calls.append((clock.now, a, b))
            clock.now = clock.now + takes
            if raises[len(calls) - 1]:
                raise Bad('x')

        cno = CallNoOftenThan(interval, fun)
        last_end = None
        for i in range(n):
            before = len(calls)
            now = clock.now
            r, v = S.raises(Bad, cno, i, b=2)
            S.check(v is None or r, 'None')
            if len(calls) > before:
                S.check_eq(calls[-1], (now, i, 2), 'called once, with the arguments')
                if before:
                    S.check(calls[-1][0] - calls[-2][0] >= interval, 'called too often')
                S.check(r == raises[before], 'exception')
                last_end = clock.now
                S.reach('raised' if r else 'called')
            else:
                S.check(before > 0, 'not called the first time')
                S.check(now - last_end < interval, 'not called, though enough time has passed')
                S.reach('skipped')
            clock.now = clock.now + S.int('pause', 0)


class Info:
    def __init__(self, rss):
        self.rss = rss


class Memory:
    """stands for the psutil module"""

    def __init__(self, available, total):
        self.available, self.total = available, total

    def virtual_memory(self):
        return self


class Process:
    def __init__(self, readings):
        self.readings = readings
        self.Process = lambda pid=None: self

    def memory_info(self):
        return Info(self.readings[0])


class patched:
    def __init__(self, obj, name, value):
        self.args = obj, name, value

    def __enter__(self):
        obj, name, value = self.args
        self.old = getattr(obj, name)
        setattr(obj, name, value)

    def __exit__(self, *a):
        setattr(self.args[0], self.args[1], self.old)


@R.harness(quick=[dict()], labels=['fires', 'quiet'],
           bounds='all conditions on memory for all values of the readings (total memory and the maximum '
                  'are 1000), combined two at a time')
def conditions(S):
    available, rss = S.int('available', 0, 1000), S.int('rss', 0, 1000)
    with patched(c, 'psutil', Memory(available, 1000)):
        def condition():
            kind = S.pick('kind', ['global_abs', 'global_rel', 'local_abs', 'local_rel', 'custom', 'zeroth'])
            v = S.int('value', 0, 1000)
            if kind == 'global_abs':
                return c.GlobalAbsoluteValue(v), available < v
            if kind == 'global_rel':
                return c.GlobalRelativeValue(v), 100 * available < v * 1000
            if kind == 'local_abs':
                return c.LocalAbsoluteValue(v), 1000 - rss < v
            if kind == 'local_rel':
                return c.LocalRelativeValue(v), 100 * (1000 - rss) < v * 1000
            if kind == 'zeroth':
                return c.ZerothSeverity(), True
            return c.CustomCondition(lambda: v == 7), v == 7

        join = S.pick('join', ['one', 'not', 'any', 'all', 'none_any', 'none_all'])
        if join == 'one':
            x, ok = condition()
        elif join == 'not':
            x, k = condition()
            x, ok = c.Not(x), S.Not(k)
        elif join == 'none_any':
            x, ok = c.Any(), False
        elif join == 'none_all':
            x, ok = c.All(), True
        else:
            (x, k), (y, l) = condition(), condition()
            x = (c.Any if join == 'any' else c.All)(x, y)
            ok = (S.Or if join == 'any' else S.And)(k, l)
        r = x.can_fire(Info(rss), 1000)
        S.check_eq(r, ok, join)
        S.reach('fires' if r else 'quiet')


def manager(sc, readings, levels, **kwargs):
    """a memory pressure manager, checking each 10 seconds"""
    if '__it__' in MemoryPressureManager.__dict__:
        del MemoryPressureManager.__it__
    with patched(memthread, 'psutil', Process(readings)):
        return MemoryPressureManager(1000, levels, 10, **kwargs)


@R.harness(quick=[dict(levels=2, checks=2)], thorough=[dict(levels=2, checks=4), dict(levels=3, checks=2)],
           labels=['entered', 'left', 'normal', 'remained', 'cancelled', 'stopped'],
           bounds='"levels" levels of severity, "checks" consecutive readings of arbitrary values')
def memory_pressure(S, levels, checks):
    limits = []
    for i in range(levels):
        # free memory falling below this
        limits.append(S.int('limit', 0, 1000))
        if i:
            S.assume(limits[-1] < limits[-2])
    with Threads(S, 0) as sc:
        readings = [0]
        events = []
        mt = manager(sc, readings, [c.LocalAbsoluteValue(v) for v in limits], log_transitions=S.flag('log'))
        S.check(MemoryPressureManager() is mt, 'a singleton')
        handles = []
        for i in range(levels + 1):
            handles.append([
                MemoryPressureManager.register_on_entered_severity(i)(
                    lambda i=i: events.append(('entered', i if mt.severity_level == i else 'too early'))),
                MemoryPressureManager.register_on_left_severity(i)(lambda i=i: events.append(('left', i))),
                MemoryPressureManager.register_on_remaining_in_severity(i)(
                    lambda i=i: events.append(('remains', i)))])
        h = MemoryPressureManager.register_on_memory_normal(lambda: events.append('normal'))
        cancel = S.pick('cancel', [None, 0, 1, 2, 'normal'])
        if cancel == 'normal':
            h.cancel()
        elif cancel is not None:
            handles[1][cancel].cancel()
        gone = {0: ('entered', 1), 1: ('left', 1), 2: ('remains', 1), None: None}.get(cancel, 'normal')
        if cancel is not None:
            S.reach('cancelled')
        level = 0
        stop_at = S.choice('stop', checks + 1)
        for k in range(checks):
            rss = readings[0] = S.int('rss', 0, 1000)
            del events[:]
            if k == stop_at:
                mt.stop()
            sc.sleep(15 if k == 0 else 10)
            if k == stop_at:
                S.check(events == [] and mt.severity_level == level, 'stopped')
                S.reach('stopped')
                mt.resume()
                continue
            new = 0
            for i in range(levels):
                if 1000 - rss < limits[i]:
                    new = i + 1
            expected = []
            if new == level:
                expected.append(('remains', level))
                S.reach('remained')
            while level < new:
                level += 1
                expected.append(('entered', level))
                S.reach('entered')
            while level > new:
                expected.append(('left', level))
                level -= 1
                S.reach('left')
                if level == 0:
                    expected.append('normal')
                    S.reach('normal')
            expected = [e for e in expected if e != gone]
            S.check(events == expected, lambda: 'events %r instead of %r' % (events, expected))
            S.check(mt.severity_level == level, 'the level')
        mt.terminate()
        sc.sleep(100)
        S.check(not mt.is_alive(), 'terminated')
        del MemoryPressureManager.__it__


class Obj:
    def __init__(self):
        self.cleaned = 0

    def cleanup(self):
        self.cleaned += 1


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['cleaned', 'gone', 'late'],
           bounds='two objects registered for cleanup (one possibly gone), a third registered by another thread '
                  'while the level is being entered')
def cleaning_up(S, switches):
    gone = S.pick('gone', [None, 0, 1])
    with Threads(S, switches, focus=['instrumentation/memory']) as sc:
        readings = [0]
        mt = manager(sc, readings, [c.LocalAbsoluteValue(500), c.LocalAbsoluteValue(50)])
        objs = [Obj(), Obj()]
        worse = Obj()
        MemoryPressureManager.cleanup_on_entered(2, worse)
        late = Obj()
        collected = []
        MemoryPressureManager.cleanup_on_entered(1, objs[0])
        MemoryPressureManager.cleanup_on_entered(1, objs[1], lambda o: (sc.sleep(0), collected.append(o)))
        if gone is not None:
            objs[gone] = None
            S.reach('gone')
        readings[0] = 900
        sc.run(lambda: sc.sleep(15), lambda: MemoryPressureManager.cleanup_on_entered(1, late))
        for i in range(2):
            S.check(mt.severity_level == 1, 'entered')
            S.check(worse.cleaned == 0, 'another level')
            if objs[0] is not None:
                S.check(objs[0].cleaned == i + 1, 'cleaned up')
                S.reach('cleaned')
            if objs[1] is not None:
                S.check(collected == [objs[1]] * (i + 1), 'collected')
            S.check(i <= late.cleaned <= i + 1, 'an object registered meanwhile is cleaned up')
            if late.cleaned:
                S.reach('late')
            if i == 0:
                readings[0] = 100
                sc.sleep(10)
                S.check(mt.severity_level == 0, 'left')
                readings[0] = 900
                sc.sleep(10)
        mt.terminate()
        del MemoryPressureManager.__it__


@R.harness(quick=[dict(checks=5)], thorough=[dict(checks=7)], labels=['stopped', 'resumed', 'limited', 'no_limit'],
           bounds='"checks" consecutive readings (low or high), a stop and a resumption between any two of them; '
                  'handlers called no more often than each 0, 15 or 25 seconds')
def stopping(S, checks):
    """what happens while a manager is stopped is noticed as soon as it is resumed"""
    every = S.pick('every', [0, 15, 25])
    with Threads(S, 0) as sc:
        readings = [0]
        events = []
        mt = manager(sc, readings, [c.LocalAbsoluteValue(500)])
        for i in range(2):
            MemoryPressureManager.register_on_entered_severity(i)(lambda i=i: events.append(('entered', i)))
            MemoryPressureManager.register_on_left_severity(i)(lambda i=i: events.append(('left', i)))
            MemoryPressureManager.register_on_remaining_in_severity(i, every)(lambda i=i: events.append(('remains', i)))
        MemoryPressureManager.register_on_memory_normal(lambda: events.append('normal'))
        stop = S.choice('stop', checks)
        resume = stop + 1 + S.choice('resume', checks - stop)
        level, last = 0, {0: None, 1: None}
        for k in range(checks):
            readings[0] = S.pick('rss', [100, 900])
            del events[:]
            if k == stop:
                mt.stop()
                S.reach('stopped')
            if k == resume:
                mt.resume()
                S.reach('resumed')
            sc.sleep(15 if k == 0 else 10)
            expected = []
            if not stop <= k < resume:
                new = 1 if readings[0] == 900 else 0
                if new == level:
                    if last[level] is None or 10 * k - last[level] >= every:
                        expected = [('remains', level)]
                        last[level] = 10 * k
                    S.reach('limited' if not expected else 'no_limit')
                else:
                    expected = [('entered', 1)] if new else [('left', 1), 'normal']
                level = new
            S.check(events == expected, lambda: 'events %r instead of %r' % (events, expected))
            S.check(mt.severity_level == level, 'the level')
        mt.terminate()
        sc.sleep(100)
        del MemoryPressureManager.__it__
