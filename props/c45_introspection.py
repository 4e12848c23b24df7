import collections
import contextlib
import gc
import io
import multiprocessing
import re
import signal
import sys

import psutil

from engine.harness import Registry
from engine.sched import Threads
from satella.instrumentation import dump_frames_on, install_dump_frames_on
from satella.instrumentation.cpu_time import calculate_occupancy_factor, collector, get_own_cpu_usage, sleep_cpu_aware
from satella.instrumentation.cpu_time.collector import _CPUProfileBuilderThread
from satella.instrumentation.memory import conditions, dump_memory_on, get_size, install_dump_memory_on, \
    install_force_gc_collect, MemoryPressureManager

R = Registry('C45', assumptions=['the counters of processor time are those of psutil, read at the moment of the call'])


@contextlib.contextmanager
def patched(*patches):
    old = [(obj, attr, getattr(obj, attr)) for obj, attr, _ in patches]
    try:
        for obj, attr, value in patches:
            setattr(obj, attr, value)
        yield
    finally:
        for obj, attr, value in old:
            setattr(obj, attr, value)


Times = collections.namedtuple('Times', ['user', 'nice', 'system', 'idle', 'iowait', 'irq', 'softirq'])
Own = collections.namedtuple('Own', ['user', 'system', 'children_user', 'children_system', 'iowait'])


class Machine:
    """stands for psutil"""

    def __init__(self, S, t, cores=1):
        self.S, self.t, self.cores = S, t, cores
        self.used = 0
        self.readings = []      # of the whole machine
        self.own = []           # of this process

    def cpu_times(self):
        load = self.S.int('load%d' % (len(self.readings),), 0, 1000)
        self.used = self.used + load
        self.readings.append((self.t.now, self.used))
        return Times(self.used - 3, 2, 1, 0, 0, 0, 0)

    def __call__(self, *args):
        return _Process(self)

    def factors(self):
        kept = [r for i, r in enumerate(self.readings) if not i or r[0] != self.readings[i - 1][0]]
        return [(b[1] - a[1]) / self.cores / (b[0] - a[0]) for a, b in zip(kept, kept[1:])]


class _Process:
    def __init__(self, machine):
        self.m = machine

    def cpu_times(self):
        S, i = self.m.S, len(self.m.own)
        self.m.own.append((self.m.t.now, Own(S.int('user%d' % i, 0, 1000), S.int('system%d' % i, 0, 1000), i, 2 * i, 7)))
        return self.m.own[-1][1]


@contextlib.contextmanager
def machine(S, t, cores=1):
    m = Machine(S, t, cores)
    with patched((psutil, 'cpu_times', m.cpu_times), (psutil, 'Process', m), (multiprocessing, 'cpu_count', lambda: cores),
                 (_CPUProfileBuilderThread, 'thread', None), (collector, 'previous_cf', None),
                 (collector, 'previous_timestamp', None)):
        yield m


def of_sorted(S, data, percent):
    """a percentile falling exactly on an element: as many are smaller as should be"""
    return sorted(data)[int((len(data) - 1) * percent)]


@R.harness(quick=[dict(switches=0), dict(switches=1)], thorough=[dict(switches=2)],
           labels=['nothing yet', 'requested', 'not requested', 'requested late', 'first', 'second', 'own', 'own not ready'],
           bounds='windows of 3 seconds of any loads, two of them; a percentile requested and read at any time, also in the '
                  'middle of a rebuild')
def profile(S, switches):
    with Threads(S, switches=switches, focus=('instrumentation/cpu_time',)) as t, machine(S, t) as m:
        builder = _CPUProfileBuilderThread('3s', 2)
        _CPUProfileBuilderThread.thread = builder
        builder.start()
        percent = S.pick('percent', [0.5, 1.0])
        request = S.flag('request')
        # a rebuild takes 0.1 + 3 s the first time, 3 s of the others; 2 s pass between them
        asked = S.pick('asked', [0.5, 3.1, 4, 8.1, 9])
        read = S.pick('read', [0.25, 1, 5])
        if switches == 0:
            S.assume(asked in (0.5, 4, 9))
        else:
            S.assume(asked in (3.1, 8.1) and read == 0.25 and request)

        def user():
            t.sleep(asked)
            if request:
                builder.request_percentile(percent)
            t.sleep(read)
            mine = collector.CPUTimeManager.percentile(percent)
            return t.now, mine, get_own_cpu_usage()

        when, got, usage = t.value(t.run(user)[0])
        loads = m.factors()
        windows = [loads[i + 1:i + 4] for i in range(0, len(loads), 4) if len(loads[i + 1:i + 4]) == 3]
        # what was rebuilt in full by then
        S.check(len(windows) == len([x for x in (3.1, 8.1, 13.1) if when >= x]), 'windows are observed')
        if not windows:
            S.check(got == 0, 'nothing is known yet')
            S.reach('nothing yet')
        else:
            if min(abs(when - 8.1), abs(when - 13.1)) < 0.3 and len(windows) > 1:
                want = S.Or(*[S.eq(got, of_sorted(S, w, percent)) for w in windows])
            else:
                want = S.eq(got, of_sorted(S, windows[-1], percent))
            S.check(want, 'the percentile of the last window')
            S.reach('first' if len(windows) == 1 else 'second')
            S.reach('requested' if request else 'not requested')
            if request and asked > 1:
                S.reach('requested late')
        done = [x for x in m.own if x[0] <= when]
        if len(done) < 2:
            S.check(usage is None, 'usage is not known yet')
            S.reach('own not ready')
        elif done[-1][0] < when:
            (t1, a), (t2, b) = done[-2:]
            for field in Own._fields:
                S.check_eq(getattr(usage, field), (getattr(b, field) - getattr(a, field)) / (t2 - t1), field)
            S.reach('own')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['factor', 'too soon', 'whole', 'below', 'above', 'no limits'],
           bounds='up to n (2) seconds of any loads, 1 or 4 cores, any limits')
def occupancy(S, n):
    cores = S.pick('cores', [1, 4])
    with Threads(S, switches=0) as t, machine(S, t, cores) as m:
        class NotStarted:
            get_instance = staticmethod(lambda: None)
        with patched((collector, '_CPUProfileBuilderThread', NotStarted)):
            if S.flag('measured'):
                calculate_occupancy_factor()
                for i in range(n):
                    gap = S.pick('gap%d' % i, [0, 1, 2.5])
                    t.sleep(gap)
                    was = t.now
                    got = calculate_occupancy_factor()
                    S.check_eq(got, m.factors()[-1], 'load since the last call')
                    if gap == 0:
                        S.check(t.now > was, 'waits for a while')
                        S.reach('too soon')
                    S.reach('factor')
                return
            low = S.int('below', -1, 300) if S.flag('low') else None
            high = S.int('above', -1, 300) if S.flag('high') else None
            kw = {}
            if S.flag('each'):
                kw['check_each'] = each = 2
            else:
                each = 1
            total = S.pick('total', [0, 1, n, '2s'])
            r, got = S.raises(KeyError, lambda: sleep_cpu_aware(total, low, high, **kw))
            total = 2 if total == '2s' else total
            if low is None and high is None:
                S.check(got is False and t.now == total, 'sleeps')
                S.reach('no limits')
                return
            woken = False
            # the first reading is not a load yet, the second one only primes the counter
            for f in m.factors()[1:]:
                S.check(not woken, 'wakes up at once')
                woken = bool(S.Or(f > high if high is not None else False, f < low if low is not None else False))
            S.check(got == woken, 'tells whether it was awoken')
            slept = t.now - m.readings[1][0]
            if not woken:
                S.check(abs(slept - total) < 0.0001, 'sleeps for the whole time')
                S.reach('whole')
            else:
                last = m.factors()[-1]
                S.check(slept <= total, 'no longer than asked for')
                S.check(abs(slept - min(total, each * (len(m.factors()) - 1))) < 0.0001, 'checks as often as asked')
                S.reach('above' if high is not None and last > high else 'below')


class Node:
    pass


class Slim:
    __slots__ = ()


@R.harness(quick=[dict()], labels=['shared', 'cycle', 'distinct', 'object', 'nested', 'text'],
           bounds='structures of up to 3 containers of each kind, shared or not, in cycles or not')
def sizes(S):
    leafs = ['text', b'bytes', 12345678901234567890, None, Slim(), bytearray(b'array')]
    a, b = S.pick('a', leafs), S.pick('b', leafs)
    parts = []

    def build(name, content):
        kind = S.pick(name, ['list', 'tuple', 'values', 'keys', 'object', 'set'])
        if kind == 'object':
            x = Node()
            for i, c in enumerate(content):
                setattr(x, 'attr%d' % i, c)
            parts.extend([x, x.__dict__] + list(x.__dict__))
        elif kind == 'values':
            x = {'key%d' % i: c for i, c in enumerate(content)}
            parts.extend([x] + list(x))
        elif kind == 'keys':
            S.assume(all(type(c).__hash__ for c in content) and all(not isinstance(c, tuple) for c in content))
            x = dict.fromkeys(content, 'value')
            parts.extend([x, 'value'])
        elif kind == 'set':
            S.assume(all(type(c).__hash__ for c in content) and all(not isinstance(c, tuple) for c in content))
            x = set(content)
            parts.append(x)
        else:
            x = content if kind == 'list' else tuple(content)
            parts.append(x)
        if kind == 'object':
            S.reach('object')
        return x
    inner = build('inner', [a, b])
    parts += [a, b]
    shape = S.pick('shape', ['flat', 'shared', 'nested', 'cycle'])
    x = inner
    if shape == 'shared':
        x = [inner, inner]
        parts.append(x)
        S.reach('shared')
    elif shape == 'nested':
        x = build('outer', [inner])
        S.reach('nested')
    elif shape == 'cycle':
        x = [inner]
        x.append(x)
        parts.append(x)
        S.reach('cycle')
    else:
        S.reach('distinct')
    want = sum(sys.getsizeof(p) for p in {id(p): p for p in parts}.values())
    S.check(get_size(x) == want, lambda: 'size is %s, expected %s' % (get_size(x), want))
    S.check(get_size(a) == sys.getsizeof(a), 'an object with no components')
    S.reach('text')


class Broken:
    def __repr__(self):
        raise AttributeError('half initialized')


class Unsized:
    def __sizeof__(self):
        raise TypeError('no size')


@R.harness(quick=[dict()], labels=['memory', 'unprintable', 'unsized', 'signal', 'frames', 'collection'],
           bounds='up to 3 objects of each kind; frames of two threads')
def dumps(S):
    what = S.pick('what', ['memory', 'frames', 'collect'])
    handlers = {}
    out = io.StringIO()
    if what == 'collect':
        calls = []
        if '__it__' in MemoryPressureManager.__dict__:
            del MemoryPressureManager.__it__
        level = S.pick('level', [1, 2, None])
        reading = [0]

        class Pressure(conditions.BaseCondition):
            def can_fire(self, local, rss):
                return reading[0]

        with Threads(S, switches=0) as t, patched((gc, 'collect', lambda *a: calls.append(a))):
            mgr = MemoryPressureManager(None, [Pressure()] * 2)
            install_force_gc_collect(level) if level else install_force_gc_collect()
            reached = S.choice('reached', 2)
            reading[0] = reached
            t.sleep(100)
            if reached:
                S.check(len(calls) == 1, lambda: 'collects once, not %s times' % (len(calls),))
                S.reach('collection')
            else:
                S.check(not calls, 'does not collect')
        del MemoryPressureManager.__it__
        return
    if what == 'frames':
        with patched((signal, 'signal', lambda n, f: handlers.__setitem__(n, f))):
            install_dump_frames_on(signal.SIGUSR1, out)

        def someone(local_variable, n):
            if n:
                return someone('deeper %s' % (n,), n - 1)
            frame = sys._getframe()
            with patched((sys, '_current_frames', lambda: {1: frame, 77: frame.f_back})):
                handlers[signal.SIGUSR1](signal.SIGUSR1, frame)
        S.check(list(handlers) == [signal.SIGUSR1], 'installs a handler')
        depth = S.choice('depth', 3)
        someone('outermost', depth)
        text = out.getvalue()
        S.check(str(int(signal.SIGUSR1)) in text, 'names the signal')
        for token in ['outermost'] + ['deeper %s' % (i + 1) for i in range(depth)] + ['local_variable']:
            S.check(token in text, lambda: '%s is not there' % (token,))
        S.check('77' in text, 'names the thread')
        S.check(not depth or text.count('outermost') >= 2, 'each of the threads')
        S.reach('frames')
        return
    objects = []
    for i in range(S.choice('n', 4)):
        objects.append(S.pick('obj%d' % i, [['a list'], {'key': 'value'}, Broken(), Unsized(), ('a', 'tuple'), ['another list']]))
    with patched((signal, 'signal', lambda n, f: handlers.__setitem__(n, f)), (gc, 'get_objects', lambda *a: list(objects))):
        if S.flag('signal'):
            install_dump_memory_on(signal.SIGUSR2, out)
            S.check(list(handlers) == [signal.SIGUSR2] and not out.getvalue(), 'installs a handler')
            handlers[signal.SIGUSR2](signal.SIGUSR2, None)
            S.reach('signal')
        else:
            dump_memory_on(out)
    lines = out.getvalue().splitlines()
    per_object = [line for line in lines if line.startswith('object ')]
    S.check(len(per_object) == len(objects), 'each object is there')
    totals = {}
    for line, obj in zip(per_object, objects):
        if isinstance(obj, Broken):
            S.reach('unprintable')
        else:
            S.check(repr(obj) in line, 'its representation')
        if isinstance(obj, Unsized):
            size = 0
            S.reach('unsized')
        else:
            size = sys.getsizeof(obj)
        S.check(repr(type(obj)) in line and re.search(r'\b%d\b' % (size,), line), 'its type and size')
        total = totals.setdefault(type(obj), [0, 0])
        total[0] += size
        total[1] += 1
    scores = [line for line in lines[len(per_object):] if line.startswith('<class')]
    S.check(len(scores) == len(totals), 'each type is there')
    sizes = []
    for typ, (size, instances) in totals.items():
        mine = [line for line in scores if line.startswith(repr(typ))]
        S.check(len(mine) == 1, 'once')
        numbers = [int(x) for x in re.findall(r'\d+', mine[0][len(repr(typ)):])]
        S.check(numbers == [size, instances], lambda: 'totals of %r are %r' % (typ, numbers))
    sizes = [int(re.search(r'(\d+) bytes', line).group(1)) for line in scores]
    S.check(sizes == sorted(sizes, reverse=True), 'the biggest come first')
    S.reach('memory')
