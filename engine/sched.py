"""
Controlled scheduling of real threads.

Inside ``with Threads(S, ...) as sc`` the primitives that the standard library builds its
synchronisation upon (locks, thread start, thread end, sleeping, the clock) are replaced with models.
Condition, Event, Semaphore, queue.Queue, Future, ThreadPoolExecutor and everything in satella then
run unmodified on top of them.  Threads are real OS threads, but exactly one runs at any time; who
runs next is decided by symbolic variables:

* ``switch0 < switch1 < ...`` - the numbers of the steps at which the running thread is preempted
  (a step is the beginning of a line, a store, a delete or a call in the implementation's code;
  found through sys.monitoring, so the code under test is not altered);
* ``next`` - which runnable thread continues, when the running one is preempted, blocks or ends.

Timeouts expire when no thread can run (virtual time then advances), or - if ``early`` is set -
also when some other thread could still run.  When nothing can run and no timeout is pending, it is
a deadlock, and a violation unless the harness declared it admissible.
"""
import _thread
import dis
import gc
import logging
import os
import sys
import threading
import types

from . import core, timestub
from .api import ConcreteViolation, Skip

ROOT = os.environ.get('VERIF_REPO', '/repo') + '/satella/'
TOOL = 3
ACTIVE = None
_POINTS = {}            # code -> set of offsets
_seen_modules = 0
_mon_ready = False
_ORIG = dict(allocate_lock=_thread.allocate_lock, start=_thread.start_new_thread)
_YIELD_OPS = {'STORE_ATTR', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_GLOBAL',
              'STORE_DEREF', 'CALL', 'CALL_FUNCTION_EX', 'BEFORE_WITH', 'STORE_SLICE'}


class Kill(core.Steering):
    pass


class Deadlock(Exception):
    pass


# ------------------------------------------------------------------------------ monitoring
def _codes(code, acc):
    if code in acc:
        return
    acc.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, acc)


def _on_instruction(code, offset):
    pts = _POINTS.get(code)
    if pts is None or offset not in pts:
        return sys.monitoring.DISABLE
    sc = ACTIVE
    if sc is not None:
        sc.step(code)


def instrument():
    """mark the steps of all the satella code that is loaded"""
    global _seen_modules, _mon_ready
    n = sum(1 for m in list(sys.modules) if m.startswith('satella'))
    if n == _seen_modules:
        return
    _seen_modules = n
    mon = sys.monitoring
    if not _mon_ready:
        mon.use_tool_id(TOOL, 'verif-sched')
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
        _mon_ready = True
    acc = set()
    for o in gc.get_objects():
        if type(o) is types.FunctionType and o.__code__.co_filename.startswith(ROOT):
            _codes(o.__code__, acc)
    for code in acc:
        if code in _POINTS:
            continue
        pts = set()
        line = None
        for ins in dis.get_instructions(code):
            if ins.opname in ('RESUME', 'RETURN_GENERATOR', 'COPY_FREE_VARS', 'MAKE_CELL'):
                continue
            ln = ins.positions.lineno if ins.positions else None
            if (ln is not None and ln != line) or ins.opname in _YIELD_OPS:
                pts.add(ins.offset)
            line = ln if ln is not None else line
        _POINTS[code] = pts
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)


# ------------------------------------------------------------------------------ model locks
class MLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            if not (type(timeout) is int and timeout == -1):
                raise ValueError("can't specify a timeout for a non-blocking call")
        elif not (type(timeout) in (int, float) and timeout == -1):
            if timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        forever = type(timeout) in (int, float) and timeout == -1
        sc = ACTIVE
        if sc is None or sc.dead:
            raise Kill()
        if not forever and not timeout > 0:
            return False
        if not sc.block(lambda: not self._locked, None if forever else sc.now + timeout):
            return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            if ACTIVE is None or ACTIVE.dead:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked = False


class MRLock:
    def __init__(self):
        self._lock = MLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            if ACTIVE is None or ACTIVE.dead:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = self._owner, self._count
        self._owner, self._count = None, 0
        self._lock.release()
        return s

    def _acquire_restore(self, s):
        self._lock.acquire()
        self._owner, self._count = s

    def _at_fork_reinit(self):
        self.__init__()


_references = None
STDLIB = ('concurrent.futures._base', 'concurrent.futures.thread', 'queue')


def lock_references():
    '''names in satella modules and classes bound to real locks or their constructors'''
    global _references
    if _references is not None and _references[0] == _seen_modules:
        return _references[1]
    makers = {_thread.allocate_lock: MLock, threading.RLock: MRLock, _thread.RLock: MRLock}
    kinds = {_thread.LockType: MLock, _thread.RLock: MRLock}
    out = []
    for name, m in list(sys.modules.items()):
        if m is None or not (name.startswith('satella') or name in STDLIB):
            continue
        spaces = [m] + [v for v in vars(m).values() if isinstance(v, type) and
                        v.__module__.startswith('satella')]
        for space in spaces:
            for attr, v in list(vars(space).items()):
                try:
                    if v in makers:
                        out.append((space, attr, makers[v], False))
                        continue
                except Exception:       # unhashable
                    pass
                if type(v) in kinds:
                    out.append((space, attr, kinds[type(v)], True))
    # identities of objects vary between executions: they are numbered in order of appearance
    for o in gc.get_objects():
        if type(o) is types.FunctionType and (o.__module__ == 'concurrent.futures._base' or
                                              o.__code__.co_filename.startswith(ROOT)):
            if any('id' in c.co_names for c in _all_codes(o.__code__)):
                m = sys.modules.get(o.__module__)
                if m is not None and o.__globals__ is vars(m) and 'id' not in vars(m):
                    if not any(x[0] is m and x[1] == 'id' for x in out):
                        out.append((m, 'id', _Identity, True))
    _references = _seen_modules, out
    return out


def _all_codes(code):
    acc = set()
    _codes(code, acc)
    return acc


class _Numbered:
    def __init__(self):
        self.n = 0

    def of(self):
        main = threading.main_thread()

        def __hash__(obj):
            h = obj.__dict__.get('_verif_number')
            if h is None:
                if obj is main:
                    return object.__hash__(obj)
                self.n += 1
                h = obj.__dict__['_verif_number'] = self.n
            return h
        return __hash__


class _Identity:
    numbers = {}

    def __call__(self, obj):
        return self.numbers.setdefault(id(obj), 1000 + len(self.numbers))


# ------------------------------------------------------------------------------ scheduler
class Participant:
    def __init__(self, number):
        self.number = number
        self.baton = _ORIG['allocate_lock']()
        self.baton.acquire()
        self.finished = _ORIG['allocate_lock']()
        self.finished.acquire()
        self.done = False
        self.pred = None            # what it waits for
        self.deadline = None
        self.timed_out = False
        self.ident = None
        self.sentinels = []
        self.result = None          # ('ok', value) / ('exc', exception)


BLOCKED = ('blocked', None)


class Threads:
    """
    :param switches: how many times a thread may be preempted while it could run
    :param early: whether a timeout may expire while other threads could run
    :param focus: parts of the implementation (path prefixes) to preempt in
    :param locks: (module, attribute) pairs of module-level locks to replace
    """

    def __init__(self, S, switches=1, early=False, focus=('',), now=0, late=0):
        self.S = S
        self.switches = switches
        self.early = early
        self.focus = tuple(ROOT + f for f in focus)
        self.now = now
        self.late = late            # how much later than at its deadline a thread wakes up
        self.dead = False
        self.abort = None
        self.parts = []
        self.by_ident = {}
        self.steps = 0
        self.next_switch = None
        self.used = 0
        self.patches = []
        self.paused = 0
        self.live_workers = 0
        self.focus_cache = {}
        self.crashes = []           # exceptions that threads ended with

    # -- set up
    def __enter__(self):
        global ACTIVE
        assert ACTIVE is None
        instrument()
        _Identity.numbers.clear()
        self.gc = gc.isenabled()
        gc.disable()
        t0 = Participant(0)
        t0.ident = _thread.get_ident()
        self.t0 = self.current = t0
        self.parts.append(t0)
        self.by_ident[t0.ident] = t0
        self.patch(threading, 'Lock', MLock)
        self.patch(threading, '_allocate_lock', MLock)
        self.patch(threading, 'RLock', MRLock)
        self.patch(threading, '_CRLock', MRLock)
        self.patch(threading, '_start_new_thread', self.start_new_thread)
        self.patch(threading, '_set_sentinel', self.set_sentinel)
        self.patch(threading, 'excepthook', self.excepthook)
        self.patch(threading, '_time', self.clock)
        queue = sys.modules.get('queue')
        if queue is not None:
            self.patch(queue, 'time', self.clock)
            from _queue import SimpleQueue  # noqa
            self.patch(queue, 'SimpleQueue', queue._PySimpleQueue)
        base = sys.modules.get('concurrent.futures._base')
        if base is not None:
            self.patch(base, 'time', _Time(self))
        for obj, attr, model, call in lock_references():
            self.patch(obj, attr, model() if call else model)
        numbered = _Numbered()          # sets of threads and futures are iterated in the same order each time
        self.patch(threading.Thread, '__hash__', numbered.of())
        if base is not None:
            self.patch(base.Future, '__hash__', numbered.of())
        self.ctl = timestub.controlled(self.clock, self.sleep)
        self.ctl.__enter__()
        ACTIVE = self
        self.next_switch = self.S.int('switch0', 0) if self.switches else None
        return self

    def patch(self, obj, attr, value):
        self.patches.append((obj, attr, getattr(obj, attr, _ORIG)))
        setattr(obj, attr, value)

    def __exit__(self, et, ev, tb):
        global ACTIVE
        self.dead = True
        self.log_level = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            for p in self.parts[1:]:
                if not p.done:
                    if p is not self.current:
                        p.baton.release()
                    p.finished.acquire(True, 5)
        finally:
            logging.disable(self.log_level)
            ACTIVE = None
            self.ctl.__exit__()
            for obj, attr, value in reversed(self.patches):
                if value is _ORIG:
                    delattr(obj, attr)
                else:
                    setattr(obj, attr, value)
            for p in self.parts[1:]:
                for l in p.sentinels:
                    threading._shutdown_locks.discard(l)
                threading._active.pop(p.ident, None)
            threading._limbo.clear()
            threading._dangling.clear()
            threading._dangling.add(threading.main_thread())
            if self.gc:
                gc.enable()
        return False

    # -- environment
    def clock(self):
        return self.now

    def sleep(self, secs):
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        if self.dead:
            raise Kill()
        self.block(lambda: False, self.now + secs)

    def excepthook(self, args):
        # the exception itself was seen by the wrapper
        self.died(args.exc_value)

    def died(self, e):
        if isinstance(e, Kill):
            return
        if isinstance(e, (core.Steering, ConcreteViolation, Skip)):
            if self.abort is None:
                self.abort = e
        else:
            self.crashes.append(e)

    def set_sentinel(self):
        l = MLock()
        p = self.by_ident.get(_thread.get_ident())
        if p is not None:
            p.sentinels.append(l)
        return l

    def start_new_thread(self, function, args, kwargs={}):
        p = Participant(len(self.parts))
        self.parts.append(p)
        self.live_workers += 1

        def body():
            p.baton.acquire()
            p.ident = _thread.get_ident()
            self.by_ident[p.ident] = p
            try:
                if not self.dead:
                    p.result = ('ok', function(*args, **kwargs))
            except BaseException as e:      # noqa
                p.result = ('exc', e)
                self.died(e)
            finally:
                p.done = True
                self.live_workers -= 1
                for l in p.sentinels:
                    l._locked = False
                threading._active.pop(p.ident, None)
                self.by_ident.pop(p.ident, None)
                try:
                    if not self.dead:
                        if self.abort is not None:
                            self.hand_over(self.t0)
                        else:
                            self.hand_over(self.pick_next(p))
                except BaseException as e:      # noqa
                    if self.abort is None and not isinstance(e, Kill):
                        self.abort = e
                    self.hand_over(self.t0)
                finally:
                    p.finished.release()

        _ORIG['start'](body, ())
        return 100000 + p.number

    # -- switching
    def me(self):
        return self.by_ident[_thread.get_ident()]

    def hand_over(self, nxt):
        self.current = nxt
        nxt.baton.release()

    def switch(self, me, nxt):
        if nxt is me:
            return
        self.hand_over(nxt)
        me.baton.acquire()
        if self.dead:
            raise Kill()
        if self.abort is not None:
            if me is self.t0:
                raise self.abort
            raise Kill()

    def ready(self, p):
        if p.done:
            return False
        return p.pred is None or self.expired(p) or p.pred()

    def expired(self, p):
        '''has its time already come (without asking the solver, so it may also be overlooked)'''
        d = p.deadline
        if d is None:
            return False
        if isinstance(d, (int, float)) and isinstance(self.now, (int, float)):
            return d <= self.now
        e = getattr(d, '_e', None)
        return e is not None and e is getattr(self.now, '_e', None)

    def wake(self, p):
        if p.deadline is not None and not p.pred():
            p.timed_out = True
        p.pred = p.deadline = None

    def pick_next(self, me):
        """who runs when me cannot go on"""
        runnable = [p for p in self.parts if self.ready(p)]
        n = len(runnable)
        timed = [p for p in self.parts if not p.done and p.deadline is not None and p not in runnable]
        options = n + (1 if self.early and timed and n else 0)
        if n:
            i = self.S.choice('next', options) if options > 1 else 0
            if i < n:
                p = runnable[i]
                self.wake(p)
                return p
        if timed:
            first = timed[0]
            for p in timed[1:]:
                if p.deadline < first.deadline:
                    first = p
            if first.deadline > self.now:
                self.now = first.deadline + self.late
            first.timed_out = True
            also = [p for p in timed if p is not first and self.expired(p)]
            if also:
                i = self.S.choice('next', len(also) + 1)
                if i:
                    first.timed_out = False
                    first = also[i - 1]
                    first.timed_out = True
            first.pred = first.deadline = None
            return first
        # nothing can run any more
        if self.t0.pred is not None and getattr(self.t0, 'quiescent', None):
            self.t0.pred = None
            self.t0.timed_out = True
            return self.t0
        if me.done and self.t0.pred is None and self.t0.done:
            return self.t0
        self.S.fail('deadlock: threads %s are blocked forever' %
                    ([p.number for p in self.parts if not p.done],))

    def block(self, pred, deadline=None):
        """:return: False if it timed out"""
        me = self.me()
        if self.dead:
            raise Kill()
        me.pred, me.deadline, me.timed_out = pred, deadline, False
        nxt = self.pick_next(me)
        self.switch(me, nxt)
        return not me.timed_out

    def step(self, code):
        """called before every step of the implementation's code"""
        if self.dead:
            if _thread.get_ident() != self.t0.ident:
                raise Kill()
            return
        if not self.live_workers or self.next_switch is None or self.paused or \
                (core.CURRENT is not None and core.CURRENT.aborted is not None):
            return
        f = self.focus_cache.get(code)
        if f is None:
            f = self.focus_cache[code] = code.co_filename.startswith(self.focus)
        if not f:
            return
        me = self.by_ident.get(_thread.get_ident())
        if me is None:
            return
        others = [p for p in self.parts if p is not me and self.ready(p)]
        if not others:
            return
        n = self.steps
        self.steps += 1
        if self.next_switch > n:
            return
        self.used += 1
        self.next_switch = self.S.int('switch%d' % (self.used,), n + 1) \
            if self.used < self.switches else None
        i = self.S.choice('to', len(others)) if len(others) > 1 else 0
        nxt = others[i]
        self.wake(nxt)
        self.switch(me, nxt)

    # -- interface of harnesses
    def run(self, *fns, may_block=False):
        """runs the functions, each in its own thread, to the end.
        :return: list of ('ok', value), ('exc', exception) or ('blocked', None)"""
        before = len(self.parts)
        for f in fns:
            self.start_new_thread(f, ())
        mine = self.parts[before:before + len(fns)]
        self.join(mine, may_block)
        out = []
        for p in mine:
            out.append(p.result if p.done else BLOCKED)
            if p.done and p.result[0] == 'exc':
                if p.result[1] in self.crashes:
                    self.crashes.remove(p.result[1])
        return out

    def join(self, parts, may_block=False):
        self.t0.quiescent = may_block
        try:
            self.block(lambda: all(p.done for p in parts))
        finally:
            self.t0.quiescent = False
        if self.abort is not None:
            raise self.abort
        if core.CURRENT is not None and core.CURRENT.aborted is not None:
            raise core.CURRENT.aborted      # swallowed by the code under test

    def settle(self):
        """lets all the other threads run until each has ended or is blocked for good"""
        self.join([Participant(-1)], True)

    def alive(self):
        return [p for p in self.parts[1:] if not p.done]

    def value(self, result):
        """the value a thread returned, re-raises what it raised"""
        if result[0] == 'exc':
            raise result[1]
        return result[1]


class _Time:
    def __init__(self, sc):
        self.monotonic = self.time = sc.clock
