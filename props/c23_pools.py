from engine.harness import Registry
from engine.sched import Threads
from satella.coding.resources import CPManager

R = Registry('C23', assumptions=[
    'threads are preempted between lines, stores and calls of satella code; connections are stubs '
    'recording how they are used', 'each thread releases the connections it acquired, once'])

FOCUS = ['coding/resources/']


class Refused(Exception):
    pass


class Connection:
    def __init__(self, number):
        self.number = number
        self.user = None
        self.taken = 0
        self.failed = False
        self.closed = 0


class Pool(CPManager):
    def __init__(self, S, max_number, max_cycle_no, sc=None):
        self.S, self.sc = S, sc
        self.all = []
        self.refuse = False
        super().__init__(max_number, max_cycle_no)

    def create_connection(self):
        if self.refuse:
            raise Refused()
        if self.sc is not None:
            self.sc.sleep(1)
        n = len([c for c in self.all if not c.closed])
        self.S.check(n < self.max_number, 'too many connections')
        c = Connection(len(self.all))
        self.all.append(c)
        return c

    def teardown_connection(self, c):
        self.S.check(c.user is None, 'a connection in use is torn down')
        self.S.check(not c.closed, 'torn down twice')
        c.closed += 1
        if self.sc is not None:
            self.sc.sleep(1)

    def take(self, user=1):
        c = self.acquire_connection()
        self.S.check(c in self.all and c.user is None, 'the connection is not free')
        self.S.check(not c.closed and not c.failed, 'the connection was closed, or failed')
        c.user = user
        c.taken += 1
        self.S.check(c.taken <= self.max_cycle_no, 'used too many times')
        return c

    def give(self, c):
        c.user = None
        self.release_connection(c)


@R.harness(quick=[dict(steps=4, most=2)], thorough=[dict(steps=6, most=2), dict(steps=5, most=3)],
           labels=['reused', 'recycled', 'failed', 'invalidated', 'closed', 'refused', 'resized'],
           bounds='up to "steps" operations of a single thread on a pool of up to "most" connections, '
                  'each cycled 1 to 3 times; the limit may be changed by one')
def one_thread(S, steps, most):
    with Threads(S, 0):
        p = Pool(S, 1 + S.choice('max', most), 1 + S.choice('cycles', 3))
        mine = []
        size = p.max_number
        closed = False
        for _ in range(steps):
            op = S.pick('op', ['acquire', 'release', 'fail', 'invalidate', 'refuse', 'close', 'resize'])
            idle = [c for c in p.all if not c.closed and c not in mine]
            if op == 'acquire':
                if closed:
                    S.expect_raises(RuntimeError, p.acquire_connection, msg='closed')
                    continue
                if not idle and len(mine) >= p.max_number:
                    break           # it would block
                n = len(p.all)
                c = p.take()
                if idle:
                    S.check(c in idle, 'an idle connection is reused')
                    S.reach('reused')
                else:
                    S.check(len(p.all) == n + 1 and c is p.all[-1], 'one connection is created')
                mine.append(c)
            elif op == 'refuse':
                if idle or closed or len(mine) >= p.max_number:
                    break
                p.refuse = True
                S.expect_raises(Refused, p.acquire_connection, msg='the exception is propagated')
                p.refuse = False
                S.reach('refused')
            elif op in ('release', 'fail'):
                if not mine:
                    break
                c = mine.pop(S.choice('which', len(mine)))
                if op == 'fail':
                    p.fail_connection(c)
                    c.failed = True
                    S.check(not c.closed, 'not released yet')
                p.give(c)
                worn = c.taken == p.max_cycle_no
                if len(idle) < size:        # otherwise there might be no room for it
                    S.check(bool(c.closed) == (worn or c.failed or closed), 'torn down iff it should not be reused')
                if c.failed:
                    S.reach('failed')
                elif worn:
                    S.reach('recycled')
            elif op == 'resize':
                if p.max_number != size:
                    break
                p.max_number = size + 1 if S.flag('grow') else size - 1
                if p.max_number > size:
                    S.reach('resized')
            else:
                if op == 'close':
                    p.close()
                    closed = True
                    S.reach('closed')
                else:
                    p.invalidate()
                    S.reach('invalidated')
                S.check(all(c.closed for c in idle), 'idle connections are torn down')
                S.check(not any(c.closed for c in mine), 'others are not')
        for c in mine:
            p.give(c)
        p.close()
        S.check(all(c.closed == 1 for c in p.all), 'all the connections end up torn down')


@R.harness(quick=[dict(most=1, uses=1, switches=1), dict(most=2, uses=1, switches=1)],
           thorough=[dict(most=1, uses=1, switches=2), dict(most=2, uses=2, switches=1), dict(most=1, uses=2, switches=1)],
           labels=['waited', 'failed', 'done'],
           bounds='two or three threads using a pool of "most" connections, "uses" times each, for arbitrary times')
def sharing(S, most, uses, switches):
    hold = [S.int('hold', 0, 5) for _ in range(2)]
    fails = S.flag('fails')
    cycles = 1 + S.choice('cycles', 2)
    with Threads(S, switches, focus=FOCUS) as sc:
        p = Pool(S, most, cycles, sc)

        def work(i):
            for _ in range(uses):
                c = p.take(i)
                sc.sleep(hold[i])
                S.check(c.user == i and not c.closed, 'the connection was taken away')
                if i == 0 and fails:
                    p.fail_connection(c)
                    c.failed = True
                    S.reach('failed')
                p.give(c)

        spare = None
        if most == 2:
            spare = p.take('main')      # the others compete for a single one
        start = sc.now
        rs = sc.run(lambda: work(0), lambda: work(1))
        for r in rs:
            sc.value(r)
        # no thread waits in vain (connections take 1 to make and 1 to tear down; killed ones free a place,
        # which is noticed within 1)
        S.check(sc.now - start <= uses * (hold[0] + hold[1]) + 4 * 2 * uses, 'waited for too long')
        if len(p.all) < 2 * uses + (most == 2):
            S.reach('waited')
        if spare is not None:
            p.give(spare)
        p.close()
        S.check(all(c.closed == 1 for c in p.all), 'all the connections end up torn down')
        S.reach('done')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['close', 'invalidate', 'refused', 'served'],
           bounds='a pool of up to 2 connections (one idle) being closed or invalidated while another thread acquires, '
                  'uses and releases one')
def closing_meanwhile(S, switches):
    op = S.pick('op', ['close', 'invalidate'])
    takes_time = S.flag('takes_time')
    most = 1 + S.choice('max', 2)
    with Threads(S, switches, focus=FOCUS) as sc:
        p = Pool(S, most, 3, sc)
        p.give(p.take())

        def work():
            try:
                c = p.take()
            except RuntimeError:
                S.check(op == 'close', 'the pool is not closed')
                S.reach('refused')
                return
            if takes_time:
                sc.sleep(1)
            p.give(c)
            S.reach('served')

        rs = sc.run(work, getattr(p, op))
        for r in rs:
            sc.value(r)
        idle = [c for c in p.all if not c.closed]
        if op == 'close':
            S.check(not idle, 'a connection is left open after the pool was closed')
            S.expect_raises(RuntimeError, p.acquire_connection, msg='closed')
        else:
            c = p.take()
            S.check(c in idle if idle else c is p.all[-1], 'the pool is usable afterwards')
            p.give(c)
        S.reach(op)
        p.close()
        S.check(all(c.closed == 1 for c in p.all), 'all the connections end up torn down')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=2)], labels=['closed'],
           bounds='a pool of one connection, in use, being closed while another thread waits for a connection')
def closing_while_waiting(S, switches):
    when = S.int('when', 0, 5)
    with Threads(S, switches, focus=FOCUS) as sc:
        p = Pool(S, 1, 3, sc)
        c = p.take()
        start = sc.now

        def wait():
            S.expect_raises(RuntimeError, p.acquire_connection, msg='closed')
            return sc.now

        def close():
            sc.sleep(when)
            p.close()

        rs = sc.run(wait, close)
        for r in rs:
            sc.value(r)
        S.check(sc.value(rs[0]) <= start + when + 1, 'noticed late')
        p.give(c)
        S.check(c.closed == 1, 'torn down')
        S.reach('closed')


@R.harness(quick=[dict(switches=0)], thorough=[dict(switches=1)], labels=['worn', 'failed', 'invalidated', 'closed'],
           bounds='a connection that cannot be torn down, for whatever reason it should be; another thread may be '
                  'waiting for the only place in the pool')
def teardown_failures(S, switches):
    why = S.pick('why', ['worn', 'failed', 'invalidated', 'closed'])
    waiting = S.flag('waiting')
    with Threads(S, switches, focus=FOCUS) as sc:
        class Bad(Pool):
            broken = None

            def teardown_connection(self, c):
                super().teardown_connection(c)
                if c is self.broken:
                    raise KeyError('x')

        p = Bad(S, 1, 1 if why == 'worn' else 2, sc)
        c = p.take()
        p.broken = c
        if why == 'failed':
            c.failed = True
            p.fail_connection(c)
        elif why in ('invalidated', 'closed'):
            p.give(c)

        def get_rid():
            sc.sleep(1)
            fun = {'worn': lambda: p.give(c), 'failed': lambda: p.give(c), 'invalidated': p.invalidate,
                   'closed': p.close}[why]
            r, _ = S.raises(KeyError, fun)
            S.check(r and c.closed == 1, 'the exception is passed on')

        if waiting and why in ('worn', 'failed'):
            def use():
                d = p.take(2)
                p.give(d)
            rs = sc.run(use, get_rid)
            S.check(rs == [('ok', None)] * 2, lambda: repr(rs))
        else:
            get_rid()
        if why == 'closed':
            S.expect_raises(RuntimeError, p.acquire_connection, msg='closed')
        else:
            d = p.take()
            S.check(d is not c, 'it is not used again')
            p.give(d)
        p.close()
        S.check(all(d.closed == 1 for d in p.all), 'all the connections end up torn down')
        S.reach(why)
