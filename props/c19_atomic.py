import operator as op

from engine.harness import Registry
from engine.sched import Threads
from satella.coding.concurrent import AtomicNumber
from satella.exceptions import WouldWaitMore

R = Registry('C19', assumptions=[
    'threads are preempted between lines, stores and calls of satella code (not inside a single '
    'attribute load); the standard library Condition is executed on model locks'])

FOCUS = ['coding/concurrent/']
ADDITIVE = {'+=': (op.iadd, op.add), '-=': (op.isub, op.sub), '*=': (op.imul, op.mul),
            '//=': (op.ifloordiv, op.floordiv), '/=': (op.itruediv, op.truediv)}
BITWISE = {'&=': (op.iand, op.and_), '|=': (op.ior, op.or_), '^=': (op.ixor, op.xor),
           '<<=': (op.ilshift, op.lshift), '>>=': (op.irshift, op.rshift), '**=': (op.ipow, op.pow)}


def operand(S, name, kind):
    if name in ('*=', '//=', '/='):
        return S.pick('operand', [-2, 2, 3])
    if name in BITWISE:
        return S.pick('operand', [1, 2, 3])
    return S.int('operand', -5, 5)


def start(S, names):
    if '/=' in names:
        return S.pick('start', [0, 12, -36])
    if any(n in BITWISE for n in names):
        return S.pick('start', [0, 1, 5])
    return S.int('start', -5, 5)


@R.harness(quick=[dict(ops=o, switches=1) for o in (['+=', '-='], ['*=', '//='], ['&=', '|='],
                                                    ['^=', '+='], ['<<=', '>>='], ['/=', '*='], ['**=', '-='])],
           thorough=[dict(ops=o, switches=2) for o in (['+=', '-='], ['*=', '//='], ['&=', '|='],
                                                       ['^=', '+='], ['<<=', '>>='], ['/=', '*='], ['**=', '-='],
                                                       ['+=', '+=', '-='])],
           labels=['done'],
           bounds='two threads each updating the number in place with an arbitrary operand, every '
                  'schedule with the given number of preemptions')
def updates_are_atomic(S, ops, switches):
    table = dict(ADDITIVE)
    table.update(BITWISE)
    v0 = start(S, ops)
    args = [operand(S, o, None) for o in ops]
    with Threads(S, switches, focus=FOCUS) as sc:
        a = AtomicNumber(v0)
        rs = sc.run(*[lambda o=o, x=x: table[o][0](a, x) for o, x in zip(ops, args)])
        for r in rs:
            S.check(sc.value(r) is a, 'an update in place returns the number itself')

    import itertools
    outcomes = []
    for order in itertools.permutations(range(len(ops))):
        v = v0
        for i in order:
            v = table[ops[i]][1](v, args[i])
        outcomes.append(v)
    S.check(S.Or(*[a.value == v for v in outcomes]), 'the updates happened one after another')
    S.reach('done')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['woken', 'at_once'],
           bounds='a thread waits until the number equals a value, another one updates it (any '
                  'update in place) to that value')
def waiting_until_equal(S, switches):
    table = dict(ADDITIVE)
    table.update(BITWISE)
    name = S.pick('update', sorted(table))
    v0 = S.pick('start', [1, 3, 5])
    x = 2
    target = table[name][1](v0, x)
    if S.flag('preset'):
        v0, name, x = target, '+=', 0
    with Threads(S, switches, focus=FOCUS) as sc:
        a = AtomicNumber(v0)
        waiting = []

        def waiter():
            waiting.append(1)
            a.wait_until_equal(target)
            return a.value

        rs = sc.run(waiter, lambda: table[name][0](a, x), may_block=True)
        S.check(rs[0] == ('ok', target), lambda: 'update %s does not wake the waiting thread: %r' % (name, rs))
        S.check(rs[1][0] == 'ok', lambda: 'the update fails: %r' % (rs,))
        S.reach('at_once' if v0 == target else 'woken')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['any change', 'until equal'],
           bounds='n threads waiting for a change or until the number equals a value, any update in place')
def everyone_is_woken(S, n):
    table = dict(ADDITIVE)
    table.update(BITWISE)
    name = S.pick('update', sorted(table))
    v0 = S.pick('start', [1, 3, 5])
    x = S.pick('x', [2, -2]) if name in ADDITIVE else 2
    target = table[name][1](v0, x)
    S.assume(target != v0)
    with Threads(S, 0, focus=FOCUS) as sc:
        a = AtomicNumber(v0)

        def waiter(until):
            def f():
                if until:
                    a.wait_until_equal(target)
                else:
                    a.wait()
                return a.value
            return f

        def updater():
            sc.sleep(1)
            table[name][0](a, x)

        waiters = []
        for i in range(n):
            until = S.flag('until equal')
            S.reach('until equal' if until else 'any change')
            waiters.append(waiter(until))
        rs = sc.run(updater, *waiters, may_block=True)
        S.check(all(r == ('ok', target) for r in rs[1:]), lambda: 'update %s does not wake everyone: %r' % (name, rs))


@R.harness(quick=[dict(k=2, switches=1)], thorough=[dict(k=2, switches=2), dict(k=3, switches=1)],
           labels=['met', 'not_met'],
           bounds='wait_until_equal with a timeout against k additions of arbitrary values by another '
                  'thread, done at arbitrary instants')
def waiting_with_a_timeout(S, k, switches):
    v0 = S.int('start', -3, 3)
    target = S.int('target', -3, 3)
    timeout = S.int('timeout', 0, 10)
    with Threads(S, switches, focus=FOCUS, early=False) as sc:
        a = AtomicNumber(v0)
        history = [v0]

        def updater():
            for _ in range(k):
                sc.sleep(S.int('pause', 1, 10))
                x = S.int('x', -3, 3)
                history.append(history[-1] + x)
                op.iadd(a, x)

        def waiter():
            a.wait_until_equal(target, timeout)
            return sc.now

        rs = sc.run(waiter, updater)
        S.check(rs[1][0] == 'ok', lambda: repr(rs[1]))
        if rs[0][0] == 'ok':
            S.check(S.Or(*[h == target for h in history]), 'returned, though the value was never equal')
            S.check(rs[0][1] <= timeout, 'returned after the timeout')
            S.reach('met')
        else:
            S.check(isinstance(rs[0][1], WouldWaitMore), lambda: 'got %r' % (rs[0][1],))
            S.check(v0 != target, 'it was equal right from the start')
            S.reach('not_met')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['changed', 'timeout'],
           bounds='wait() for any change, with and without a timeout')
def waiting_for_a_change(S, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        a = AtomicNumber(0)
        mode = S.pick('mode', ['forever', 'timeout', 'timeout_quiet', 'none'])
        delta = S.int('delta', 1, 5)
        pause, timeout = S.int('pause', 1, 10), S.int('timeout', 0, 10)
        S.assume(pause != timeout)

        def updater():
            sc.sleep(pause)
            if mode != 'none':
                op.iadd(a, delta)

        def waiter():
            if mode == 'forever':
                a.wait()
            else:
                a.wait(timeout, throw_exception=(mode != 'timeout_quiet'))
            return sc.now

        rs = sc.run(waiter, updater)
        if mode == 'forever' or (mode != 'none' and bool(pause < timeout)):
            S.check_eq(rs[0], ('ok', pause), 'woken by the change')
            S.reach('changed')
        elif mode == 'timeout_quiet':
            S.check_eq(rs[0], ('ok', timeout), 'just returns after the timeout')
        else:
            S.check(rs[0][0] == 'exc' and isinstance(rs[0][1], WouldWaitMore), lambda: repr(rs))
            S.reach('timeout')


COMPARE = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
ARITH = {'+': op.add, '-': op.sub, '*': op.mul}
INTS = {'//': op.floordiv, '/': op.truediv, '&': op.and_, '|': op.or_, '^': op.xor, '<<': op.lshift,
        '>>': op.rshift, '**': op.pow}


@R.harness(quick=[dict()], labels=['left', 'right', 'both', 'self'],
           bounds='every operator between a number and an arbitrary integer, two numbers, and a '
                  'number and itself; the operands of //, /, &, |, ^, <<, >>, ** range over 1..3')
def operators(S):
    table = {**COMPARE, **ARITH, **INTS}
    name = S.pick('operator', list(table))
    f = table[name]
    if name in INTS:
        x, y = S.pick('x', [1, 2, 3]), S.pick('y', [1, 2, 3])
    elif name == '*':
        x, y = S.int('x', -5, 5), S.pick('y', [-1, 0, 3])
    else:
        x, y = S.int('x'), S.int('y')
    form = S.pick('form', ['left', 'right', 'both', 'self'])
    with Threads(S, 0) as sc:       # a deadlock would be reported
        if form == 'left':
            got = f(AtomicNumber(x), y)
        elif form == 'right':
            got = f(x, AtomicNumber(y))
        elif form == 'both':
            got = f(AtomicNumber(x), AtomicNumber(y))
        else:
            y = x
            if name == '*' :
                x = y = S.pick('x', [-2, 0, 3])
            a = AtomicNumber(x)
            got = f(a, a)
    S.check(not isinstance(got, AtomicNumber), 'an expression is a plain number')
    want = f(x, y)
    S.check(bool(got) == bool(want) if name in COMPARE else S.eq(got, want), lambda: '%s: %r, not %r' % (name, got, want))
    S.reach(form)


@R.harness(quick=[dict()], labels=['done'], bounds='conversions of an arbitrary integer')
def conversions(S):
    x = S.int('x', -9, 9)
    a = AtomicNumber(x)
    S.check(-a == -x and +a == x and abs(a) == abs(x), '-, +, abs')
    S.check(not any(isinstance(v, AtomicNumber) for v in (-a, +a, abs(a))), 'plain numbers')
    S.check(bool(a) == bool(x != 0), 'truth')
    c = S.conc(x)
    b = AtomicNumber(c)
    S.check(int(b) == c and type(int(b)) is int and float(b) == c and str(b) == str(c), 'int, float, str')
    S.check(repr(b) == 'AtomicNumber(%s)' % (c,), 'repr')
    S.expect_raises(TypeError, hash, b, msg='not hashable, as it may change')
    S.reach('done')


@R.harness(quick=[dict(switches=2)], thorough=[dict(switches=3)], labels=['done'],
           bounds='two threads evaluating an operator over the same two numbers in opposite order')
def operators_do_not_deadlock(S, switches):
    f = {**COMPARE, **ARITH}[S.pick('operator', ['==', '<', '+'])]
    x, y = S.int('x', -3, 3), S.int('y', -3, 3)
    with Threads(S, switches, focus=FOCUS) as sc:
        a, b = AtomicNumber(x), AtomicNumber(y)
        rs = sc.run(lambda: f(a, b), lambda: f(b, a))
        S.check_eq(sc.value(rs[0]), f(x, y), 'first')
        S.check_eq(sc.value(rs[1]), f(y, x), 'second')
        S.reach('done')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['at the end', 'already passed', 'forever'],
           bounds='a thread waits (with or without a timeout) until the number equals a value, while another one changes it '
                  'twice, at any moments, by arbitrary amounts')
def other_changes_meanwhile(S, switches):
    timeout = S.pick('timeout', [None, 1000])
    with Threads(S, switches, focus=FOCUS) as sc:
        a = AtomicNumber(0)
        x, y = S.int('x', -3, 3), S.int('y', -3, 3)
        target = S.int('target', 1, 3)

        def updater():
            op.iadd(a, x)
            sc.sleep(S.choice('pause', 2))
            op.isub(a, y)

        def waiter():
            a.wait_until_equal(target, timeout)
            return sc.now

        rs = sc.run(waiter, updater, may_block=True)
        S.check(rs[1] == ('ok', None), 'the updates')
        S.check_eq(a.value, x - y, 'the value')
        if x - y == target:
            S.check(rs[0][0] == 'ok', lambda: 'not woken up: %r' % (rs,))
            S.check(rs[0][1] <= 1, 'woken up late')
            S.reach('at the end')
        elif x == target:
            S.reach('already passed')       # it may or may not have seen it
        else:
            S.check(rs[0][0] == 'blocked' if timeout is None else isinstance(rs[0][1], WouldWaitMore),
                    lambda: 'returned, though it was never equal: %r' % (rs,))
            S.reach('forever')


@R.harness(quick=[dict(switches=1)], thorough=[dict(switches=3)], labels=['done'],
           bounds='two numbers updated in place by each other by two threads, any operator; a number updated by itself')
def updates_by_another_number(S, switches):
    table = {**ADDITIVE, **BITWISE}
    name = S.pick('operator', sorted(table))
    inplace, plain = table[name]
    x, y = -7 if name == '//=' else S.pick('x', [1, 3]), S.pick('y', [2, 3])
    with Threads(S, switches, focus=FOCUS) as sc:
        a, b = AtomicNumber(x), AtomicNumber(y)
        rs = sc.run(lambda: inplace(a, b), lambda: inplace(b, a))
        S.check(sc.value(rs[0]) is a and sc.value(rs[1]) is b, 'updated in place')
        a1, b1 = plain(x, y), plain(y, x)
        S.check((a.value, b.value) in ((a1, b1), (a1, plain(y, a1)), (plain(x, b1), b1)),
                lambda: 'values %r' % ((a.value, b.value),))
        c = AtomicNumber(3)
        S.check(inplace(c, c) is c, 'by itself')
        S.check(c.value == plain(3, 3), 'the value')
        S.reach('done')
