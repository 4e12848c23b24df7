import copy
from engine.harness import Registry
from satella.coding import ListDeleter, DictDeleter

R = Registry('C30', assumptions=['single thread; one iteration of a list deleter per use; '
                                 'elements are not modified by others meanwhile'])


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


ERRORS = [Boom, Quit, StopIteration, GeneratorExit, IndexError, KeyError]


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)], labels=['forward', 'backward', 'exception', 'copied', 'manual',
                                                            'reversed twice', 'none', 'all'],
           bounds='lists of up to n arbitrary elements, arbitrary condition, either direction, interrupted or not')
def lists(S, n):
    m = S.choice('n', n + 1)
    a = [S.key('x%d' % i) for i in range(m)]
    orig = list(a)
    bad = S.key('bad')
    back = S.flag('back')
    stop = S.choice('stop', m + 1)
    way = S.pick('way', ['with', 'copy', 'manual', 'reversed twice'])
    seen, kept = [], []
    order = list(reversed(orig)) if back else list(orig)
    ld = ListDeleter(a)
    if back:
        ld = reversed(ld)
        S.reach('backward')
    else:
        S.reach('forward')
    if way == 'reversed twice':
        ld = reversed(reversed(ld))
        S.reach(way)

    def step(ld, v):
        S.check_eq(ld(), v, 'current element')
        S.check_eq(ld.value, v, 'current element')
        if v == bad:
            ld.delete()

    interrupted, raising = False, None
    if way == 'copy':
        # a copy continues from where the original was and marks on its own
        it = iter(ld)
        for _ in range(stop):
            v = next(it)
            seen.append(v)
            step(it, v)
        it2 = copy.copy(it)
        for v in _rest(it2):
            seen.append(v)
            step(it2, v)
        it2.remove_items()
        S.reach('copied')
    elif way == 'manual':
        for v in _rest(ld):
            seen.append(v)
            step(ld, v)
        S.check_eq(a, orig, 'nothing is deleted before the end')
        ld.remove_items()
        ld.remove_items()
        S.reach('manual')
    else:
        try:
            with ld as it:
                for i, v in enumerate(it):
                    if i == stop:
                        raising = S.pick('type', ERRORS)()
                        raise raising
                    seen.append(v)
                    step(it, v)
                    S.check_eq(a, orig, 'nothing is deleted before the end')
        except tuple(ERRORS) as e:
            S.check(e is raising, 'the exception of the body')
            interrupted = True
            S.reach('exception')
    S.check(interrupted == (raising is not None), 'exceptions pass')
    S.check_eq(seen, order[:stop] if interrupted else order, 'every element is visited once, in order')
    marked = list(range(m))
    marked = (marked[::-1] if back else marked)[:len(seen)]
    exp = [x for i, x in enumerate(orig) if not (i in marked and bool(x == bad))]
    S.check_eq(a, exp, 'exactly the chosen elements are deleted')
    if m and not a:
        S.reach('all')
    elif len(a) == m:
        S.reach('none')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=5)], labels=['original', 'copy'],
           bounds='a deleter of up to n elements copied anywhere; both then continue, marking any elements, and either '
                  'removes its ones')
def copies(S, n):
    m = S.choice('n', n + 1)
    a = list(range(m))
    ld = reversed(ListDeleter(a)) if S.flag('back') else ListDeleter(a)
    marked, other = set(), set()
    order = []
    for _ in range(S.choice('before', m + 1)):
        order.append(ld.next())
        if S.flag('mark'):
            ld.delete()
            marked.add(order[-1])
    ld2 = copy.copy(ld)
    other |= marked
    for it, marks in ((ld2, other), (ld, marked)):
        rest = list(order)
        for v in _rest(it):
            rest.append(v)
            if S.flag('mark'):
                it.delete()
                marks.add(v)
        S.check(sorted(rest) == a, 'every element was visited')
    which = S.flag('which')
    (ld2 if which else ld).remove_items()
    S.check_eq(a, [x for x in range(m) if x not in (other if which else marked)], 'the marked ones are removed')
    S.reach('copy' if which else 'original')


def _rest(ld):
    while True:
        try:
            v = ld.next()
        except StopIteration:
            return
        yield v


@R.harness(quick=[dict(n=3, k=5)], thorough=[dict(n=3, k=7)],
           labels=['next', 'prev', 'end', 'start', 'deleted', 'backward', 'both ends'],
           bounds='lists of up to n elements, k movements in any direction, any of them marking the element')
def moving(S, n, k):
    m = S.choice('n', n + 1)
    a = [S.int('x%d' % i) for i in range(m)]
    orig = list(a)
    back = S.flag('back')
    ld = ListDeleter(a)
    if back:
        ld = reversed(ld)
        S.reach('backward')
    pos = -1        # position in the order of iteration; -1 before the first, m after the last
    marked = set()
    ends = set()
    for _ in range(k):
        op = S.pick('op', ['next', 'prev'])
        fn = ld.next if op == 'next' else ld.prev
        r, v = S.raises(StopIteration, fn)
        pos = min(m, pos + 1) if op == 'next' else max(-1, pos - 1)
        S.check(r == (pos in (-1, m)), 'raises StopIteration exactly at the ends')
        if not r:
            at = m - 1 - pos if back else pos
            S.check_eq(v, orig[at], 'element')
            S.check_eq(ld(), orig[at], 'current element')
            S.reach(op)
            if S.flag('delete'):
                ld.delete()
                marked.add(at)
                S.reach('deleted')
        else:
            ends.add(op)
            S.reach('end' if op == 'next' else 'start')
    if len(ends) == 2:
        S.reach('both ends')
    S.check_eq(a, orig, 'not deleted yet')
    ld.remove_items()
    S.check_eq(a, [x for i, x in enumerate(orig) if i not in marked], 'exactly the marked elements are deleted')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)], labels=['keys', 'values', 'items', 'default', 'twice', 'exception',
                                                            'all', 'none'],
           bounds='dictionaries of up to n arbitrary keys and values, arbitrary condition, one or two iterations')
def dicts(S, n):
    m = S.choice('n', n + 1)
    d = {}
    for i in range(m):
        d[S.key('k%d' % i)] = S.key('v%d' % i)
    S.assume(len(d) == m)
    orig = list(d.items())
    bad = S.key('bad')
    removed = set()
    raising = caught = None
    stop = S.choice('stop', m + 1)
    try:
        with DictDeleter(d) as dd:
            for rnd in range(2 if S.flag('twice') else 1):
                mode = S.pick('mode', ['default', 'keys', 'values', 'items'])
                if mode == 'default' and rnd:
                    mode = 'keys'
                S.reach(mode)
                seen = []
                for i, e in enumerate(dd if mode == 'default' else getattr(dd, mode)()):
                    if i == stop and not rnd:
                        raising = S.pick('type', ERRORS)()
                        raise raising
                    S.check_eq(e, {'default': orig[i][0], 'keys': orig[i][0], 'values': orig[i][1],
                                   'items': orig[i]}[mode], 'entry')
                    seen.append(i)
                    if (orig[i][0] == bad) if rnd else (orig[i][1] == bad):
                        dd.delete()
                        removed.add(i)
                S.check(seen == list(range(m)), 'all entries are visited once, in order')
                if rnd:
                    S.reach('twice')
            S.check_eq(list(d.items()), orig, 'nothing is deleted before the end')
    except tuple(ERRORS) as e:
        S.check(e is raising, 'the exception of the body')
        S.reach('exception')
        caught = raising
    S.check(caught is raising, 'exceptions pass')
    S.check_eq(list(d.items()), [x for i, x in enumerate(orig) if i not in removed], 'exactly the marked are deleted')
    if m and not d:
        S.reach('all')
    elif len(d) == m:
        S.reach('none')


@R.harness(quick=[dict(n=18)], thorough=[dict(n=40)], labels=['two', 'one'],
           bounds='any one or two elements deleted out of n, in either direction, of a list and of a dictionary')
def long_ones(S, n):
    i, j = S.int('i', 0, n - 1), S.int('j', 0, n - 1)
    S.assume(i <= j)
    i, j = S.conc(i), S.conc(j)
    back = S.flag('back')
    a = list(range(n))
    d = {x: -x for x in a}
    with (reversed(ListDeleter(a)) if back else ListDeleter(a)) as ld:
        for x in ld:
            if x == i or x == j:
                ld.delete()
    left = [x for x in range(n) if x != i and x != j]
    S.check(a == left, lambda: 'left %r, expected %r' % (a, left))
    with DictDeleter(d) as dd:
        for x in dd:
            if x == i or x == j:
                dd.delete()
    S.check(list(d.items()) == [(x, -x) for x in left], 'the dictionary')
    S.reach('one' if i == j else 'two')
