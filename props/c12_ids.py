from engine.harness import Registry
from satella.coding.concurrent import IDAllocator, SequentialIssuer
from satella.exceptions import Empty, AlreadyAllocated

R = Registry('C12', assumptions=['identifiers are small integers (concretized exhaustively)'])


@R.harness(quick=[dict(k=2, warm=(0, 1, 2), span=3), dict(k=2, warm=(10,), span=12)],
           thorough=[dict(k=3, warm=(0, 1), span=3), dict(k=3, warm=(9, 10, 11, 20), span=22)],
           labels=['alloc', 'empty', 'free', 'not_allocated', 'below', 'above', 'mark', 'already', 'reuse'],
           bounds='start in 0..2, no limit or a limit of up to `span` identifiers, `warm` allocations, then '
                  'k operations of any kind')
def allocator(S, k, warm, span):
    start = S.choice('start', 3)
    limited = S.flag('limited')
    top = start + S.choice('span', 4) + span - 3 if limited else None
    a = IDAllocator(start, top)
    got = set()
    freed = set()

    def alloc():
        r, x = S.raises(Empty, a.allocate_int)
        full = top is not None and len(got) >= top - start
        S.check(r == full, 'Empty iff all identifiers are taken')
        if r:
            S.reach('empty')
            return
        S.check(x not in got, 'an identifier is given once')
        S.check(x >= start, 'not below the start')
        S.check(top is None or x < top, lambda: '%r is not below the limit %r' % (x, top))
        if x in freed:
            S.reach('reuse')
        got.add(x)
        S.reach('alloc')

    for i in range(S.pick('warm', list(warm))):
        alloc()
    for i in range(k):
        op = S.pick('op', ['alloc', 'free', 'mark'])
        if op == 'alloc':
            alloc()
            continue
        x = S.conc(S.int('x', start - 1, start + span + 1))
        if op == 'free':
            r, e = S.raises(ValueError, a.mark_as_free, x)
            S.check(r == (x not in got), 'ValueError iff not allocated')
            if r:
                S.reach('below' if x < start else 'not_allocated')
            else:
                got.discard(x)
                freed.add(x)
                S.reach('free')
        else:
            try:
                a.mark_as_allocated(x)
            except AlreadyAllocated:
                S.check(x in got, 'AlreadyAllocated only if allocated')
                S.reach('already')
            except ValueError:
                S.check(x < start or (top is not None and x >= top), 'ValueError only if out of range')
                S.reach('below' if x < start else 'above')
            else:
                S.check(x >= start and x not in got and (top is None or x < top), 'accepted')
                got.add(x)
                S.reach('mark')
    alloc()
    alloc()


@R.harness(quick=[dict(k=4)], thorough=[dict(k=7)], labels=['issue', 'jump', 'nojump'],
           bounds='arbitrary start, k issues, each with an arbitrary lower limit or none')
def issuer(S, k):
    nxt = S.int('start')
    si = SequentialIssuer(nxt)
    for i in range(k):
        if S.flag('limited'):
            lo = S.int('lo')
            v = si.no_less_than(lo)
            if lo > nxt:
                nxt = lo
                S.reach('jump')
            else:
                S.reach('nojump')
        else:
            v = si.issue()
            S.reach('issue')
        S.check_eq(v, nxt, 'the next identifier')
        nxt = nxt + 1


@R.harness(quick=[dict(k=3)], labels=['default'], bounds='default start')
def issuer_default(S, k):
    si = SequentialIssuer()
    S.check([si.issue() for _ in range(k)] == list(range(k)))
    S.reach('default')
