import operator
from engine.harness import Registry
from props.lib import member
from satella.coding import chain, SelfClosingGenerator, hint_with_length, run_when_generator_completes, exhaust
from satella.coding.sequences import choose, choose_one, choose_with_index, take_n, is_last, add_next, \
    half_cartesian, skip_first, zip_shifted, stop_after, group_quantity, iter_dict_of_list, shift, \
    other_sequence_no_longer_than, count, even, odd, Multirun, n_th, unique, length, map_list, smart_zip, is_empty, \
    make_list, RollingArithmeticAverage, enumerate2, infinite_iterator, to_iterator, filter_out_false, \
    filter_out_nones, index_of, index_of_max, f_range, iterate_callable, AlreadySeen, append_sequence, \
    smart_enumerate, ConstruableIterator, walk, ListWrapperIterator, try_close
from satella.coding.structures import PushIterable, SetZip

R = Registry('C14', assumptions=['half_cartesian is given a re-iterable sequence; shifts are not longer than the sequence'])


class Source:
    """one-shot iterator that counts what was taken out of it"""

    def __init__(self, items):
        self.items = list(items)
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.items):
            raise StopIteration()
        self.taken += 1
        return self.items[self.taken - 1]


class Iterable:
    """neither a sequence nor an iterator"""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def seq(S, n, name='x'):
    m = S.choice('n', n + 1)
    return [S.key('%s%d' % (name, i)) for i in range(m)]


def form(S, lst):
    f = S.choice('form', 3)
    if f == 0:
        return list(lst)
    elif f == 1:
        return Source(lst)
    return Iterable(lst)


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)],
           labels=['take_n', 'n_th', 'skip_first', 'stop_after', 'even', 'odd', 'other', 'is_last', 'add_next',
                   'count', 'enumerate2', 'smart_enumerate', 'group', 'length', 'is_empty', 'empty', 'shift',
                   'zip_shifted', 'append', 'half', 'makers', 'iterate_callable', 'short'],
           bounds='sequences of up to n arbitrary elements, given as a list, an iterable or a one-shot iterator; '
                  'arbitrary counts, steps, offsets up to n+1')
def selecting(S, n):
    a = seq(S, n)
    m = len(a)
    if not a:
        S.reach('empty')
    op = S.pick('op', ['take_n', 'n_th', 'skip_first', 'stop_after', 'even', 'odd', 'other', 'is_last', 'add_next',
                       'count', 'enumerate2', 'smart_enumerate', 'group', 'length', 'is_empty', 'shift',
                       'zip_shifted', 'append', 'half', 'makers', 'iterate_callable'])
    S.reach(op)
    src = form(S, a)
    once = isinstance(src, Source)
    if op == 'take_n':
        k = S.choice('k', n + 2)
        skip = S.choice('skip', m + 1)
        S.check_eq(take_n(src, k, skip) if skip else take_n(src, k), a[skip:skip + k], op)
        if once:
            S.check(src.taken == min(m, skip + k), 'takes too much')
    elif op == 'n_th':
        k = S.choice('k', n + 2)
        r, v = S.raises(IndexError, n_th, src, k)
        S.check(r == (k >= m), 'n_th')
        if not r:
            S.check_eq(v, a[k], op)
            if once:
                S.check(src.taken == k + 1, 'takes too much')
        else:
            S.reach('short')
        if m:
            S.check_eq(n_th(list(a)), a[0], 'default')
    elif op == 'skip_first':
        k = S.choice('k', n + 2)
        S.check_eq(list(skip_first(src, k)), a[k:], op)
    elif op == 'stop_after':
        k = S.choice('k', n + 2)
        S.check_eq(list(stop_after(src, k)), a[:k], op)
        if once:
            S.check(src.taken == min(m, k), 'takes too much')
    elif op == 'even':
        S.check_eq(list(even(src)), a[::2], op)
    elif op == 'odd':
        S.check_eq(list(odd(src)), a[1::2], op)
    elif op == 'other':
        b = [S.key('b%d' % i) for i in range(S.choice('nb', n + 1))]
        S.check_eq(list(other_sequence_no_longer_than(src, form(S, b))), b[:m], op)
    elif op == 'is_last':
        S.check_eq(list(is_last(src)), [(i == m - 1, x) for i, x in enumerate(a)], op)
    elif op == 'add_next':
        wrap, skip = S.flag('wrap'), S.flag('skip_last')
        e = list(zip(a, a[1:]))
        if a and wrap:
            e.append((a[-1], a[0]))
        elif a and not skip:
            e.append((a[-1], None))
        S.check_eq(list(add_next(src, wrap, skip)), e, op)
    elif op in ('count', 'enumerate2', 'smart_enumerate'):
        start, step = S.int('start'), S.int('step')
        nums = [start + step * i for i in range(m)]
        if op == 'count':
            S.check_eq(list(count(src, start, step)), nums, op)
            S.check_eq(list(count(a)), list(range(m)), op)
        elif op == 'enumerate2':
            S.check_eq(list(enumerate2(src, start, step)), list(zip(nums, a)), op)
            S.check_eq(list(enumerate2(a)), list(enumerate(a)), op)
        else:
            rows = [(x, i) if i % 2 else [x, i] for i, x in enumerate(a)]
            S.check_eq(list(smart_enumerate(form(S, rows), start, step)),
                       [(nums[i], x, i) for i, x in enumerate(a)], op)
    elif op == 'group':
        k = S.choice('k', n + 1) + 1
        got = list(group_quantity(k, src))
        S.check_eq([list(x) for x in got], [a[i:i + k] for i in range(0, m, k)], op)
        S.check_eq(list(map(list, group_quantity(k, range(m)))),
                   [list(range(m))[i:i + k] for i in range(0, m, k)], 'range')
        S.check_eq(list(map(list, group_quantity(k, tuple(a)))), [a[i:i + k] for i in range(0, m, k)], 'tuple')
    elif op == 'length':
        S.check_eq(length(src), m, op)
    elif op == 'is_empty':
        ex = S.flag('exhaust')
        S.check(is_empty(src, ex) is (m == 0), op)
        if once:
            S.check(src.taken == (m if ex else min(m, 1)), 'consumed')
    elif op == 'shift':
        k = S.choice('k', 2 * m + 1) - m
        S.check_eq(list(shift(src, k)), a[k:] + a[:k] if k != -m else a, op)
    elif op == 'zip_shifted':
        k = S.choice('k', 2 * m + 1) - m
        b = [S.key('b%d' % i) for i in range(m)]
        S.check_eq(list(zip_shifted((src, k), b)), list(zip(a[k:] + a[:k] if k != -m else a, b)), op)
    elif op == 'append':
        e1, e2 = S.key('e1'), S.key('e2')
        S.check_eq(list(append_sequence([(x,) if i % 2 else [x] for i, x in enumerate(a)], e1, e2)),
                   [(x, e1, e2) for x in a], op)
    elif op == 'half':
        same = S.flag('same')
        S.check_eq(list(half_cartesian(a, same)),
                   [(a[i], a[j]) for i in range(m) for j in range(m) if j > i or (same and i == j)], op)
    elif op == 'makers':
        k = S.choice('k', 3)
        e = [S.key('e')]
        l = make_list(e, k, S.flag('deep'))
        S.check_eq(l, [e] * k, 'make_list')
        S.check(all(x is not e for x in l) and len(set(map(id, l))) == k, 'copies')
        if S.flag('factory'):
            S.check_eq(take_n(infinite_iterator(return_factory=iter(a + [1, 2]).__next__), 2), (a + [1, 2])[:2],
                       'infinite')
        else:
            S.check_eq(take_n(infinite_iterator(e), 2), [e, e], 'infinite')
        S.check_eq(list(iter_dict_of_list({'a': a, 'b': [], 'c': [e]})), [('a', x) for x in a] + [('c', e)], 'dict')
        S.check_eq(map_list(lambda x: x + 1, src), [x + 1 for x in a], 'map_list')
        S.check_eq(list(to_iterator(lambda x: x - 1)(a)), [x - 1 for x in a], 'to_iterator')
        S.check_eq(list(smart_zip([(x, i) for i, x in enumerate(a)], a, [(1, 2)] * m)),
                   [(x, i, x, 1, 2) for i, x in enumerate(a)], 'smart_zip')
        S.check_eq(list(chain(a, 5, (6,), 7)), a + [5, 6, 7], 'chain')
    elif op == 'iterate_callable':
        k = S.choice('k', m + 1)

        def get(i):
            if i >= m:
                raise (IndexError if k % 2 else ValueError)()
            return a[i]

        S.check_eq(list(iterate_callable(get, k)), a[k:], op)


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['choose', 'choose_multiple', 'choose_with_index', 'index_of', 'index_of_max', 'unique', 'seen',
                   'filter', 'found', 'missing', 'many', 'unhashable'],
           bounds='up to n arbitrary elements (equal or not), searched-for value arbitrary')
def searching(S, n):
    a = seq(S, n)
    src = form(S, a)
    once = isinstance(src, Source)
    v = S.key('v')
    op = S.pick('op', ['choose', 'choose_multiple', 'choose_with_index', 'index_of', 'index_of_max', 'unique', 'seen',
                       'filter'])
    S.reach(op)
    pos = [i for i, x in enumerate(a) if x == v] if op not in ('index_of_max', 'unique', 'seen') else []

    def pred(x):
        return x == v

    if op in ('choose', 'choose_with_index', 'index_of'):
        r, w = S.raises(ValueError, {'choose': choose, 'choose_with_index': choose_with_index,
                                     'index_of': index_of}[op], pred, src)
        S.check(r == (not pos), 'found')
        S.reach('missing' if r else 'found')
        if not r:
            i = pos[0]
            S.check_eq(w, {'choose': a[i], 'choose_with_index': (a[i], i), 'index_of': i}[op], op)
            if once:
                S.check(src.taken == i + 1, 'takes too much')
    elif op == 'choose_multiple':
        r, w = S.raises(ValueError, choose_one, pred, src) if S.flag('one') \
            else S.raises(ValueError, choose, pred, src, check_multiple=True)
        S.check(r == (len(pos) != 1), 'exactly one')
        if not r:
            S.check_eq(w, a[pos[0]], op)
            S.check(not once or src.taken == len(a), 'has to exhaust')
        elif pos:
            S.reach('many')
    elif op == 'index_of_max':
        r, w = S.raises(ValueError, index_of_max, a)
        S.check(r == (not a), op)
        if not r:
            S.check(S.And(True, *[a[w] >= x for x in a]), 'max')
            S.check(S.And(True, *[a[w] > x for x in a[:w]]), 'first of the largest')
    elif op in ('unique', 'seen'):
        if op == 'unique':
            got = list(unique(src))
        else:
            s = AlreadySeen()
            if S.flag('unhashable'):
                S.reach('unhashable')
                mixed = S.flag('mixed')
                got = []
                for i, x in enumerate(a):
                    if mixed:
                        S.check(s.is_unique('k') == (i == 0), 'hashable among unhashable')
                    if s.is_unique([x]):
                        got.append(x)
            else:
                got = [x for x in a if s.is_unique(x)]
        exp = []
        for x in a:
            if not member(S, x, exp):
                exp.append(x)
        S.check_eq(got, exp, op)
    else:
        b = [None if x == v else x for x in a]
        S.check_eq(filter_out_nones(b), [x for x in a if x != v], 'nones')
        S.check_eq(filter_out_false(a), [x for x in a if x != 0], 'false')


@R.harness(quick=[dict(n=3, k=2)], thorough=[dict(n=3, k=3)],
           labels=['index', 'negative', 'slice', 'open_slice', 'len', 'in', 'next', 'exhaust', 'out_of_range', 'done'],
           bounds='a source of up to n elements, k arbitrary accesses; arbitrary searched-for value')
def list_wrapper(S, n, k):
    """a one-shot iterator wrapped so that it can be used as a list"""
    a = seq(S, n)
    src = Source(a)
    w = ListWrapperIterator(src)
    m = len(a)
    seen_in = False
    nxt = 0
    need = 0
    for _ in range(k):
        op = S.pick('op', ['index', 'slice', 'len', 'in', 'next', 'exhaust'])
        if op == 'index':
            i = S.choice('i', 2 * n + 2) - n - 1
            r, v = S.raises(IndexError, w.__getitem__, i)
            S.check(r == (not -m <= i < m), 'range')
            if not r:
                S.check_eq(v, a[i], 'item')
                need = max(need, i + 1 if i >= 0 else m)
                if i < 0:
                    S.reach('negative')
            else:
                need = m
                S.reach('out_of_range')
        elif op == 'slice':
            sl = slice(S.pick('start', [None, 1, -1]), S.pick('stop', [None, 0, 2, -1]), S.pick('step', [None, 2, -1]))
            S.check_eq(w[sl], a[sl], 'slice')
            if sl.stop is None:
                S.reach('open_slice')
            if sl.start in (None, 1) and sl.stop in (0, 2) and sl.step != -1:
                need = max(need, min(m, sl.stop))
            else:
                need = m
        elif op == 'len':
            S.check_eq(len(w), m, 'len')
            need = m
        elif op == 'exhaust':
            w.exhaust()
            need = m
        elif op == 'in':
            v = S.key('v')
            S.check((v in w) == bool(member(S, v, a)), 'in')
            seen_in = True
            need = m
        else:
            if seen_in:
                continue
            r, v = S.raises(StopIteration, next, w)
            S.check(r == (nxt >= m), 'stop')
            if not r:
                S.check_eq(v, a[nxt], 'next')
                nxt += 1
                need = max(need, nxt)
            else:
                S.reach('done')
        S.reach(op)
        S.check(src.taken <= need, 'it never computes more than it needs to')
    if not seen_in:
        S.check_eq(list(w), a[nxt:], 'the rest')
    S.check_eq([w[i] for i in range(m)], a, 'all')


@R.harness(quick=[dict(n=2, k=3)], thorough=[dict(n=3, k=4)],
           labels=['multirun', 'construable', 'push', 'rolling', 'setzip', 'avg_empty', 'evicted', 'immediate', 'left'],
           bounds='n initial elements and k arbitrary operations')
def stateful(S, n, k):
    kind = S.pick('kind', ['construable', 'push', 'rolling', 'setzip', 'multirun'])
    S.reach(kind)
    a = seq(S, n)
    if kind == 'construable':
        c = ConstruableIterator(a)
        model = list(a)
        for _ in range(k):
            op = S.pick('op', ['next', 'add', 'add_many', 'add_immediate', 'add_many_immediate'])
            v1, v2 = S.key('v'), S.key('v')
            if op == 'next':
                r, v = S.raises(StopIteration, next, c)
                S.check(r == (not model), 'end')
                if not r:
                    S.check_eq(v, model.pop(0), 'next')
            elif op == 'add':
                c.add(v1)
                model.append(v1)
            elif op == 'add_many':
                c.add_many(iter([v1, v2]))
                model += [v1, v2]
            elif op == 'add_immediate':
                S.reach('immediate')
                c.add_immediate(v1)
                model.insert(0, v1)
            else:
                c.add_many_immediate(iter([v1, v2]))
                model[:0] = [v1, v2]
            S.check_eq(c.__length_hint__(), len(model), 'length hint')
        S.check_eq(list(c), model, 'rest')
    elif kind == 'push':
        c = PushIterable(Source(a))
        src, buf = list(a), []
        for _ in range(k):
            op = S.pick('op', ['pop', 'push', 'push_left'])
            if op == 'pop':
                r, v = S.raises(StopIteration, c.pop if S.flag('pop') else c.__next__)
                S.check(r == (not src and not buf), 'end')
                if not r:
                    S.check_eq(v, buf.pop() if buf else src.pop(0), 'pop')
            else:
                v = S.key('v')
                getattr(c, op)(v)
                if op == 'push':
                    buf.append(v)
                else:
                    S.reach('left')
                    buf.insert(0, v)
        S.check_eq(list(c), buf[::-1] + src, 'rest')
    elif kind == 'rolling':
        size = S.choice('size', 3) + 1
        avg = RollingArithmeticAverage(size)
        model = []
        for _ in range(k + 1):
            if S.choice('op', 4) == 0:
                avg.clear()
                model = []
            else:
                v = S.int('v')
                avg.insert(v)
                model.append(v)
                if len(model) > size:
                    S.reach('evicted')
                    model.pop(0)
            if not model:
                S.reach('avg_empty')
                S.expect_raises(ZeroDivisionError, avg.avg)
            else:
                S.check(avg.avg() * len(model) == S.Sum(model) if S.symbolic
                        else abs(avg.avg() * len(model) - sum(model)) < 1e-6 * max(1, abs(sum(model))), 'average')
    elif kind == 'multirun':
        class Counter:
            def __init__(self, v):
                self.v = v

            def add(self, x, y=0):
                self.v = self.v + x + y

            def __iadd__(self, o):
                self.v = self.v + o
                return self

            def __isub__(self, o):
                self.v = self.v - o
                return self

            def __imul__(self, o):
                self.v = self.v * o
                return self

        for name in ('truediv', 'floordiv', 'lshift', 'rshift', 'pow'):
            setattr(Counter, '__i%s__' % name, lambda self, o, name=name: setattr(self, 'v', (name, self.v, o)) or self)
        cs = [Counter(x) for x in a]
        x, y = S.int('x'), S.int('y')
        op = S.pick('op', ['call', 'call_nolist', 'iadd', 'isub', 'imul', 'truediv', 'floordiv', 'lshift', 'rshift', 'pow'])
        m = Multirun(cs, op == 'call_nolist')
        S.check(bool(m) == bool(cs), 'bool')
        if op.startswith('call'):
            r = m.add(x, y=y)
            S.check(r is None if op == 'call_nolist' else len(r) == len(cs) and all(
                p is q for p, q in zip(r, cs)), 'result')
            exp = [v + x + y for v in a]
        elif op == 'iadd':
            m += x
            exp = [v + x for v in a]
        elif op == 'isub':
            m -= x
            exp = [v - x for v in a]
        elif op != 'imul':
            old = m
            m = getattr(operator, 'i' + op)(m, x)
            S.check(m is old, 'in place')
            exp = [(op, v, x) for v in a]
        else:
            m *= 3
            exp = [v * 3 for v in a]
        S.check(isinstance(m, Multirun), 'still a Multirun')
        S.check_eq([c.v for c in cs], exp, 'each element once')
    else:
        sets = [set(), {S.key('s')}, {S.key('s'), S.key('s')}]
        z = SetZip(*sets[:2])
        z += sets[2]
        v = S.key('v')
        S.check((v in z) == any(v in s for s in sets), 'membership')
        S.check_eq(len(z), sum(map(len, sets)), 'length')
        S.check_eq(list(z), [x for s in sets for x in s], 'iteration')


@R.harness(quick=[dict(d=3)], thorough=[dict(d=4)], labels=['deep', 'broad', 'leaves', 'all', 'none_children'],
           bounds='all trees with up to d inner nodes under the root, each having 0..2 children')
def walking(S, d):
    budget = [d]
    ids = [0]

    class Node:
        def __init__(self, depth):
            ids[0] += 1
            self.id = ids[0]
            self.ch = []

    def grow(node, depth):
        k = S.choice('ch', 3) if budget[0] > 0 and depth < 3 else 0
        budget[0] -= 1
        for _ in range(k):
            c = Node(depth)
            node.ch.append(c)
        for c in node.ch:
            grow(c, depth + 1)

    root = Node(0)
    grow(root, 0)
    deep, leaves = S.flag('deep'), S.flag('leaves')
    none = S.flag('none')
    if none:
        S.reach('none_children')
    S.reach('deep' if deep else 'broad')
    S.reach('leaves' if leaves else 'all')

    exp = []
    if deep:
        def rec(n):
            for c in n.ch:
                exp.append(c)
                rec(c)
        rec(root)
    else:
        level = list(root.ch)
        while level:
            exp += level
            level = [g for c in level for g in c.ch]
    if leaves:
        exp = [c for c in exp if not c.ch]
    got = list(walk(root, lambda n: (n.ch or (None if none and n is not root else n.ch)), deep, leaves))
    S.check([g.id for g in got] == [e.id for e in exp], 'order of nodes')


@R.harness(quick=[dict(n=5)], thorough=[dict(n=8)], labels=['up', 'down', 'empty'],
           bounds='arbitrary start, stop and step (quarters), up to n steps, truncation-ok')
def ranges(S, n):
    start, stop, step = S.real('start', -10, 10), S.real('stop', -10, 10), S.real('step', -10, 10)
    S.assume(S.Or(step > 0, step < 0))
    form_ = S.choice('args', 3)
    args = [(start, stop, step), (start, stop), (stop,)][form_]
    start, step = [(start, step), (start, 1), (0, 1)][form_]
    S.assume(S.And((stop - start) <= step * n, step > 0) if S.flag('up') else
             S.And((stop - start) >= step * n, step < 0))
    got = list(f_range(*args))
    S.reach('up' if step > 0 else 'down')
    if not got:
        S.reach('empty')
    for i, v in enumerate(got):
        S.check_eq(v, start + step * i, 'element')
    nxt = start + step * len(got)
    if step > 0:
        S.check(S.And(True, *[v < stop for v in got]), 'below stop')
        S.check(nxt >= stop, 'complete')
    else:
        S.check(S.And(True, *[v > stop for v in got]), 'above stop')
        S.check(nxt <= stop, 'complete')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['self_closing', 'hint', 'hint_factory', 'completes', 'partial', 'not_called', 'called', 'ctx', 'del'],
           bounds='generators of up to n elements, consumed up to any point, then closed, left or exhausted')
def generators(S, n):
    a = seq(S, n)
    m = len(a)
    kind = S.pick('kind', ['self_closing', 'hint', 'completes'])
    S.reach(kind)
    log = []

    def gen(*args):
        for x in a:
            log.append('y')
            yield x
        log.append('end')

    take = S.choice('take', m + 2)
    fn = S.flag('function')
    if kind == 'self_closing':
        g = SelfClosingGenerator(gen)() if fn else SelfClosingGenerator(gen())
        got = take_n(g, take)
        S.check_eq(got, a[:take], 'elements')
        if take <= m:
            S.reach('partial')
        S.check(log.count('end') == (take > m), 'not before time')
        how = S.pick('how', ['close', 'ctx', 'del'])
        if how == 'close':
            g.close()
            g.close()
        elif how == 'ctx':
            with g:
                pass
            S.reach('ctx')
        else:
            del g
            S.reach('del')
        S.check(log.count('end') == 1 and log.count('y') == m, 'ran to the end, once')
    elif kind == 'hint':
        fac = S.flag('factory')
        ln = S.int('len', 0, 2 ** 60)
        kw = dict(length=None, length_factory=lambda: ln) if fac else dict(length=ln)
        if fac:
            S.reach('hint_factory')
        g = hint_with_length(gen, **kw)() if fn else hint_with_length(gen(), **kw)
        S.check_eq(g.__length_hint__(), ln, 'hint')
        S.check_eq(take_n(g, take), a[:take], 'elements')
        S.expect_raises(ValueError, hint_with_length, gen(), None)
        S.expect_raises(ValueError, hint_with_length, gen(), 1, lambda: 1)
    else:
        arg = S.key('arg')
        calls = []
        g = run_when_generator_completes(gen(), lambda *ar, **kw: calls.append((ar, kw)), arg, kw=arg)
        got = []
        for _ in range(take):
            r, v = S.raises(StopIteration, next, g)
            if r:
                break
            got.append(v)
        S.check_eq(got, a[:take], 'elements')
        S.check(len(calls) == (1 if take > m else 0), 'called exactly upon completion')
        if calls:
            S.check_eq(calls[0], ((arg,), {'kw': arg}), 'arguments')
        S.reach('called' if calls else 'not_called')
        if take <= m:
            g.close()
            S.check(not calls, 'not called for an aborted generator')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['one', 'several', 'none', 'closed', 'no_close', 'failed_close'],
           bounds='up to n elements, each of them None or false or not, and any of them being searched for')
def false_elements(S, n):
    """what is being chosen may well be None"""
    objs = [None, 0, '', (), 'x']
    a = [S.pick('a', objs) for _ in range(S.choice('n', n + 1))]
    wanted = [S.flag('w') for _ in a]
    pos = [i for i, w in enumerate(wanted) if w]
    S.reach('none' if not pos else 'one' if len(pos) == 1 else 'several')
    op = S.pick('op', ['choose', 'one', 'with_index', 'index_of', 'others'])
    it = iter(wanted)

    def pred(x):
        return next(it)

    if op == 'others':
        S.check_eq(filter_out_nones(a), [x for x in a if x is not None], 'nones')
        S.check_eq(filter_out_false(a), [x for x in a if x], 'false')
        S.check_eq(list(is_last(a)), [(i == len(a) - 1, x) for i, x in enumerate(a)], 'is_last')
        S.check_eq(list(add_next(a, skip_last=True)), list(zip(a, a[1:])), 'add_next')
        S.check_eq(list(group_quantity(2, iter(a))), [a[i:i + 2] for i in range(0, len(a), 2)], 'group')
        S.check(is_empty(iter(a)) is (not a) and is_empty(iter(a), exhaust=False) is (not a), 'is_empty')
        w = ListWrapperIterator(iter(a))
        S.check(all(x in w for x in a) and list(w[:]) == a, 'wrapper')
        c = PushIterable(iter(a))
        c.push(None)
        S.check_eq(list(c), [None] + a, 'push')
        S.check_eq(list(ConstruableIterator(a)), a, 'construable')
        return
    r, v = S.raises(ValueError, {'choose': choose, 'one': choose_one, 'with_index': choose_with_index,
                                 'index_of': index_of}[op], pred, a)
    S.check(r == (len(pos) != 1 if op == 'one' else not pos), 'found')
    if not r:
        i = pos[0]
        exp = {'choose': a[i], 'one': a[i], 'with_index': (a[i], i), 'index_of': i}[op]
        S.check(v == exp and (op not in ('choose', 'one') or v is exp), 'that element')

    class Closable:
        def __init__(self, exc):
            self.closed, self.exc = 0, exc

        def close(self):
            self.closed += 1
            if self.exc:
                raise self.exc

    if op == 'choose':
        try_close(iter(a))
        S.reach('no_close')
        c = Closable(None)
        try_close(c)
        S.check(c.closed == 1, 'closed')
        S.reach('closed')
        S.expect_raises(ValueError, try_close, Closable(ValueError()))
        S.reach('failed_close')
