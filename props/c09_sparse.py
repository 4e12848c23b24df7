from engine.harness import Registry
from satella.coding.structures import SparseMatrix

R = Registry('C09', assumptions=['values are mathematical integers or None; indices are small, or '
                                 'negative within the matrix'])


def dims(m):
    return (max([c for c, r in m], default=-1) + 1, max([r for c, r in m], default=-1) + 1)


def rows_of(m):
    nc, nr = dims(m)
    return [[m.get((c, r)) for c in range(nc)] for r in range(nr)]


def check_matrix(S, sm, m):
    nc, nr = dims(m)
    S.check(sm.columns == nc and sm.rows == nr and len(sm) == nr,
            lambda: 'size %sx%s, expected %sx%s' % (sm.columns, sm.rows, nc, nr))
    S.check(bool(sm) == bool(m), 'truth')
    S.check_eq(list(sm), rows_of(m), 'rows')
    S.check_eq(sm[:, :], rows_of(m), 'whole')
    for r in range(nr):
        S.check_eq(sm.get_row(r), rows_of(m)[r], 'get_row')
        S.check_eq(sm[:, r], rows_of(m)[r], 'row')
        S.check_eq(sm[..., r - nr], rows_of(m)[r], 'row, negative index')
        for c in range(nc):
            S.check_eq(sm[c, r], m.get((c, r)), 'element')
            S.check_eq(sm[c - nc, r - nr], m.get((c, r)), 'element, negative index')
    for c in range(nc):
        S.check_eq(sm[c, :], [m.get((c, r)) for r in range(nr)], 'column')
    S.expect_raises(IndexError, lambda: sm[nc, 0])
    S.expect_raises(IndexError, lambda: sm[0, nr])


def val(S):
    return S.key('v') if S.flag('some') else None


def put(m, c, r, v):
    if v is None:
        m.pop((c, r), None)
    else:
        m[c, r] = v


@R.harness(quick=[dict(n=2, k=2)], thorough=[dict(n=2, k=3), dict(n=3, k=2)],
           labels=['set', 'none', 'del', 'del_last', 'row', 'col', 'all', 'append_row', 'delete_row',
                   'clear', 'delrow', 'delcol', 'shoot', 'neg'],
           bounds='elements of a matrix with n columns and 2 rows, k operations of any kind')
def history(S, n, k):
    sm, m = SparseMatrix(), {}
    # initial cells
    for c in range(n):
        for r in range(2):
            if (c + r) % 2 == 0 and S.flag('cell'):
                v = S.key('i')
                sm[c, r] = v
                m[c, r] = v
    for i in range(k):
        op = S.pick('op', ['set', 'del', 'row', 'col', 'all', 'append_row', 'delete_row', 'clear',
                           'delrow', 'delcol', 'shoot', 'neg'])
        if op == 'set' or op == 'del':
            c, r = S.choice('c', n), S.choice('r', 2)
            if op == 'set':
                v = val(S)
                sm[c, r] = v
                put(m, c, r, v)
                if v is None:
                    S.reach('none')
            else:
                del sm[c, r]
                if len(m) == 1 and (c, r) in m:
                    S.reach('del_last')
                m.pop((c, r), None)
        elif op == 'neg':
            nc, nr = dims(m)
            if not m:
                continue
            v = S.key('v')
            c, r = S.choice('c', nc), S.choice('r', nr)
            sm[c - nc, r - nr] = v
            m[c, r] = v
        elif op == 'row' or op == 'col':
            x = S.choice('x', 2)
            vs = [val(S) for _ in range(S.choice('len', 2) + 1)]
            if op == 'row':
                sm[:, x] = iter(vs)
            else:
                sm[x, ...] = vs
            for j, v in enumerate(vs):
                put(m, *((j, x) if op == 'row' else (x, j)), v)
        elif op == 'all':
            vs = [[S.key('v'), val(S)], [val(S)]]
            sm[:, :] = vs
            m = {}
            for r, row in enumerate(vs):
                for c, v in enumerate(row):
                    put(m, c, r, v)
        elif op == 'append_row':
            vs = [val(S), S.key('v')]
            nr = dims(m)[1]
            sm.append_row(iter(vs))
            for c, v in enumerate(vs):
                put(m, c, nr, v)
        elif op == 'delete_row' or op == 'delrow':
            r = S.choice('r', 2)
            if op == 'delete_row':
                sm.delete_row(r)
            else:
                del sm[:, r]
            m = {p: v for p, v in m.items() if p[1] != r}
        elif op == 'delcol':
            c = S.choice('c', n)
            del sm[c, :]
            m = {p: v for p, v in m.items() if p[0] != c}
        elif op == 'clear':
            sm.clear()
            m = {}
        elif op == 'shoot':
            old = rows_of(m)
            s2 = sm.shoot()
            S.check_eq(list(sm), old, 'shoot leaves the matrix alone')
            check_matrix(S, s2, {(2 * c, 2 * r): v for (c, r), v in m.items()})
        S.reach(op)
    check_matrix(S, sm, m)
    if m:
        mx, mn = sm.max(), sm.min()
        vs = list(m.values())
        S.check(S.And(S.Or(*[S.eq(mx, v) for v in vs]), *[mx >= v for v in vs]), 'max')
        S.check(S.And(S.Or(*[S.eq(mn, v) for v in vs]), *[mn <= v for v in vs]), 'min')
    twin = SparseMatrix.from_iterable(rows_of(m))
    S.check(sm == twin and SparseMatrix(rows_of(m)) == sm, 'equal to a matrix built of its rows')


FALSE = [None, 0, [], 7]


@R.harness(labels=['defined', 'undefined', 'deleted', 'row', 'column', 'all'],
           bounds='2x2 matrices of cells that are None, false or other; one assignment or deletion')
def false_cells(S):
    """a cell is undefined if it is None, and not if it is false"""
    m = {}
    sm = SparseMatrix()
    for c, r in (0, 0), (1, 0), (1, 1):
        v = S.pick('v', FALSE)
        sm[c, r] = v
        if v is not None:
            m[c, r] = v
    S.reach('defined' if m else 'undefined')
    op = S.pick('op', ['row', 'column', 'all', 'cell', 'deleted'])
    if op == 'row':
        vs = [S.pick('v', FALSE) for _ in range(S.choice('n', 3))]
        sm[:, 0] = vs
        for c, v in enumerate(vs):
            put(m, c, 0, v)
    elif op == 'column':
        vs = [S.pick('v', FALSE) for _ in range(S.choice('n', 3))]
        sm[1, :] = vs
        for r, v in enumerate(vs):
            put(m, 1, r, v)
    elif op == 'all':
        v, w = S.pick('v', FALSE), S.pick('v', FALSE)
        sm[:, :] = [[v], [None, w]]
        m = {}
        put(m, 0, 0, v)
        put(m, 1, 1, w)
    elif op == 'cell':
        v = S.pick('v', FALSE)
        sm[0, 1] = v
        put(m, 0, 1, v)
    else:
        del sm[1, 0]
        m.pop((1, 0), None)
    if op != 'cell':
        S.reach(op)
    cols, rows = dims(m)
    S.check((sm.columns, sm.rows, len(sm), bool(sm)) == (cols, rows, rows, rows > 0), lambda: 'dimensions of %r' % (m,))
    S.check(list(sm) == rows_of(m), lambda: 'rows: %r of %r' % (list(sm), m))
    for c in range(cols):
        for r in range(rows):
            S.check(sm[c, r] == m.get((c, r)) and type(sm[c, r]) is type(m.get((c, r))), 'cell')
    twin = SparseMatrix()
    for (c, r), v in sorted(m.items(), reverse=True):
        twin[c, r] = v
    S.check(sm == twin, 'equal to one of the same cells')
    twin[0, 3] = 0
    S.check(sm != twin, 'a false cell is defined')
    shot = sm.shoot()
    S.check(list(shot) == rows_of({(2 * c, 2 * r): v for (c, r), v in m.items()}), 'shoot')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['diag', 'nodiag', 'corner', 'inside'],
           bounds='all cells of n x n matrices')
def neighbours(S, n):
    nc, nr = S.choice('nc', n) + 1, S.choice('nr', n) + 1
    sm = SparseMatrix([[1] * nc for _ in range(nr)])
    c, r = S.choice('c', nc), S.choice('r', nr)
    diag = S.flag('diag')
    out = list(sm.get_neighbour_coordinates(c, r, diag))
    exp = {(x, y) for x in range(nc) for y in range(nr) if (x, y) != (c, r)
           and abs(x - c) <= 1 and abs(y - r) <= 1 and (diag or x == c or y == r)}
    S.check(len(out) == len(set(out)) and set(out) == exp, 'neighbours')
    S.reach('diag' if diag else 'nodiag')
    S.reach('corner' if len(exp) <= 3 else 'inside')
