"""helpers shared by harnesses"""


def take_out(S, model, x, msg):
    """remove x from the reference multiset (by identity if possible, else by equality)"""
    for i, m in enumerate(model):
        if m is x:
            del model[i]
            return
    for i, m in enumerate(model):
        if S.eq(m, x) if isinstance(S.eq(m, x), bool) else bool(S.eq(m, x)):
            del model[i]
            return
    S.fail('%s: %r was not expected (have %r)' % (msg, x, model))


def count(S, xs, v):
    return S.Sum([S.eq(x, v) for x in xs])


def same(a, b):
    """syntactically the same value (a shortcut, no solver)"""
    if a is b:
        return True
    ea, eb = getattr(a, '_e', None), getattr(b, '_e', None)
    if ea is not None and ea is eb:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def multiset_eq(S, a, b):
    """no forks: the two lists are permutations of each other"""
    if len(a) != len(b):
        return False
    a, b = list(a), list(b)
    rest = []
    for x in a:
        for i, y in enumerate(b):
            if same(x, y):
                del b[i]
                break
        else:
            rest.append(x)
    return S.And(True, *[count(S, rest, v) == count(S, b, v) for v in rest])


def ascending(S, xs):
    return S.And(True, *[xs[i] <= xs[i + 1] for i in range(len(xs) - 1)])


def all_le(S, x, xs):
    return S.And(True, *[x <= y for y in xs])


def member(S, x, xs):
    return S.Or(False, *[S.eq(x, y) for y in xs])


class Clock:
    """stub clock: arbitrary non-decreasing instants; each reading is a fresh symbolic variable
    unless frozen"""

    def __init__(self, S, name='t', lo=0, hi=None):
        self.S = S
        self.name = name
        self.now = lo
        self.hi = hi
        self.readings = []

    def __call__(self):
        self.readings.append(self.now)
        return self.now

    def advance(self, hi=None):
        """let an arbitrary non-negative amount of time pass"""
        d = self.S.int(self.name, 0, hi if hi is not None else self.hi)
        self.now = self.now + d
        return self.now
