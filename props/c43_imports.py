import importlib
import itertools
import os
import random
import shutil
import string
import sys
import tempfile
import warnings

from engine.harness import Registry
from satella.imports import import_class, import_from
from satella.random import random_binary, random_word, shuffle_together

R = Registry('C43', assumptions=[
    'importing single modules is what the standard library does; packages are in a scratch directory',
    'the generator of random numbers may yield anything; distributions are not covered'])

counter = itertools.count()


class Packages:
    """a scratch directory to import from; what was imported is forgotten afterwards"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-c43-')
        self.second = os.path.join(self.dir, 'second')
        self.first = os.path.join(self.dir, 'first')
        os.mkdir(self.first)
        os.mkdir(self.second)
        self.name = 'verif_c43_%d_%d' % (os.getpid(), next(counter))
        sys.path.insert(0, self.first)
        self.dont = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        self.modules = set(sys.modules)
        return self

    def __exit__(self, *args):
        sys.path.remove(self.first)
        sys.dont_write_bytecode = self.dont
        for name in set(sys.modules) - self.modules:
            if name.split('.')[0] == self.name:
                del sys.modules[name]
        sys.path_importer_cache.pop(self.first, None)
        for p in list(sys.path_importer_cache):
            if p.startswith(self.dir):
                del sys.path_importer_cache[p]
        shutil.rmtree(self.dir)

    def write(self, path, text, where=None):
        path = os.path.join(where or self.first, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def root(self):
        importlib.invalidate_caches()
        return importlib.import_module(self.name)


def source(all_, names):
    return ('' if all_ is None else '__all__ = %r\n' % (all_,)) + ''.join('%s = %r\n' % (n, n + '!') for n in names)


@R.harness(quick=[dict()], thorough=[dict()],
           labels=['module', 'without __all__', 'missing attribute', 'ignored attribute', 'underscored', 'package',
                   'not recursive', 'package without __all__', 'created', 'skipped', 'nested', 'hidden package', 'hidden module',
                   'namesake', 'two directories', 'already there'],
           bounds='a package with a module, a package nested up to two deep, of any names, with any kinds of __all__, '
                  'all options')
def packages(S):
    scenario = S.pick('scenario', ['module', 'package', 'deep', 'odd'])
    opts = {}
    create = skip_under = fail = recursive = True
    skip_all = False
    if S.flag('no underscores skipped'):
        opts['skip_single_underscores'] = skip_under = False
    if S.flag('skip without all'):
        opts['skip_not_having_all'] = skip_all = True
    with Packages() as p, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n = p.name
        root_all = ['present'] if S.flag('present') else []
        if scenario == 'module':
            p.write(n + '/__init__.py', source(root_all, ['present']))
            modname = S.pick('name', ['mod', '_mod'])
            all_ = S.pick('all', [None, [], ['a'], ['a', '_b'], ['present', 'a'], ['a', 'missing']])
            p.write('%s/%s.py' % (n, modname), source(all_, ['a', '_b', 'present']))
            if S.flag('ignore attributes'):
                opts['fail_on_attributerror'] = fail = False
            if S.flag('not recursive'):
                opts['recursive'] = recursive = False
            hidden = modname == '_mod' and skip_under
            names = ['a', '_b', 'present'] if all_ is None else all_
            if hidden or (all_ is None and skip_all):
                names = []
                S.reach('hidden module' if hidden else 'skipped')
            elif all_ is None:
                S.reach('without __all__')
            names = [x for x in names if not (skip_under and x.startswith('_'))]
            root = p.root()
            loc, acc = {}, list(root_all)
            call = lambda: import_from(root.__path__, n, acc, loc, **opts)
            if 'missing' in names and fail:
                S.expect_raises(AttributeError, call, msg='a name in __all__ that is not there')
                S.reach('missing attribute')
                return
            call()
            if 'missing' in names:
                names.remove('missing')
                S.reach('ignored attribute')
            if any(x.startswith('_') for x in names):
                S.reach('underscored')
            if 'present' in names and root_all:
                S.reach('already there')
            want = root_all + [x for x in names if x not in root_all]
            own = [x for x in acc if not x.startswith('__')]
            S.check(sorted(own) == sorted(want), lambda: '__all__ is %r, expected %r' % (acc, want))
            S.check(len(set(acc)) == len(acc), 'nothing is repeated')
            for x in names:
                S.check(loc.get(x) == x + '!', lambda: '%s is missing' % (x,))
            S.check({x for x in loc if not x.startswith('__')} == set(names), lambda: 'imports %r' % (sorted(loc),))
            S.reach('module')
            return
        sub = S.pick('sub', ['sub', '_sub', 'json']) if scenario != 'deep' else 'sub'
        all_ = S.pick('all', [None, [], ['own'], ['mod']])
        p.write(n + '/__init__.py', source([], []))
        where = None
        if scenario == 'odd':
            # a package that is spread over two directories
            p.write(n + '/__init__.py', '__path__ = [%r, %r]\n' % (os.path.join(p.first, n), os.path.join(p.second, n)))
            p.write(n + '/other.py', source(['other'], ['other']))
            where = p.second
            S.reach('two directories')
        if sub == 'json':
            S.reach('namesake')
        p.write('%s/%s/__init__.py' % (n, sub), source(all_, ['own']), where)
        p.write('%s/%s/mod.py' % (n, sub), source(['x'], ['x']), where)
        if scenario == 'deep':
            deeper = S.pick('deeper', ['deeper', '_deeper'])
            deeper_all = S.pick('deeper all', [None, ['y']])
            p.write('%s/%s/%s/__init__.py' % (n, sub, deeper), source(deeper_all, ['y']), where)
            p.write('%s/%s/%s/leaf.py' % (n, sub, deeper), source(['z'], ['z']), where)
        if S.flag('not recursive'):
            opts['recursive'] = recursive = False
            S.reach('not recursive')
        if S.flag('no creation'):
            opts['create_all'] = create = False
        root = p.root()
        loc, acc = {}, root_all
        import_from(root.__path__, n, acc, loc, **opts)
        taken = recursive and not (sub == '_sub' and skip_under) and not (all_ is None and skip_all)
        want = list(dict.fromkeys(root_all + (['other'] if scenario == 'odd' else []) + ([sub] if taken else [])))
        S.check(sorted(acc) == sorted(want), lambda: '__all__ is %r, expected %r' % (acc, want))
        S.check(set(loc) == set(want) - {'present'}, lambda: 'imports %r' % (sorted(loc),))
        if not taken:
            if recursive:
                S.reach('hidden package' if sub == '_sub' and skip_under else 'skipped')
            return
        module = sys.modules['%s.%s' % (n, sub)]
        S.check(loc[sub] is module, 'the package')
        S.check(module.x == 'x!', 'what it consists of is imported')
        S.reach('package')
        sub_all = (all_ or []) + ['x']
        if scenario == 'deep' and not (deeper == '_deeper' and skip_under) and not (deeper_all is None and skip_all):
            sub_all.append(deeper)
            d = sys.modules['%s.%s.%s' % (n, sub, deeper)]
            S.check(getattr(module, deeper) is d and d.z == 'z!', 'what is nested is imported')
            if deeper_all is not None or create:
                S.check(sorted(d.__all__) == sorted((deeper_all or []) + ['z']), 'its __all__')
            S.reach('nested')
        if all_ is None:
            S.reach('package without __all__')
            if not create:
                S.check(not hasattr(module, '__all__'), 'is not given an __all__')
                return
            S.reach('created')
        S.check(sorted(module.__all__) == sorted(sub_all), lambda: '__all__ is %r, expected %r' % (module.__all__, sub_all))


@R.harness(quick=[dict()], labels=['found', 'no attribute', 'no module'], bounds='packages nested up to 2 deep')
def classes(S):
    with Packages() as p:
        n = p.name
        p.write(n + '/__init__.py', 'class A: pass\n')
        p.write(n + '/mod.py', 'class B: pass\nclass A: pass\n')
        module = S.pick('module', ['', '.mod', '.missing', '.mod.missing'])
        cls = S.pick('class', ['A', 'B', 'C'])
        p.root()
        path = '%s%s.%s' % (n, module, cls)
        there = {'': ['A'], '.mod': ['A', 'B']}.get(module, [])
        if cls in there:
            got = import_class(path)
            S.check(got is getattr(sys.modules[n + module], cls), 'the class')
            S.reach('found')
        else:
            S.expect_raises(ImportError, lambda: import_class(path), msg='there is no such class')
            S.reach('no module' if 'missing' in module else 'no attribute')


class anything:
    """the generator of random numbers yields whatever it may"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        self.below = random.Random._randbelow
        S = self.S
        random.Random._randbelow = lambda self, n, *args, **kwargs: S.choice('random', n) if n > 1 else 0
        return self

    def __exit__(self, *args):
        random.Random._randbelow = self.below


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
           labels=['word', 'joined', 'default', 'shuffled', 'moved', 'nothing', 'binary', 'no device', 'empty'],
           bounds='everything that can be drawn; up to n elements, of any values')
def drawing(S, n):
    kind = S.pick('kind', ['word', 'default', 'shuffle', 'binary'])
    m = S.choice('length', n + 1)
    if not m:
        S.reach('empty')
    if kind == 'word':
        choice = S.pick('choice', [[S.int('a'), S.int('b')], 'xyz', ('q',)])
        with anything(S):
            if isinstance(choice, str) and S.flag('default join'):
                w = list(random_word(m, choice))
            else:
                w = random_word(m, choice, lambda v: ('joined', list(v)))
                S.check(w[0] == 'joined', 'joined as requested')
                w = w[1]
                S.reach('joined')
        S.check_eq(len(w), m, 'the length')
        for c in w:
            S.check(S.Or(*[S.eq(c, o) for o in choice]), 'one of those to choose from')
        S.reach('word')
    elif kind == 'default':
        w = random_word(m)
        S.check(type(w) is str and len(w) == m and all(c in string.ascii_lowercase for c in w), 'a word')
        S.reach('default')
    elif kind == 'shuffle':
        k = S.choice('lists', 3)
        if not k:
            S.check(shuffle_together() == [], 'nothing to shuffle')
            S.reach('nothing')
            return
        vals = [[(i, S.int('v')) for i in range(m)] for _ in range(k)]
        args = [S.pick('type', [list, tuple])(v) for v in vals]
        with anything(S):
            out = shuffle_together(*args)
        S.check_eq([list(a) for a in args], vals, 'the arguments are left alone')
        S.check(len(out) == k and all(type(o) is list and len(o) == m for o in out), 'the lists')
        order = [e[0] for e in out[0]]
        S.check(sorted(order) == list(range(m)), 'nothing is lost')
        for o, v in zip(out, vals):
            S.check_eq(o, [v[i] for i in order], 'all of them in the same order')
        S.reach('moved' if order != list(range(m)) else 'shuffled')
    else:
        device = S.flag('device')
        exists = os.path.exists
        if not device:
            os.path.exists = lambda p: False if p == '/dev/random' else exists(p)
            S.reach('no device')
        try:
            b = random_binary(m)
        finally:
            os.path.exists = exists
        S.check(type(b) is bytes and len(b) == m, 'bytes')
        S.reach('binary')
