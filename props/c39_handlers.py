import _thread
import contextlib
import io
import logging
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time
import warnings

from engine.harness import Registry
from engine.sched import Threads
from satella.exception_handling import (
    AsStream, BaseExceptionHandler, DumpToFileHandler, FunctionExceptionHandler, GlobalExcepthook,
    MemoryErrorExceptionHandler, exception_handler)
from satella.exception_handling import global_eh
from satella.instrumentation import Traceback

R = Registry('C39', assumptions=[
    'the interpreter calls sys.excepthook with what has not been caught, outside of any handler',
    'killing is replaced with a model'])


@contextlib.contextmanager
def patched(*patches):
    old = [(obj, attr, getattr(obj, attr)) for obj, attr, _ in patches]
    try:
        for obj, attr, value in patches:
            setattr(obj, attr, value)
        yield
    finally:
        for obj, attr, value in old:
            setattr(obj, attr, value)


class CheapTraceback:
    """stands in for Traceback, which would render the frames of this checker"""

    def pretty_print(self, output=None):
        pass


@contextlib.contextmanager
def hooks_restored():
    hook = GlobalExcepthook()
    before = list(hook.installed_hooks)
    ignore = hook.ignore_failed_hooks
    err = io.StringIO()
    patches = [(sys, 'stderr', err)]
    if hasattr(global_eh, 'Traceback'):
        patches.append((global_eh, 'Traceback', CheapTraceback))
    try:
        with patched(*patches), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield err
    finally:
        hook.installed_hooks[:] = before
        hook.ignore_failed_hooks = ignore


class Unseen(Exception):
    pass


class Handler(BaseExceptionHandler):
    def __init__(self, fun, *args):
        super().__init__(*args)
        self.fun = fun

    def handle_exception(self, type_, value, traceback):
        return self.fun(type_, value, traceback)


def exception_of(type_):
    try:
        raise type_('unseen error')
    except BaseException as e:
        return type_, e, e.__traceback__


def reported(err):
    return any(line.endswith('Unseen: unseen error') for line in err.getvalue().splitlines())


def unseen(f):
    """how the interpreter calls the hook: outside of any handler"""
    out = []

    def body():
        try:
            out.append(('ok', f()))
        except BaseException as e:
            out.append(('exc', e))
    body()
    if out[0][0] == 'exc':
        raise out[0][1]
    return out[0][1]


@R.harness(quick=[dict(n=2, again=False), dict(n=1, again=True)], thorough=[dict(n=3, again=False), dict(n=2, again=True)],
           labels=['intercepted', 'reported', 'failed', 'strict', 'removed', 'installed twice', 'reordered', 'same priority',
                   'SystemExit', 'sequence', 'not installed'],
           bounds='up to n handlers of any priorities, of each kind, that return or raise anything, and two exceptions if "again"')
def chain(S, n, again):
    with hooks_restored() as err:
        type_ = S.pick('type', [Unseen, SystemExit])
        args = exception_of(type_)
        log = []
        handlers = []       # those installed: (handler, priority, index, is a function)
        behaviours = {}

        def make(i):
            def fun(t, v, tb):
                S.check(t is args[0] and v is args[1] and tb is args[2], 'the arguments')
                log.append(i)
                if behaviours[i] == 'raise':
                    raise RuntimeError('hook')
                if behaviours[i] == 'reraise':
                    raise v if type_ is Unseen else RuntimeError('hook')
                return behaviours[i]
            return fun

        for i in range(n):
            kind = S.pick('kind', ['class', 'decorated', 'callable', 'default'])
            priority = S.int('priority', -1500, 1500) if kind in ('class', 'decorated') else 0
            fun = make(i)
            if kind == 'class':
                h = Handler(fun, priority)
                S.check(h.install() is h, 'install returns the handler')
            elif kind == 'decorated':
                h = FunctionExceptionHandler(fun, priority)
                h.install()
            elif kind == 'default':
                h = exception_handler(fun)
                h.install()
            else:
                h = GlobalExcepthook().add_hook(fun)
            handlers.append((h, priority, i, kind != 'class'))
        change = S.pick('change', [None, 'remove', 'twice', 'remove and install'])
        k = S.choice('which', n) if change else 0
        if change == 'remove':
            handlers[k][0].uninstall()
            gone = handlers.pop(k)
            S.expect_raises(ValueError, gone[0].uninstall, msg='a handler that is not installed')
            S.reach('removed')
        elif change == 'twice':
            handlers[k][0].install()
            S.reach('installed twice')
        elif change:
            handlers[k][0].uninstall()
            handlers[k][0].install()
            handlers.append(handlers.pop(k))
        strict = S.flag('strict')
        if strict:
            GlobalExcepthook().ignore_failed_hooks = False
        for i in range(n):
            behaviours[i] = S.pick('does', [None, True, 'raise', 'reraise'] + ([(), (False, True), (False,), [True]] if n == 1 else []))
        for round_ in range(1 + again):
            del log[:]
            err.seek(0)
            err.truncate()
            raised, e = S.raises(NotImplementedError, lambda: unseen(lambda: sys.excepthook(*args)))
            called = [h for h in handlers if not (h[3] and type_ is SystemExit)]
            if type_ is SystemExit and len(called) < len(handlers):
                S.reach('SystemExit')
            order = []
            for i in log:
                S.check(i in [h[2] for h in called], 'a handler that should not run')
                order.append([h for h in handlers if h[2] == i][0])
            S.check_eq(len(set(log)), len(log), 'each handler runs once')
            position = {h[2]: p for p, h in enumerate(handlers)}
            for a, b in zip(order, order[1:]):
                later = position[a[2]] < position[b[2]]
                S.check(S.Or(a[1] < b[1], S.And(S.eq(a[1], b[1]), later)), 'runs before one of a smaller priority')
                S.reach('reordered' if not later else 'same priority')
            stopped = None
            for p, h in enumerate(order):
                b = behaviours[h[2]]
                if b in ('raise', 'reraise'):
                    S.reach('failed')
                    if strict:
                        stopped = 'strict'
                        S.reach('strict')
                else:
                    if isinstance(b, (tuple, list)):
                        S.reach('sequence')
                        b = any(b) if h[3] else bool(b)
                    if b:
                        stopped = 'intercepted'
                        S.reach('intercepted')
                if stopped:
                    S.check(p == len(order) - 1, 'goes on after being intercepted')
                    for other in called:
                        if other[2] not in log:
                            S.check(S.Or(h[1] < other[1], S.And(S.eq(h[1], other[1]), position[h[2]] < position[other[2]])),
                                    'one of a smaller priority did not run')
            S.check_eq(raised, stopped == 'strict', 'NotImplementedError')
            if stopped is None:
                S.check_eq(len(order), len(called), 'all of them run')
            if type_ is Unseen:
                S.check_eq(reported(err), stopped is None, 'reported to the user unless it was intercepted')
                if stopped is None:
                    S.reach('reported')
        if not handlers:
            S.reach('not installed')


@R.harness(quick=[dict()], labels=['in a thread', 'subclass', 'no exception', 'SystemExit', 'intercepted', 'two'],
           bounds='two threads, of each kind, raising or not')
def in_threads(S):
    with hooks_restored() as err, Threads(S, 0) as sc:
        seen = []
        intercepts = S.flag('intercepts')

        @exception_handler(priority=0)
        def handler(type_, value, traceback):
            seen.append((threading.current_thread(), type_, value, traceback))
            return intercepts

        handler.install()
        raising = []

        def make():
            what = S.pick('what', [None, Unseen, SystemExit])

            def work(x, y=None):
                S.check_eq((x, y), (1, 2), 'arguments')
                sc.sleep(1)
                if what is not None:
                    raise what('unseen error')

            if S.flag('subclass'):
                class T(threading.Thread):
                    def run(self):
                        work(1, 2)
                S.reach('subclass')
                return T(), what
            return threading.Thread(target=work, args=(1,), kwargs={'y': 2}), what

        def go():
            threads = [make() for _ in range(2)]
            for t, _ in threads:
                t.start()
            for t, _ in threads:
                t.join()
            return threads

        result, = sc.run(go)
        threads = sc.value(result)
        want = [t for t, what in threads if what is Unseen]
        S.check_eq({id(t) for t, *_ in seen}, {id(t) for t in want}, 'exceptions of which threads')
        S.check_eq(len(seen), len(want), 'each is handled once')
        for t, type_, value, tb in seen:
            S.check(type_ is Unseen and type(value) is Unseen and tb is not None, 'what is given to the handler')
        S.check_eq(reported(err), bool(want) and not intercepts, 'reported')
        if want:
            S.reach('in a thread')
            if intercepts:
                S.reach('intercepted')
            if len(want) == 2:
                S.reach('two')
        for _, what in threads:
            if what is None:
                S.reach('no exception')
            elif what is SystemExit:
                S.reach('SystemExit')


class Died(BaseException):
    pass


class MyMemoryError(MemoryError):
    pass


@R.harness(quick=[dict()], labels=['killed', 'group', 'spared', 'other', 'hook failed', 'stderr failed', 'first'],
           bounds='any exception, hook and process group')
def memory_errors(S):
    pid, pgid = S.int('pid', 2, 9999), S.int('pgid', 2, 9999)
    type_ = S.pick('type', [MemoryError, MyMemoryError, Unseen])
    hook = S.pick('hook', ['none', False, None, True, (False, True), [], 'raise'])
    called, done = [], []
    args = exception_of(type_)

    def custom(*a):
        called.append(a)
        if hook == 'raise':
            raise RuntimeError()
        return hook

    def kill(what):
        def fn(target, signum):
            done.append((what, target, int(signum)))
            raise Died()
        return fn

    class Broken:
        def write(self, x):
            raise OSError()

        def flush(self):
            raise OSError()

    kill_pg = S.pick('kill_pg', [None, True, False])
    kwargs = {} if kill_pg is None else {'kill_pg': kill_pg}
    if hook != 'none':
        kwargs['custom_hook'] = custom
    broken = S.flag('stderr broken')
    other = []
    with hooks_restored(), patched(
            (os, 'kill', kill('process')), (os, 'killpg', kill('group')), (os, 'getpid', lambda: pid),
            (os, 'getpgid', lambda p: pgid), (os, 'getpgrp', lambda: pgid), (time, 'sleep', lambda secs: None)):
        if broken:
            sys.stderr = Broken()

        class Other(BaseExceptionHandler):
            def handle_exception(self, *a):
                other.append(a)
                return True

        Other(-999).install()
        MemoryErrorExceptionHandler(**kwargs).install()
        died = False
        for i in range(2):
            try:
                unseen(lambda: sys.excepthook(*args))
            except Died:
                died = True
    is_memory = type_ is not Unseen
    if not is_memory:
        S.check(not called and not died, 'not a MemoryError')
        S.check_eq(len(other), 2, 'handled by others')
        S.reach('other')
        return
    S.check_eq(len(called), 0 if hook == 'none' else 2, 'the hook is asked')
    S.check(all(a[0] is args[0] and a[1] is args[1] and a[2] is args[2] for a in called), 'the arguments of the hook')
    S.check_eq(other, [], 'others are not called')
    S.reach('first')
    if hook is True or hook == (False, True):
        S.check(not died and not done, 'the hook has taken care of it')
        S.reach('spared')
        return
    S.check(died, 'terminates')
    if hook == 'raise':
        S.reach('hook failed')
    if broken:
        S.reach('stderr failed')
    for what, target, signum in done:
        S.check_eq(signum, 9, 'signal')
        S.check(target == pid, 'itself')
        if kill_pg and pid == pgid:
            S.check(what == 'group', 'the group')
            S.reach('group')
        else:
            S.check(what == 'process', 'the process only')
            S.reach('killed')


# ---------------------------------------------------------------------------- dumping
SOURCE = '''
def inner(secret):
    token = secret
    raise Unseen('unseen error')

def outer(run):
    hidden = 5
    try:
        inner('some secret')
    except BaseException as e:
        args = Unseen, e, e.__traceback__
        if within:
            handle(args)
            return
    handle(args)
'''


def isolated(handle, within):
    """raises an exception in a thread whose stack has no frames of this checker, and calls handle"""
    done = _thread.allocate_lock()
    done.acquire()
    out = []

    def finish(args):
        try:
            out.append(handle(args))
        except BaseException as e:
            out.append(e)
        finally:
            done.release()

    space = {'Unseen': Unseen, 'handle': finish, 'within': within, '__builtins__': {'BaseException': BaseException}}
    exec(compile(SOURCE, 'isolated.py', 'exec'), space)
    _thread.start_new_thread(space['outer'], (None,))
    done.acquire()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


class Logger(logging.Logger):
    def __init__(self):
        super().__init__('test')
        self.records = []

    def isEnabledFor(self, level):
        return True

    def handle(self, record):
        self.records.append(record)


class NoFlush:
    def __init__(self):
        self.data = None

    def write(self, x):
        self.data = x if self.data is None else self.data + x


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['stream', 'file', 'directory', 'nothing', 'logger', 'level', 'wrapped', 'no flush', 'within', 'outside',
                   'pickle', 'invalid', 'twice'],
           bounds='up to n outputs of any kinds, each kind of exception report; called within a handler or outside of any')
def dumping(S, n):
    d = tempfile.mkdtemp(prefix='verif-c39-')
    try:
        readables, pickles, checks, into = [], [], [], {}
        for i in range(S.choice('outputs', n) + 1):
            text = not S.flag('pickle')
            options = ['stream', 'file', 'directory', 'nothing', 'no flush'] + (['logger', 'level'] if text else [])
            kind = S.pick('output', options)
            S.reach(kind)
            if not text:
                S.reach('pickle')
            if kind in ('stream', 'no flush'):
                x = (io.StringIO() if text else io.BytesIO()) if kind == 'stream' else NoFlush()
                checks.append((text, lambda x=x: x.getvalue() if hasattr(x, 'getvalue') else x.data))
            elif kind == 'file':
                x = os.path.join(d, 'file%s' % i)
                checks.append((text, lambda x=x: read(x)))
            elif kind == 'directory':
                x = os.path.join(d, 'dir%s' % text)     # each output has a file of its own there
                if not os.path.isdir(x):
                    os.mkdir(x)
                into[text] = into.get(text, 0) + 1
                checks.append((text, lambda x=x, text=text: only(S, x, into[text])))
            elif kind == 'nothing':
                x = None
            else:
                logger = Logger()
                x = logger if kind == 'logger' else (logger, logging.WARNING)
                checks.append((kind, logger))
            if S.flag('wrapped'):
                x = AsStream(x, text)
                S.reach('wrapped')
            (readables if text else pickles).append(x)
        within = S.flag('within')
        S.reach('within' if within else 'outside')
        handler = DumpToFileHandler(readables, pickles) if pickles or S.flag('given') else DumpToFileHandler(readables)
        twice = S.flag('twice')
        if twice:
            S.reach('twice')

        def handle(args):
            for _ in range(1 + twice):
                result = handler.handle_exception(*args)
            return result

        S.check(not isolated(handle, within), 'not intercepted')
        for text, get in checks:
            if isinstance(get, Logger):
                S.check_eq(len(get.records), 1 + twice, 'logged')
                for record in get.records:
                    S.check_eq(record.levelno, logging.ERROR if text == 'logger' else logging.WARNING, 'level')
                    S.check_eq(record.getMessage(), 'unseen error', 'message')
                    S.check(record.exc_info is not None and record.exc_info[0] is Unseen, 'the exception')
            elif text is True:
                data = get()
                content(S, data.decode('utf-8') if isinstance(data, bytes) else data)
            else:
                data = get()
                tb = Traceback.from_pickle(data)
                S.check_eq([f.name for f in tb.frames][:2], ['inner', 'outer'], 'frames')
                S.check_eq(tb.frames[0].locals['token'].load_value(), 'some secret', 'values')
                S.check('Unseen: unseen error' in tb.formatted_traceback, 'the exception')
        bad = S.pick('bad', [None, 5, ('a', 1)])
        if bad is not None:
            S.expect_raises(TypeError, lambda: AsStream(bad, True), msg='an invalid stream')
            S.expect_raises(TypeError, lambda: DumpToFileHandler([bad]), msg='an invalid stream')
            S.reach('invalid')
    finally:
        shutil.rmtree(d)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def only(S, directory, n):
    files = os.listdir(directory)
    S.check_eq(len(files), n, 'a file for each')
    return read(os.path.join(directory, files[0]))


def content(S, text):
    S.check('Unseen: unseen error' in text, 'the exception')
    S.check("token: 'some secret'" in text, 'local variables of the frame that raised')
    S.check('hidden: 5' in text, 'local variables of its callers')
