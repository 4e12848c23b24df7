import builtins
import contextlib
import io
import os
import posixpath
import re
import shutil
import tempfile

from engine.harness import Registry
from satella.files import (
    AutoflushFile, DevNullFilelikeObject, find_files, jump_to_directory, make_noncolliding_name, read_in_file,
    read_lines, read_re_sub_and_write, split, try_unlink, write_out_file_if_different, write_to_file)

R = Registry('C34', assumptions=[
    'the operating system handles files as POSIX says; everything is done in a scratch directory',
    'what happens when the machine fails halfway through a write is not covered'])


@contextlib.contextmanager
def scratch():
    """a scratch directory, that is also the current one"""
    d = tempfile.mkdtemp(prefix='verif-c34-')
    prev = os.getcwd()
    os.chdir(d)
    try:
        yield os.getcwd()
    finally:
        os.chdir(prev)
        shutil.rmtree(d, ignore_errors=True)


class Opened:
    """stands in for open(), remembering the files and how they were opened"""

    def __init__(self):
        self.files = []

    def __call__(self, *args, **kwargs):
        f = self.open(*args, **kwargs)
        self.files.append((f, f.mode))
        return f

    def __enter__(self):
        self.open = io.open
        builtins.open = io.open = self
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.open
        for f, _ in self.files:
            f.close()

    def all_closed(self):
        return all(f.closed for f, _ in self.files)

    def written(self):
        return any('r' not in mode or '+' in mode for f, mode in self.files)


MODES = ['a', 'a+', 'w', 'w+', 'ab', 'ab+', 'wb', 'wb+']


@R.harness(quick=[dict(n=2, modes=MODES), dict(n=3, modes=['a+', 'ab+', 'wb'])],
           thorough=[dict(n=3, modes=MODES), dict(n=4, modes=['a+', 'wb+'])],
           labels=['write', 'read', 'readall', 'seek', 'truncate', 'closed', 'truncated at start', 'appended', 'binary',
                   'read back'],
           bounds='n operations on a file, present or not, opened in each of the modes')
def autoflush(S, n, modes):
    mode = S.pick('mode', modes)
    binary = 'b' in mode
    conv = (lambda x: x.encode()) if binary else (lambda x: x)
    kwargs = {} if binary else dict(encoding='utf-8')
    with scratch(), Opened() as opened:
        content = ''
        if S.flag('exists'):
            content = 'xyz'
            with open('f', 'w') as f:
                f.write(content)
        af = AutoflushFile('f', mode, **kwargs)
        if mode[0] == 'w':
            if content:
                S.reach('truncated at start')
            content = ''
        elif content:
            S.reach('appended')
        if binary:
            S.reach('binary')
        ptr = len(content)

        def disk(msg):
            S.check(opened.all_closed(), msg + ': the file is left open')
            with open('f', 'rb') as f:
                S.check_eq(f.read().decode(), content, msg + ': what others see')

        disk('opened')
        ops = ['write', 'seek', 'truncate'] + (['read', 'readall'] if '+' in mode else []) + ['close']
        for i in range(n):
            op = S.pick('op', ops)
            S.reach(op if op != 'close' else 'closed')
            if op == 'write':
                data = S.pick('data', ['', 'a', 'bcd'])
                S.check_eq(af.write(conv(data)), len(data), 'write returns the amount')
                if data:
                    content += data
                    ptr = len(content)
                else:
                    ptr = None          # not specified: may or may not have moved to the end
            elif op == 'seek':
                if S.flag('end'):
                    r = af.seek(0, os.SEEK_END)
                    ptr = len(content)
                else:
                    ptr = S.conc(S.int('offset', 0, 4))
                    r = af.seek(ptr)
                S.check_eq(r, ptr, 'seek returns the position')
            elif op == 'truncate':
                size = S.conc(S.int('size', 0, len(content)))
                af.truncate(size)
                content = content[:size]
            elif op == 'close':
                af.close()
                for call in (lambda: af.write(conv('a')), lambda: af.seek(0), lambda: af.truncate(0), af.read,
                             af.readall):
                    S.expect_raises(ValueError, call, msg='used after being closed')
                disk('closed')
                return
            elif ptr is None:
                af.seek(0)
                ptr = 0
                continue
            else:
                want = content[ptr:]
                if op == 'read':
                    k = S.conc(S.int('k', 0, 4))
                    if k < 4:
                        want = want[:k]
                        got = af.read(k)
                    else:
                        got = af.read()
                else:
                    got = af.readall()
                S.check_eq(got, conv(want), op + ' returns the content')
                ptr += len(want)
                if want:
                    S.reach('read back')
            disk(op)


@R.harness(quick=[dict()], labels=['refused'], bounds='each of the modes')
def unsupported(S):
    with scratch():
        mode = S.pick('mode', ['r', 'rb', 'x', 'r+', 'rb+', 'ba', 't', ''])
        S.expect_raises(ValueError, lambda: AutoflushFile('f', mode), msg='an unsupported mode')
        S.reach('refused')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)], labels=['absolute', 'relative', 'single'],
           bounds='any path up to n characters long, without drive letters')
def splitting(S, n):
    path = ''
    for i in range(1 + S.choice('len', n)):
        c = S.pick('char', ['a', '/', '.', '\\'])
        if path.endswith('/'):
            S.assume(c != '/')
        path += c
    parts = split(path)
    S.check_eq(os.path.join(*parts), path, 'joining is the reverse')
    for i, p in enumerate(parts):
        S.check('/' not in p or (i == 0 and p == '/'), 'a part that is not split')
    S.check_eq([p for p in parts if p], [p for p in re.split('(^/)|/', path) if p], 'parts')
    S.reach('absolute' if path[0] == '/' else ('relative' if '/' in path else 'single'))


@R.harness(quick=[dict()], labels=['free', 'taken', 'extension', 'plain', 'real'], bounds='up to 4 names that are taken')
def noncolliding(S):
    directory = S.pick('dir', ['', 'x', 'x.d', '/x/y', '/'])
    stem, ext = S.pick('name', [('test', '.txt'), ('test', ''), ('', '.hidden'), ('a.b', '.gz'), ('a.1', '.txt')])
    limit = S.pick('limit', [4, 12])

    def candidate(k):
        return posixpath.join(directory, stem + ('.%s' % k if k else '') + ext)

    names = [candidate(k) for k in range(limit + 1)]
    taken = {}

    def checker(path):
        if path not in taken:
            taken[path] = path in names[:limit] and (limit > 4 or S.flag('taken'))
        return taken[path]

    S.reach('extension' if ext else 'plain')
    if S.flag('real'):
        S.assume(directory == 'x.d')
        with scratch():
            os.mkdir('x.d')
            for name in names:
                if checker(name):
                    write_to_file(name, b'')
            got = make_noncolliding_name(names[0])
            S.reach('real')
    else:
        got = make_noncolliding_name(names[0], checker)
    k = 0
    while checker(candidate(k)):
        k += 1
    S.check_eq(got, candidate(k), 'the first name that is not taken')
    S.reach('taken' if k else 'free')


def text(S, n, chars=('a', ' ', '\n', '\r\n', '\u017c')):
    return ''.join(S.pick('char', chars) for _ in range(S.choice('len', n + 1)))


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)],
           labels=['bytes', 'text', 'missing', 'directory', 'written', 'left alone', 'created'],
           bounds='contents of up to n characters, line ends and non-ASCII ones included')
def reading_and_writing(S, n):
    encoding = S.pick('encoding', [None, 'utf-8', 'utf-16'])
    conv = (lambda x: x.encode('utf-8')) if encoding is None else (lambda x: x)
    S.reach('bytes' if encoding is None else 'text')
    a = conv(text(S, n))
    with scratch(), Opened() as opened:
        for path, label in (('missing', 'missing'), ('d', 'directory')):
            if label == 'directory':
                os.mkdir('d')
            S.expect_raises(FileNotFoundError, lambda: read_in_file(path, encoding), msg='not a file')
            for default in (None, conv('z')):
                S.check_eq(read_in_file(path, encoding, default), default, 'the default')
            S.reach(label)
        exists = S.flag('exists')
        if exists:
            write_to_file('f', a, encoding)
            S.check_eq(read_in_file('f', encoding), a, 'read as written')
            S.check_eq(read_in_file('f', encoding, conv('q')), a, 'the default is used when there is a file')
            S.check_eq(open_raw('f'), a if encoding is None else a.encode(encoding), 'encoding')
        S.check(opened.all_closed(), 'a file is left open')
        b = conv(text(S, n))
        opened.files.clear()
        r = write_out_file_if_different('f', b, encoding)
        S.check_eq(r, not exists or a != b, 'tells whether it was written')
        if r:
            S.reach('written' if exists else 'created')
        else:
            S.check(not opened.written(), 'opened for writing, though nothing has changed')
            S.reach('left alone')
        S.check_eq(open_raw('f'), b if encoding is None else b.encode(encoding), 'the content')
        S.check(opened.all_closed(), 'a file is left open')


def open_raw(path):
    with open(path, 'rb') as f:
        return f.read()


@R.harness(quick=[dict(n=4)], thorough=[dict(n=6)], labels=['kept', 'dropped', 'no end of line'],
           bounds='files of up to n tokens')
def lines(S, n):
    content = text(S, n, ('a', ' ', '\n', '#\u017c'))
    drop = S.flag('drop')
    encoding = S.pick('encoding', ['utf-8', 'utf-16'])
    with scratch():
        with open('f', 'wb') as f:
            f.write(content.encode(encoding))
        got = read_lines('f', **(dict(encoding=encoding) if encoding != 'utf-8' or S.flag('given') else {}),
                         **({} if drop and S.flag('default') else dict(delete_empty_lines=drop)))
    want = content.split('\n')
    if not want[-1]:
        want.pop()
    else:
        S.reach('no end of line')
    want = [line.strip() for line in want]
    if drop:
        if '' in want:
            S.reach('dropped')
        want = [line for line in want if line]
    elif '' in want:
        S.reach('kept')
    S.check_eq(got, want, 'lines')


@R.harness(quick=[dict(n=4)], thorough=[dict(n=5)], labels=['substituted', 'function', 'compiled', 'shorter'],
           bounds='files of up to n tokens')
def substitution(S, n):
    content = text(S, n, ('ab', 'a' * 9, '\n'))
    pattern, repl = 'a(b?)', S.pick('repl', ['', 'xyz', r'\1', 'fn'])
    if repl == 'fn':
        def repl(m):
            return '<' + m.group(1) + '>'
        S.reach('function')
    compiled = S.flag('compiled')
    if compiled:
        S.reach('compiled')
    with scratch(), Opened() as opened:
        write_to_file('f', content, 'utf-8')
        read_re_sub_and_write('f', re.compile(pattern) if compiled else pattern, repl)
        want = re.sub(pattern, repl, content)
        S.check_eq(read_in_file('f', 'utf-8'), want, 'everything is substituted')
        S.check(opened.all_closed(), 'a file is left open')
    if want != content:
        S.reach('substituted')
    if len(want) < len(content):
        S.reach('shorter')


@R.harness(quick=[dict()], labels=['deep', 'entire path', 'prefix', 'absolute', 'flat', 'matched'],
           bounds='any subset of 7 files and directories nested two deep, all the options')
def finding(S):
    with scratch() as here:
        tree = []
        root = 'root'
        os.makedirs(root)

        def put(path, is_dir=False):
            if not S.flag('has'):
                return False
            if is_dir:
                os.mkdir(os.path.join(root, path))
            else:
                write_to_file(os.path.join(root, path), b'')
            tree.append((path, is_dir))
            return True

        put('a.txt')
        if put('d', True):
            put('d/a.txt')
            put('d/b')
            if put('d/a', True):
                put('d/a/a.txt')
        kwargs = {}
        subdirectories = not S.flag('flat')
        if not subdirectories:
            kwargs['scan_subdirectories'] = False
        entire = S.flag('entire')
        if entire:
            kwargs['apply_wildcard_to_entire_path'] = True
            S.reach('entire path')
        wildcard = S.pick('wildcard', [None, 'a', r'd/a', r'(.*)d/(.*)\.txt$', 'a$'])
        if wildcard is not None:
            kwargs['wildcard'] = wildcard
        with_path = not S.flag('without path')
        if not with_path:
            kwargs['prefix_with_path'] = False
        start = root
        prefix = None
        where = S.pick('where', ['relative', 'absolute', 'prefix'])
        if where == 'absolute':
            start = os.path.join(here, root)
            S.reach('absolute')
        elif where == 'prefix':
            kwargs['prefix_with'] = prefix = 'pre'
            S.reach('prefix')
        got = list(find_files(start, **kwargs))
        want = []
        for path, is_dir in tree:
            if is_dir or ('/' in path and not subdirectories):
                continue
            full = os.path.join(*[x for x in (prefix, start if with_path else None, path) if x is not None])
            if re.match(wildcard or '', full if entire else os.path.basename(path)):
                want.append(full)
                S.reach('matched')
                if path.count('/') == 2:
                    S.reach('deep')
        if not subdirectories:
            S.reach('flat')
        S.check_eq(sorted(got), sorted(want), 'files that match')


@R.harness(quick=[dict()], labels=['file', 'directory', 'missing', 'failed'], bounds='a file, a directory or nothing')
def unlinking(S):
    kind = S.pick('kind', ['file', 'directory', 'missing'])
    S.reach(kind)
    with scratch():
        write_to_file('other', b'')
        if kind == 'file':
            write_to_file('f', b'')
        elif kind == 'directory':
            os.makedirs('f/g')
            write_to_file('f/g/h', b'')
        fails = kind != 'missing' and S.flag('fails')
        if fails:
            exc = S.pick('exc', [OSError, PermissionError, FileNotFoundError])

            def refuse(*a, **k):
                raise exc()

            old = os.unlink, os.remove, os.rmdir, shutil.rmtree
            os.unlink = os.remove = os.rmdir = shutil.rmtree = refuse
            try:
                r = try_unlink('f')
            finally:
                os.unlink, os.remove, os.rmdir, shutil.rmtree = old
            S.reach('failed')
            S.check_eq(r, False, 'could not be deleted')
        else:
            S.check_eq(try_unlink('f'), kind != 'missing', 'tells whether it was deleted')
            S.check(not os.path.exists('f'), 'deleted')
            S.check_eq(try_unlink('f'), False, 'there is nothing left')
        S.check(os.path.exists('other'), 'something else was deleted')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['closed', 'wrong type', 'written'],
           bounds='n operations')
def devnull(S, n):
    binary = S.flag('binary')
    f = DevNullFilelikeObject(binary=True) if binary else DevNullFilelikeObject()
    right, wrong = (b'', '') if binary else ('', b'')
    closed = False
    for i in range(n):
        op = S.pick('op', ['write', 'wrong', 'read', 'seek', 'tell', 'flush', 'close', 'truncate', 'query', 'with'])
        if op == 'close':
            f.close()
            closed = True
            continue
        if op == 'with':
            with S_raises(S):
                with f as g:
                    S.check(g is f, 'yields itself')
                    raise Passed()
            closed = True
            continue
        data = (b'abc' if binary else 'abc')[:S.choice('size', 4)] if op == 'write' else None
        calls = dict(write=lambda: f.write(data), wrong=lambda: f.write(wrong), read=lambda: f.read(S.choice('n', 2)),
                     seek=lambda: f.seek(1), tell=f.tell, flush=f.flush, truncate=lambda: f.truncate(1),
                     query=lambda: (f.writable(), f.seekable()))
        want = dict(write=len(data) if data is not None else 0, read=right, seek=0, tell=0, flush=None, truncate=0,
                    query=(True, True))
        if closed:
            S.expect_raises(ValueError, calls[op], msg='used after being closed')
            S.reach('closed')
        elif op == 'wrong':
            S.expect_raises(TypeError, calls[op], msg='data of the other type')
            S.reach('wrong type')
        else:
            S.check_eq(calls[op](), want[op], op)
            if op == 'write':
                S.reach('written')


class Passed(Exception):
    pass


class Quit(BaseException):
    pass


@contextlib.contextmanager
def S_raises(S):
    try:
        yield
    except Passed:
        return
    S.fail('the exception was swallowed')


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['created', 'existing', 'raised', 'nested'],
           bounds='up to n nested jumps')
def jumping(S, n):
    with scratch() as here:
        def go(k, cwd):
            S.check_eq(os.getcwd(), cwd, 'the directory')
            if k == n or not S.flag('deeper'):
                if S.flag('raises'):
                    raise S.pick('type', [Passed, Quit])()
                return
            name = S.pick('name', ['a', 'a/b', 'absolute'])
            if name == 'absolute':
                name = target = os.path.join(here, 'x')
            else:
                target = os.path.join(cwd, name)
            S.reach('existing' if os.path.isdir(target) else 'created')
            if k:
                S.reach('nested')
            jump = jump_to_directory(name)
            S.check_eq(os.getcwd(), cwd, 'nothing happens before it is entered')
            S.check(os.path.isdir(target), 'the directory is created')
            with S_passed() as result:
                with jump:
                    go(k + 1, target)
            S.check_eq(os.getcwd(), cwd, 'the previous directory is restored')
            if result:
                S.reach('raised')
                raise result[0]

        with S_passed():
            go(0, here)
        S.check_eq(os.getcwd(), here, 'the previous directory is restored')


@contextlib.contextmanager
def S_passed():
    out = []
    try:
        yield out
    except (Passed, Quit) as e:
        out.append(e)
