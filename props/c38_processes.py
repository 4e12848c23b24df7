import contextlib
import errno
import fcntl
import os
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import threading
import warnings

import psutil

from engine.harness import Registry
from engine.sched import Threads
from satella.exceptions import ProcessFailed, ResourceLocked
from satella.os import (
    PIDFileLock, daemonize, hang_until_sig, is_running_as_root, safe_listdir, suicide, whereis)
from satella.os import daemon as daemon_module
from satella.os import signals as signals_module
from satella.processes import call_and_return_stdout, read_nowait

R = Registry('C38', assumptions=[
    'operating system calls that concern processes, signals and identities are models; '
    'lock files are real ones, in a scratch directory',
    'processes contending for a PID file lock are threads with PIDs of their own'])
FOCUS = ['os/', 'processes.py']


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-c38-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(*patches):
    old = [(obj, attr, getattr(obj, attr)) for obj, attr, _ in patches]
    try:
        for obj, attr, value in patches:
            setattr(obj, attr, value)
        yield
    finally:
        for obj, attr, value in old:
            setattr(obj, attr, value)


class FileLocks:
    """flock() and lockf() between the processes"""

    def __init__(self, sc):
        self.sc = sc
        self.holders = {}           # inode -> descriptor
        self.close_ = os.close
        sc.patch(fcntl, 'flock', self.flock)
        sc.patch(fcntl, 'lockf', self.flock)
        sc.patch(os, 'close', self.close)

    def flock(self, fd, op, *a):
        fd = fd if isinstance(fd, int) else fd.fileno()
        key = os.fstat(fd).st_ino
        if op & fcntl.LOCK_UN:
            if self.holders.get(key) == fd:
                del self.holders[key]
            return
        if self.holders.get(key, fd) != fd:
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, 'locked')
            self.sc.block(lambda: key not in self.holders)
        self.holders[key] = fd

    def close(self, fd):
        for key, f in list(self.holders.items()):
            if f == fd:
                del self.holders[key]
        self.close_(fd)


STATES = [None, 'empty', 'stale', 'garbage', 'foreign']


@R.harness(quick=[dict(switches=1, n=2, states=STATES), dict(switches=2, n=2, states=[None, 'stale'], modes=['plain']),
                  dict(switches=1, n=3, states=['stale'], modes=['plain'])],
           thorough=[dict(switches=2, n=2, states=STATES), dict(switches=2, n=3, states=[None, 'stale'], modes=['plain'])],
           labels=['acquired', 'refused', 'stale', 'garbage', 'empty', 'foreign', 'with', 'again', 'failed inside'],
           bounds='n processes contending for a lock, the file being absent, stale, damaged, or held by another')
def pid_lock(S, switches, n, states, modes=('plain', 'with', 'fails', 'again')):
    initial = S.pick('initial', states)
    mode = S.pick('mode', modes)
    if initial:
        S.reach(initial)
    with scratch() as d, Threads(S, switches, focus=FOCUS) as sc:
        path = os.path.join(d, 'x.pid')
        content = {None: None, 'empty': '', 'stale': '900\n', 'garbage': 'what', 'foreign': '77\n'}[initial]
        if content is not None:
            with open(path, 'w') as f:
                f.write(content)
        alive = {77} | {100 + i for i in range(n)}
        pids = {}

        class Process:
            def __init__(self, pid):
                self.pid = pid

        sc.patch(os, 'getpid', lambda: pids[threading.get_ident()])
        sc.patch(psutil, 'process_iter', lambda *a, **k: iter([Process(p) for p in sorted(alive)]))
        sc.patch(psutil, 'pid_exists', lambda p: p in alive)
        sc.patch(psutil, 'pids', lambda: sorted(alive))
        FileLocks(sc)
        holders = []
        attempts = {}       # pid -> those who may have held the lock during its attempt
        active = set()

        class Failed(Exception):
            pass

        def visit(pid, fails=False):
            S.check(not holders, 'two processes hold the lock')
            holders.append(pid)
            with open(path) as f:
                S.check_eq(f.read().strip(), str(pid), 'the file names the holder')
            sc.sleep(1)
            holders.remove(pid)
            S.reach('acquired')
            if fails:
                raise Failed()

        def process(i):
            pid = 100 + i
            context = mode in ('with', 'fails')
            twice = mode == 'again' and i == 0
            fails = mode == 'fails' and i == 0

            def go():
                pids[threading.get_ident()] = pid
                lock = PIDFileLock('x.pid', d)
                got = 0
                for _ in range(1 + twice):
                    attempts[pid] = set(active)
                    for others in attempts.values():
                        others.add(pid)
                    active.add(pid)
                    try:
                        if context:
                            S.reach('with')
                            with lock:
                                visit(pid, fails)
                            S.check(not fails, 'the exception was swallowed')
                        else:
                            lock.acquire()
                            visit(pid)
                            lock.release()
                        got += 1
                    except Failed:
                        got += 1
                        S.reach('failed inside')
                    except ResourceLocked as e:
                        S.reach('refused')
                        S.check(e.args[0] != pid and e.args[0] in attempts[pid] | {77}, 'refused by ' + str(e.args[0]))
                        S.check_eq((e.pid, e.is_alive), (e.args[0], True), 'tells about the holder')
                        if initial == 'foreign':
                            S.check(e.args[0] == 77, 'the one who holds it')
                        S.expect_raises(RuntimeError, lock.release, msg='a lock that is not held is released')
                    finally:
                        active.discard(pid)
                if got == 2:
                    S.reach('again')
                return got

            return go

        results = [sc.value(r) for r in sc.run(*[process(i) for i in range(n)])]
        S.check(not sc.crashes, 'crashed')
        if initial == 'foreign':
            S.check_eq(results, [0] * n, 'held by another process')
            with open(path) as f:
                S.check_eq(f.read(), content, 'the file of the other process')
        else:
            S.check(sum(results) > 0, 'nobody has got the lock')
            S.check(not os.path.exists(path), 'the file is removed')
        S.check_eq(os.listdir(d), ['x.pid'] if initial == 'foreign' else [], 'files left behind')


class Stuck(Exception):
    pass


class Model:
    """a process that writes to a pipe that holds up to capacity bytes"""

    def __init__(self, S, sc, script, code, capacity=4096):
        self.S, self.sc = S, sc
        self.script, self.code, self.capacity = script, code, capacity
        self.buffer = bytearray()
        self.returncode = None
        self.killed = False
        self.ended = False
        self.total = sum(x for x in script if not isinstance(x, bytes)) + 20
        self.stdout = None
        self.pid = 55

    def __call__(self, args, **kwargs):
        self.args, self.kwargs = args, kwargs
        if kwargs.get('stdout') == subprocess.PIPE:
            self.stdout = Stdout(self)
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()
        return self

    def body(self):
        for x in self.script:
            if isinstance(x, bytes):
                while x and not self.killed:
                    room = self.capacity - len(self.buffer)
                    if not room:
                        self.sc.block(lambda: len(self.buffer) < self.capacity or self.killed)
                        continue
                    self.buffer += x[:room]
                    x = x[room:]
            elif not self.killed:
                end = self.sc.now + x
                self.sc.block(lambda: self.killed, end)
            if self.killed:
                break
        self.ended = True
        self.returncode_ = -9 if self.killed else self.code

    def poll(self):
        if self.ended:
            self.returncode = self.returncode_
        return self.returncode

    def wait(self, timeout=None):
        if not self.ended:
            deadline = None if timeout is None else self.sc.now + timeout
            if not self.sc.block(lambda: self.ended, deadline):
                if self.sc.now > self.total:
                    self.S.fail('the process is stuck, as nobody reads what it writes')
                raise subprocess.TimeoutExpired(self.args if hasattr(self, 'args') else [], timeout)
        return self.poll()

    def kill(self):
        self.killed = True

    terminate = kill

    def communicate(self, input=None, timeout=None):
        deadline = None if timeout is None else self.sc.now + timeout
        out = self.__dict__.setdefault('out', bytearray())
        while True:
            if not self.sc.block(lambda: self.ended or self.buffer, deadline):
                raise subprocess.TimeoutExpired([], timeout)
            out += self.buffer
            self.buffer.clear()
            if self.ended:
                self.poll()
                return bytes(out), None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class Stdout:
    closed = False

    def __init__(self, process):
        self.process = process

    def read(self, n=-1):
        p = self.process
        out = bytearray()
        while True:
            room = len(p.buffer) if n is None or n < 0 else n - len(out)
            out += p.buffer[:room]
            del p.buffer[:room]
            if len(out) == n or (p.ended and not p.buffer):
                return bytes(out)
            p.sc.block(lambda: p.buffer or p.ended)

    def read1(self, n=-1):
        p = self.process
        p.sc.block(lambda: p.buffer or p.ended)
        out = bytes(p.buffer if n < 0 else p.buffer[:n])
        del p.buffer[:len(out)]
        return out

    def __iter__(self):
        return iter(lambda: self.read(), b'')

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def script_of(S, n):
    """what the process does, how long that takes and what it writes"""
    script, took, out = [], 0, b''
    for _ in range(1 + S.choice('actions', n)):
        kind = S.pick('action', ['short', 'long', 'character', 'sleep', 'nothing'])
        if kind == 'sleep':
            secs = S.conc(S.int('secs', 1, 3))
            script.append(secs)
            took += secs
        elif kind == 'nothing':
            script.append(b'')
        else:
            data = {'short': b'ab', 'long': b'x' * 9000, 'character': b'y' * (2047 - len(out) % 2048) + b'\xc5\xbc'}[kind]
            if kind == 'long':
                S.reach('longer than the pipe')
            if kind == 'character':
                S.reach('split character')
            script.append(data)
            out += data
    return script, took, out


@R.harness(quick=[dict(n=2, switches=0), dict(n=1, switches=1)], thorough=[dict(n=3, switches=0), dict(n=2, switches=1)],
           labels=['output', 'decoded', 'timed out', 'in time', 'failed', 'expected', 'longer than the pipe',
                   'split character'],
           bounds='processes that write and sleep in up to n steps, more than a pipe holds included')
def call(S, n, switches):
    with Threads(S, switches, focus=FOCUS) as sc:
        script, took, out = script_of(S, n)
        code = S.pick('code', [0, 1])
        process = Model(S, sc, script, code)
        sc.patch(subprocess, 'Popen', process)
        kwargs = {}
        encoding = S.pick('encoding', [None, 'utf-8'])
        if encoding:
            kwargs['encoding'] = encoding
        timeout, limit = S.pick('timeout', [(None, None), (2, 2), ('2s', 2), (0, 0), (.5, .5)])
        if timeout is not None:
            kwargs['timeout'] = timeout
            S.assume(took != limit)
        expected = S.pick('expected', [None, 0, 1])
        if expected is not None:
            kwargs['expected_return_code'] = expected

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return call_and_return_stdout(['prog', 'a'], cwd='/x', **kwargs)

        result, = sc.run(lambda: S.raises((ProcessFailed, TimeoutError), go))
        raised, value = sc.value(result)
        S.check(process.args == ['prog', 'a'] and process.kwargs.get('cwd') == '/x', 'arguments')
        if timeout is not None and took > limit:
            S.check(raised and type(value) is TimeoutError, 'TimeoutError')
            S.check(process.killed and process.ended, 'the process is killed')
            S.check_eq(sc.now, limit, 'raised on time')
            S.reach('timed out')
        else:
            S.check(not process.killed, 'killed, though it was in time')
            if timeout:
                S.reach('in time')
            if expected is not None and expected != code:
                S.check(raised and type(value) is ProcessFailed, 'ProcessFailed')
                S.check_eq(value.rc, code, 'the return code')
                S.reach('failed')
                value = value.stdout_so_far
            else:
                S.check(not raised, 'raised ' + repr(value))
                if expected is not None:
                    S.reach('expected')
            S.check_eq(value, out.decode(encoding) if encoding else out, 'the output')
            S.reach('decoded' if encoding else 'output')
        S.check(not [t for t in sc.alive()], 'a thread is left behind')


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['read', 'longer than the pipe', 'split character'],
           bounds='processes that write and sleep in up to n steps')
def reading(S, n):
    with Threads(S, 1, focus=FOCUS) as sc:
        script, took, out = script_of(S, n)
        process = Model(S, sc, script, 0)

        def go():
            process([], stdout=subprocess.PIPE)
            got = []
            fut = read_nowait(process, got)
            S.check_eq(sc.now, 0, 'does not wait')
            fut.result()
            return got

        result, = sc.run(go)
        S.check_eq(b''.join(sc.value(result)), out, 'the output')
        S.check_eq(process.wait(), 0, 'the process has ended')
        S.reach('read')


# ------------------------------------------------------------------------------------ signals
class Signals:
    """the signals' handlers, and signals that arrive while sleeping"""

    def __init__(self, S, n):
        self.S, self.n = S, n
        self.handlers = {signal.SIGTERM: signal.SIG_DFL, signal.SIGINT: signal.default_int_handler,
                         signal.SIGUSR1: S.pick('user handler', [signal.SIG_DFL, self.user]),
                         signal.SIGUSR2: signal.SIG_IGN}
        self.before = dict(self.handlers)
        self.seen = []
        self.arrived = []

    def user(self, signum, frame):
        self.seen.append(signum)

    def signal(self, signum, handler):
        old = self.handlers[signum]
        self.handlers[signum] = handler
        return old

    def getsignal(self, signum):
        return self.handlers[signum]

    def deliver(self, signum):
        handler = self.handlers[signum]
        self.arrived.append(signum)
        if handler == signal.SIG_IGN:
            return
        self.S.check(handler != signal.SIG_DFL, 'the process is killed')
        handler(signum, None)

    def sleep(self, secs):
        self.S.check(secs > 0, 'it does not poll in a tight loop')
        if len(self.arrived) >= self.n:
            self.deliver(signal.SIGTERM)
            return
        options = [None, signal.SIGTERM, signal.SIGINT, signal.SIGUSR2]
        if self.handlers[signal.SIGUSR1] != signal.SIG_DFL:
            options.append(signal.SIGUSR1)
        signum = self.S.pick('signal', options)
        if signum is None:
            self.arrived.append(None)
        else:
            self.deliver(signum)


@R.harness(quick=[dict(n=2, times=1), dict(n=1, times=2)], thorough=[dict(n=2, times=2)],
           labels=['TERM', 'INT', 'extra', 'not awaited', 'again', 'user handler'],
           bounds='up to n signals before SIGTERM, awaited "times" times, with each choice of extra signals')
def waiting_for_signals(S, n, times):
    world = Signals(S, n)
    from satella.time import misc
    from engine.timestub import controlled
    now = [0]

    def sleep(secs):
        world.sleep(secs)
        now[0] += secs

    with controlled(lambda: now[0], sleep), patched(
            (signal, 'signal', world.signal), (signal, 'getsignal', world.getsignal)):
        for i in range(times):
            extra = S.pick('extra', [None, (), [signal.SIGUSR1], [signal.SIGUSR1, signal.SIGUSR2], [signal.SIGTERM],
                                     [signal.SIGINT]])
            world.arrived.clear()
            kwargs = {'sleep_interval': 1} if S.flag('interval') else {}
            hang_until_sig(*([extra] if extra is not None or S.flag('given') else []), **kwargs)
            awaited = {signal.SIGTERM, signal.SIGINT, *(extra or ())}
            arrived = world.arrived
            S.check(bool(arrived) and arrived[-1] in awaited, 'released without a signal')
            S.check(not any(s in awaited for s in arrived[:-1]), 'a signal does not release it')
            S.check_eq(world.handlers, world.before, 'the handlers are restored')
            S.reach({signal.SIGTERM: 'TERM', signal.SIGINT: 'INT'}.get(arrived[-1], 'extra'))
            if any(arrived[:-1]):
                S.reach('not awaited')
            if world.seen:
                S.reach('user handler')
            if i:
                S.reach('again')


# ------------------------------------------------------------------------------------ the rest
@R.harness(quick=[dict()], labels=['found', 'several', 'not executable', 'directory', 'missing directory', 'dangling'],
           bounds='three directories on the path, each with any of the kinds of entries')
def finding_executables(S):
    with scratch() as d:
        want = []
        dirs = [os.path.join(d, x) for x in 'abc']
        for i, directory in enumerate(dirs):
            kind = S.pick('kind', ['missing', 'not a directory', 'empty', 'file', 'directory', 'dangling', 'other', 'link'])
            if kind == 'missing':
                S.reach('missing directory')
                continue
            if kind == 'not a directory':
                with open(directory, 'w'):
                    pass
                continue
            os.mkdir(directory)
            name = os.path.join(directory, 'prog')
            if kind in ('file', 'other', 'link'):
                target = name + '2' if kind == 'other' else name
                mode = 0o755 if kind != 'file' else S.pick('mode', [0o755, 0o700, 0o644, 0o010, 0o001, 0o600])
                if kind == 'link':
                    with open(name + '.real', 'w'):
                        pass
                    os.chmod(name + '.real', mode)
                    os.symlink(name + '.real', name)
                else:
                    with open(target, 'w'):
                        pass
                    os.chmod(target, mode)
                if kind != 'other':
                    if mode & 0o111:
                        want.append(name)
                        S.reach('found')
                    else:
                        S.reach('not executable')
            elif kind == 'directory':
                os.mkdir(name)
                S.reach('directory')
            elif kind == 'dangling':
                os.symlink(os.path.join(d, 'nothing'), name)
                S.reach('dangling')
        if len(want) > 1:
            S.reach('several')
        old = os.environ.get('PATH')
        try:
            os.environ['PATH'] = ':'.join(dirs)
            S.check_eq(list(whereis('prog')), want, 'executables, in order')
            S.check_eq(list(whereis('nothing')), [], 'there is no such')
        finally:
            os.environ['PATH'] = old
        for directory in dirs:
            S.check_eq(sorted(safe_listdir(directory)),
                       sorted(os.listdir(directory)) if os.path.isdir(directory) else [], 'safe_listdir')


class Died(BaseException):
    pass


class Exited(BaseException):
    pass


@R.harness(quick=[dict()], labels=['group', 'process', 'root', 'user'], bounds='any PIDs and identities')
def killing(S):
    pid, pgid = S.int('pid', 2, 99999), S.int('pgid', 2, 99999)
    uid, euid = S.int('uid', 0, 3), S.int('euid', 0, 3)
    done = []

    def kill(what):
        def fn(target, signum):
            done.append((what, target, int(signum)))
            raise Died()
        return fn

    with patched((os, 'getpid', lambda: pid), (os, 'getpgid', lambda p: pgid), (os, 'getpgrp', lambda: pgid),
                 (os, 'kill', kill('process')), (os, 'killpg', kill('group')), (os, 'geteuid', lambda: euid),
                 (os, 'getuid', lambda: uid)):
        root = is_running_as_root()
        S.check(S.eq(root, euid == 0), 'the effective identity decides')
        S.reach('root' if root else 'user')
        entire = S.pick('entire', [None, True, False])
        S.expect_raises(Died, suicide, *([] if entire is None else [entire]), msg='kills')
    S.check_eq(len(done), 1, 'kills once')
    what, target, signum = done[0]
    S.check_eq(signum, 9, 'cannot be ignored')
    if entire is not False and pid == pgid:
        S.reach('group')
        S.check(what == 'group' or S.Not(True), 'the entire group')
        S.check(target == pid, 'its own group')
    else:
        S.reach('process')
        S.check(what == 'process', 'the process alone')
        S.check(target == pid, 'itself')


@R.harness(quick=[dict()], labels=['parent', 'child', 'daemon', 'names', 'identity'],
           bounds='the three processes, users and groups as numbers or names')
def becoming_a_daemon(S):
    log = []
    euid = [0]
    role = S.pick('role', ['parent', 'child', 'daemon'])
    S.reach(role)
    forks = {'parent': [10], 'child': [0, 11], 'daemon': [0, 0]}[role]
    forked = iter(forks)

    def record(name, value=None):
        def fn(*args):
            log.append((name,) + args)
            return value
        return fn

    def fork():
        log.append(('fork',))
        return next(forked)

    def seteuid(uid):
        log.append(('seteuid', uid))
        if euid[0] != 0:
            raise PermissionError()
        euid[0] = uid

    def setegid(gid):
        log.append(('setegid', gid))
        if euid[0] != 0:
            raise PermissionError()

    class Std:
        closed = False

        def close(self):
            self.closed = True
            log.append(('close',))

        def flush(self):
            pass

        def write(self, x):
            pass

    class Entry:
        def __init__(self, **k):
            self.__dict__.update(k)

    def lookup(**fields):
        def fn(name):
            if name != 'someone':
                raise KeyError(name)
            return Entry(**fields)
        return fn

    kwargs = {}
    uid = S.pick('uid', [None, 'number', 'name', 'unknown'])
    gid = S.pick('gid', [None, 'number', 'name', 'unknown'])
    number_u, number_g = S.int('user', 1, 9), S.int('group', 1, 9)
    for key, kind, number in (('uid', uid, number_u), ('gid', gid, number_g)):
        if kind is not None:
            kwargs[key] = {'number': number, 'name': 'someone', 'unknown': 'nobody else'}[kind]
    redirect = not S.flag('keep')
    if not redirect:
        kwargs['redirect_std_to_devnull'] = False


    def exit_via(*a):
        raise Exited()

    if S.flag('own exit'):
        kwargs['exit_via'] = exit_via
    stds = [Std(), Std(), Std()]
    old = sys.stdin, sys.stdout, sys.stderr
    opened = []
    sys.stdin, sys.stdout, sys.stderr = stds
    import grp
    import pwd
    try:
        with patched(*[(os, name, record(name)) for name in
                       ('umask', 'setsid', 'chdir', 'setuid', 'setgid', 'setreuid', 'setregid', 'chroot', '_exit')],
                     (os, 'fork', fork), (os, 'seteuid', seteuid), (os, 'setegid', setegid),
                     (pwd, 'getpwnam', lookup(pw_uid=number_u)), (grp, 'getgrnam', lookup(gr_gid=number_g))):
            try:
                daemonize(**kwargs)
                outcome = 'returned'
            except KeyError:
                outcome = 'KeyError'
            except (Exited, SystemExit):
                outcome = 'exited'
            opened = [x for x in (sys.stdin, sys.stdout, sys.stderr) if not isinstance(x, Std)]
    finally:
        for x in (sys.stdin, sys.stdout, sys.stderr):
            if not isinstance(x, Std):
                x.close()
        sys.stdin, sys.stdout, sys.stderr = old
    names = [x[0] for x in log]
    if role != 'daemon':
        S.check_eq(outcome, 'exited', 'a parent exits')
        S.check_eq(names.count('fork'), len(forks), 'forks')
        S.check(not any(x.closed for x in stds), 'descriptors of the parent')
        if role == 'child':
            S.check('setsid' in names, 'becomes a session leader')
            S.check(names.index('setsid') > names.index('fork'), 'in the child')
        return
    S.check_eq(names.count('fork'), 2, 'forks twice')
    first = names.index('fork')
    second = names.index('fork', first + 1)
    S.check_eq(names.count('setsid'), 1, 'a session of its own')
    S.check(first < names.index('setsid') < second, 'becomes a session leader and then stops being one')
    S.check(('umask', 0) in log, 'umask')
    S.check(('chdir', '/') in log, 'changes the directory')
    S.check(all(x.closed for x in stds), 'closes the descriptors')
    S.check_eq(len(opened), 3 if redirect else 0, 'redirected')
    S.check(all(x.name == '/dev/null' for x in opened), 'to /dev/null')
    if uid == 'unknown' or gid == 'unknown':
        S.check_eq(outcome, 'KeyError', 'an unknown name')
        return
    S.check_eq(outcome, 'returned', 'goes on')
    for kind, call, number in ((uid, 'seteuid', number_u), (gid, 'setegid', number_g)):
        calls = [x[1] for x in log if x[0] == call]
        S.check_eq(calls, [] if kind is None else [number], call)
        if kind == 'name':
            S.reach('names')
    if uid and gid:
        S.reach('identity')
