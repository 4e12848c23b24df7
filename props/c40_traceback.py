import _thread
import io
import json
import pickle
import zlib

from engine.harness import Registry
from satella.instrumentation.trace_back import GenerationPolicy, StackFrame, StoredVariableValue, Traceback, \
    frame_from_traceback
from satella.json import json_encode

R = Registry('C40', assumptions=['pickling, compression and base64 of the standard library are trusted'])


class Unpicklable:
    def __init__(self, exc):
        self.exc = exc

    def __reduce_ex__(self, protocol):
        raise self.exc

    def __repr__(self):
        return 'Unpicklable()'


class Unprintable:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        raise self.exc

    def __eq__(self, other):
        return type(other) is Unprintable


class Odd(BaseException):
    pass


VALUES = ['number', 'text', 'long', 'list', 'unpicklable', 'oddly unpicklable', 'unprintable', 'function']


def value_of(kind):
    return {'number': 5, 'text': 'a\u017c\n', 'long': 'x' * 50, 'list': [1, {'a': (2, None)}],
            'unpicklable': Unpicklable(ValueError('cannot')), 'oddly unpicklable': Unpicklable(Odd('cannot')),
            'unprintable': Unprintable(ValueError('no text')), 'function': lambda: 0}[kind]


def policy_of(S, size):
    """:return: (policy, is it pickled, is it compressed when this long)"""
    enabled = not S.flag('no pickling')
    compress_at = S.int('compress_at', 0, 200)
    limit = S.int('limit', 0, 60) if S.flag('limited') else None
    level = S.conc(S.int('level', 1, 9)) if S.flag('leveled') else 6
    kind = S.pick('policy', ['arguments', 'subclass'])
    if kind == 'arguments':
        policy = GenerationPolicy(enable_pickling=enabled, compress_at=compress_at, repr_length_limit=limit,
                                  compression_level=level)
    else:
        class Policy(GenerationPolicy):
            def should_pickle(self, value):
                return enabled

            def should_compress(self, data):
                return len(data) > compress_at

            def get_compression_level(self, data):
                return level

            def process_repr(self, r):
                return r if limit is None or len(r) <= limit else r[:limit] + '...'

        policy = Policy()
    return policy, enabled, compress_at, limit


def check_stored(S, sv, value, kind, enabled, compress_at, limit):
    if kind == 'unprintable':
        S.check(isinstance(sv.repr, str), 'a value that cannot be printed')
        S.reach('unprintable')
    else:
        text = repr(value)
        if limit is None:
            S.check_eq(sv.repr, text, 'representation')
        elif S.conc_flag(len(text) > limit):
            S.check_eq(sv.repr, text[:S.conc(limit)] + '...', 'representation that is cut')
            S.reach('cut')
        else:
            S.check_eq(sv.repr, text, 'representation')
    S.check_eq(sv.type_, repr(type(value)), 'type')
    S.check_eq(str(sv), sv.repr, 'str()')
    if not enabled:
        S.check(sv.pickle_type is None, 'it was not to be pickled')
        S.expect_raises(ValueError, sv.load_value, msg='never pickled')
        S.reach('not pickled')
    elif kind in ('unpicklable', 'oddly unpicklable', 'function'):
        S.check_eq(sv.pickle_type, 'failed', 'cannot be pickled')
        S.check(kind == 'function' or b'cannot' in sv.pickle, 'the reason')
        S.expect_raises(ValueError, sv.load_value, msg='not pickled')
        S.reach('failed')
    else:
        size = len(pickle.dumps(value, pickle.HIGHEST_PROTOCOL))
        if S.conc_flag(compress_at < size):
            S.check_eq(sv.pickle_type, 'pickle/gzip', 'is to be compressed')
            zlib.decompress(sv.pickle)
            S.reach('compressed')
        else:
            S.check_eq(sv.pickle_type, 'pickle', 'is not to be compressed')
            S.reach('not compressed')
        S.check_eq(sv.load_value(), value, 'the value')


class Flags:
    """adds a way to decide a condition"""

    def __init__(self, S):
        self.S = S

    def __getattr__(self, item):
        return getattr(self.S, item)

    def conc_flag(self, cond):
        return bool(cond)


def same_stored(S, a, b):
    S.check(a == b and not a != b, 'equal')
    S.check_eq((a.repr, a.type_, a.pickle_type, a.pickle), (b.repr, b.type_, b.pickle_type, b.pickle), 'everything is kept')


@R.harness(quick=[dict()],
           labels=['unprintable', 'cut', 'not pickled', 'failed', 'compressed', 'not compressed', 'JSON', 'pickled', 'different'],
           bounds='8 kinds of values; any thresholds of compression and truncation, any compression level')
def stored_value(S):
    S = Flags(S)
    kind = S.pick('value', VALUES)
    value = value_of(kind)
    if S.flag('default'):
        sv, (enabled, compress_at, limit) = StoredVariableValue(value), (True, 128 * 1024, None)
    else:
        policy, enabled, compress_at, limit = policy_of(S, 0)
        sv = StoredVariableValue(value, policy)
    check_stored(S, sv, value, kind, enabled, compress_at, limit)
    way = S.pick('way', ['JSON', 'pickled', 'different'])
    S.reach(way)
    if way == 'JSON':
        again = StoredVariableValue.from_json(json.loads(json.dumps(sv.to_json())))
        same_stored(S, again, sv)
        check_stored(S, again, value, kind, enabled, compress_at, limit)
    elif way == 'pickled':
        again = pickle.loads(pickle.dumps(sv, pickle.HIGHEST_PROTOCOL))
        same_stored(S, again, sv)
        check_stored(S, again, value, kind, enabled, compress_at, limit)
    else:
        S.check(sv != StoredVariableValue('something else'), 'different')


SOURCE = '''
def level1(a):
    b = values[0]
    return go(a)

def level2(a):
    return level1(values[1])

def level3(a):
    c = a
    return level2(3)

def raising(a):
    z = values[2]
    raise error

def reraising(a):
    try:
        raising(1)
    except BaseException as e:
        go(e)

def caught(a):
    q = 4
    try:
        return level3(2)
    except BaseException as e:
        return go(e)

def caught_bad(a):
    q = 4
    try:
        return raising(2)
    except BaseException as e:
        return go(e)

def start(entry):
    return entry(0)
'''


def isolated(entry, go, values, error):
    """runs the code above in a thread whose stack has no frames of this checker"""
    done = _thread.allocate_lock()
    done.acquire()
    out = []

    def wrapped(x):
        try:
            out.append(('ok', go(x)))
        except BaseException as e:
            out.append(('exc', e))
        finally:
            done.release()

    space = {'values': values, 'error': error, '__builtins__': {'BaseException': BaseException}, 'go': wrapped}
    exec(compile(SOURCE, 'isolated.py', 'exec'), space)
    _thread.start_new_thread(space['start'], (space[entry],))
    done.acquire()
    if out[0][0] == 'exc':
        raise out[0][1]
    return out[0][1]


def chain_of(frame):
    out = []
    while frame:
        if frame.f_code.co_filename == 'isolated.py':
            out.append(frame)
        frame = frame.f_back
    return out


@R.harness(quick=[dict()], labels=['frame', 'exception', 'JSON', 'pickle', 'stream', 'policy class', 'policy', 'unprintable',
                                   'failed'],
           bounds='stacks of up to 4 frames, with 8 kinds of values in them, captured from a frame or an exception')
def stacks(S):
    S = Flags(S)
    kinds = [S.pick('value', VALUES), S.pick('value2', ['number', 'unprintable']), S.pick('value3', ['text', 'function'])]
    values = [value_of(k) for k in kinds]
    if 'unprintable' in kinds:
        S.reach('unprintable')
    if 'unpicklable' in kinds:
        S.reach('failed')
    entry = S.pick('entry', ['level1', 'level2', 'level3', 'reraising'])
    how = S.pick('policy', ['default', 'class', 'instance'])

    class Cut(GenerationPolicy):
        def process_repr(self, r):
            return 'R' + r

    args = {'default': {}, 'class': {'policy': Cut}, 'instance': {'policy': GenerationPolicy(enable_pickling=False)}}[how]
    if how == 'class':
        S.reach('policy class')
    elif how == 'instance':
        S.reach('policy')
    import sys
    seen = []

    def go(x):
        if entry == 'reraising':
            S.check(frame_from_traceback(x.__traceback__).f_code.co_name == 'raising', 'the bottom frame')
            tb = Traceback(**args)
            S.reach('exception')
            frames = [frame_from_traceback(x.__traceback__)] + chain_of(sys._getframe())
        else:
            frames = chain_of(sys._getframe())
            tb = Traceback(starting_frame=frames[0], **args)
            S.reach('frame')
        for f in frames:
            seen.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno, dict(f.f_locals), dict(f.f_globals)))
        return tb

    error = ValueError('an error')
    tb = isolated(entry, go, values, error)
    S.check('ValueError: an error' in tb.formatted_traceback or entry != 'reraising', 'the exception')
    way = S.pick('way', [None, 'JSON', 'pickle', 'stream'])
    if way:
        S.reach(way)
        if way == 'JSON':
            again = Traceback.from_json(json.loads(json_encode(tb)))
        elif way == 'pickle':
            again = Traceback.from_pickle(tb.pickle())
        else:
            out = io.BytesIO()
            tb.pickle_to(out)
            again = Traceback.from_pickle(io.BytesIO(out.getvalue()))
        S.check(again == tb and not again != tb, 'equal')
        S.check_eq(again.formatted_traceback, tb.formatted_traceback, 'the exception is kept')
        tb = again
    S.check_eq([f.name for f in tb.frames], [x[0] for x in seen], 'the frames, innermost first')
    text = tb.pretty_format()
    out = io.StringIO()
    tb.pretty_print(out)
    S.check_eq(out.getvalue(), text, 'printing is formatting')
    for f, (name, filename, line, f_locals, f_globals) in zip(tb.frames, seen):
        S.check_eq((f.filename, f.lineno), (filename, line), 'where')
        for stored, real in ((f.locals, f_locals), (f.globals, f_globals)):
            S.check_eq(sorted(stored), sorted(real), 'names of variables')
            for key, value in real.items():
                sv = stored[key]
                if type(value) is Unprintable or key in ('__builtins__', 'values', 'e'):
                    continue
                S.check_eq(sv.repr, ('R' if how == 'class' else '') + repr(value), 'representation of ' + key)
                if how == 'instance':
                    S.expect_raises(ValueError, sv.load_value, msg='not pickled')
                elif isinstance(value, (int, str, list)):
                    S.check_eq(sv.load_value(), value, 'value of ' + key)
        S.check('** %s at %s:%s\n' % (name, filename, line) in text, 'a frame is printed')
        for key in f_locals:
            S.check('*** %s: ' % (key,) in text, 'a variable is printed')
        S.check(str(f).startswith('%s - %s:%s\n' % (name, filename, line)) and str(f) in str(tb), 'str()')


@R.harness(quick=[dict()], labels=['bytes', 'stream'], bounds='pickles of other things')
def foreign(S):
    x = S.pick('x', [None, 5, 'a', [1]])
    data = pickle.dumps(x)
    S.expect_raises(ValueError, lambda: Traceback.from_pickle(data), msg='not a traceback')
    S.reach('bytes')
    S.expect_raises(ValueError, lambda: Traceback.from_pickle(io.BytesIO(data)), msg='not a traceback')
    S.reach('stream')
