import base64
import json
import logging
import os
import shutil
import tempfile
import warnings

from engine.harness import Registry
from satella.coding import merge_dicts
from satella.configuration import sources
from satella.configuration.sources import (
    AlternativeSource, BaseSource, BuildObjectFrom, DirectorySource, EnvironmentSource, EnvVarsSource, FileSource,
    HTTPJSONSource, JSONSource, MergingSource, OptionalSource, StaticSource, TOMLSource, YAMLSource, load_source_from_dict,
    load_source_from_list)
from satella.configuration.sources import file as file_module
from satella.configuration.sources.format import FORMAT_SOURCES
from satella.exceptions import ConfigurationError

R = Registry('C26', assumptions=[
    'files are read from a scratch directory, HTTP requests are stubbed',
    'parsing of JSON itself is trusted'])
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore', DeprecationWarning)


class Missing:
    pass


def fresh(v):
    """copy of the structure"""
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    if isinstance(v, list):
        return [fresh(x) for x in v]
    return v


def ref_merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k in b:
            out[k] = ref_merge(a[k], b[k]) if k in a else b[k]
        return out
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def value(S, depth, name):
    kinds = ['number', 'list'] + (['dict', 'dict2'] if depth else [])
    kind = S.pick(name, kinds)
    if kind == 'number':
        return S.int('n')
    if kind == 'list':
        return [S.int('item') for _ in range(1 + S.choice('len', 2))]
    return {k: value(S, depth - 1, name + k) for k in ('x', 'y')[:1 + (kind == 'dict2')]}


def config(S, depth, name):
    out = {}
    for k in ('a', 'b'):
        if k == 'a' or S.flag('has'):
            out[k] = value(S, depth if k == 'a' else 0, name + k)
    return out


@R.harness(quick=[dict(depth=1)], thorough=[dict(depth=2)], labels=['dicts', 'lists', 'override'],
           bounds='any two values nested up to "depth", with any numbers')
def merging(S, depth):
    a, b = value(S, depth + 1, 'a'), value(S, depth, 'b')
    a0, b0 = fresh(a), fresh(b)
    out = merge_dicts(a, b)
    S.check_eq(out, ref_merge(a0, b0), 'merged')
    S.check_eq(b, b0, 'the second is left as it was')
    if isinstance(a, dict) and isinstance(b, dict):
        S.check(out is a, 'updated in place')
        S.reach('dicts')
    elif isinstance(a, list) and isinstance(b, list):
        S.check(out is a, 'updated in place')
        S.reach('lists')
    else:
        S.check(out is b, 'the second is taken')
        S.reach('override')


@R.harness(quick=[dict()], labels=['merged'], bounds='two entries out of eight, five of them empty, of which either may be '
                                                  'missing, up to three levels deep')
def merging_empty(S):
    def make():
        return [None, False, '', [], {}, 3, [1], {'x': 1}]
    a, b = S.choice('a', 9), S.choice('b', 9)
    one, two = {'o': 1}, {'p': 2}
    if a < 8:
        one['k'] = make()[a]
    if b < 8:
        two['k'] = make()[b]
    for _ in range(S.choice('levels', 3)):
        one, two = {'l': one}, {'l': two}
    expected = ref_merge(fresh(one), fresh(two))
    S.check_eq(MergingSource(StaticSource(one), StaticSource(two)).provide(), expected, 'provided')
    S.check_eq(merge_dicts(one, two), expected, 'merged')
    S.reach('merged')


class Oops(KeyError, ValueError):
    pass


ANY = ConfigurationError('whichever')


class Derived(ConfigurationError):
    pass


class Src(BaseSource):
    """provides a configuration, or fails; notes when it was asked"""

    def __init__(self, log, name, cfg, error):
        self.log, self.name, self.cfg, self.error = log, name, cfg, error

    def provide(self):
        self.log.append(self.name)
        if self.error is not None:
            raise self.error
        return self.cfg


def tree(S, log, depth, name, wide=True, kids=2):
    """a source, with a reference: () -> (log, config or exception)"""
    kinds = ['static', 'fails', 'oops']
    if depth:
        kinds = ['alternative', 'optional', 'raise', 'silent', 'lenient', 'build'] + kinds[:2]
    kind = S.pick('kind', kinds)
    if kind == 'static':
        cfg = S.pick('cfg', [{}, {'a': S.int('n')}, {'a': [S.int('n')], 'b': {'x': S.int('m')}},
                             {'b': {'x': [S.int('n')]}}])
        return Src(log, name, cfg, None), lambda: ([name], fresh(cfg))
    if kind in ('fails', 'oops'):
        error = (Derived if kind == 'fails' else Oops)(name)
        return Src(log, name, {}, error), lambda: ([name], error)
    n = 1 if kind in ('optional', 'build') else S.choice('children', kids + 1)
    children = [tree(S, log, depth - 1, name + str(i), wide, kids if wide else 1) for i in range(n)]
    srcs, refs = [c[0] for c in children], [c[1] for c in children]
    if kind == 'build':
        def ref_build():
            used, out = refs[0]()
            return used, out if isinstance(out, Exception) else {'k': out}
        return BuildObjectFrom('k', srcs[0]), ref_build
    if kind in ('alternative', 'optional'):
        def ref_alternative():
            used = []
            for r in refs:
                u, out = r()
                used += u
                if not isinstance(out, ConfigurationError):
                    return used, out
            return used, {} if kind == 'optional' else ANY
        return (AlternativeSource if kind == 'alternative' else OptionalSource)(*srcs), ref_alternative

    def ref_merging():
        used, cfg, good = [], {}, 0
        for r in refs:
            u, out = r()
            used += u
            if isinstance(out, Exception):
                if not isinstance(out, ConfigurationError) or kind == 'raise':
                    return used, out
                continue
            good += 1
            cfg = ref_merge(cfg, out)
        if refs and not good and kind == 'silent':
            return used, ANY
        return used, cfg

    if kind == 'raise':
        return MergingSource(*srcs), ref_merging
    if kind == 'silent':
        return MergingSource(*srcs, on_fail=MergingSource.SILENT), ref_merging
    return MergingSource(*srcs, on_fail=MergingSource.SILENT, fail_if_no_sources_are_correct=False), ref_merging


@R.harness(quick=[dict(depth=1), dict(depth=2, wide=False)], thorough=[dict(depth=2)],
           labels=['provided', 'config_error', 'other_error'],
           bounds='trees of sources "depth" deep, of up to two children each (one below the first level unless wide), with any numbers; asked twice')
def trees(S, depth, wide=True):
    log = []
    src, ref = tree(S, log, depth, 's', wide)
    for again in range(2):
        used, expected = ref()
        del log[:]
        r, out = S.raises(Exception, src.provide)
        S.check_eq(log, used, 'the sources that were asked')
        if isinstance(expected, Exception):
            S.check(r, lambda: 'failed, instead of providing %r' % (out,))
            if expected is ANY:
                S.check(isinstance(out, ConfigurationError), 'a configuration error')
            else:
                S.check(out is expected, 'the error of the source')
            S.reach('config_error' if isinstance(out, ConfigurationError) else 'other_error')
        else:
            S.check(not r, lambda: 'failed with %r' % (out,))
            S.check_eq(out, expected, 'provided')
            S.reach('provided')


@R.harness(quick=[dict(n=2, depth=1)], thorough=[dict(n=3, depth=1)], labels=['merged', 'changed'],
           bounds='n configurations of two keys, nested "depth" deep, merged twice; what was provided may then be altered')
def merged_copies(S, n, depth):
    cfgs = [config(S, depth if i < 2 else 0, 'c%d' % i) for i in range(n)]
    if n < 3 and S.flag('dicts in lists'):
        for c in cfgs:
            c['l'] = [{'i': 1, 'deep': [[{'j': 1}]]}]
    copies = fresh(cfgs)
    src = MergingSource(*map(StaticSource, cfgs))
    expected = {}
    for c in copies:
        expected = ref_merge(expected, c)
    first = src.provide()
    S.check_eq(first, expected, 'merged')
    S.check_eq(cfgs, copies, 'sources are not altered')
    S.reach('merged')
    if S.flag('change'):
        change(first)
        S.check_eq(cfgs, copies, 'sources are not altered by changes to what was provided')
        S.reach('changed')
    S.check_eq(src.provide(), expected, 'merged again')


def change(v):
    for k in list(v):
        if isinstance(v[k], dict):
            change(v[k])
        elif isinstance(v[k], list):
            for x in v[k]:
                if isinstance(x, dict):
                    change(x)
            v[k].append('changed')
    v['changed'] = 1


def wrong_type(text):
    return text + 1


ENV = 'SATELLA_VERIF_C26'


@R.harness(quick=[dict()], labels=['provided', 'failed'],
           bounds='seven texts, as bytes or a string or an environment variable, in three encodings')
def formats(S):
    text, expected = S.pick('text', [
        ('{}', {}), ('{"a": [1, {"b": null}]}', {'a': [1, {'b': None}]}), ('{"a": "\u0105"}', {'a': '\u0105'}),
        ('[1]', None), ('5', None), ('{"a": ', None), ('', None)])
    how = S.pick('how', ['str', 'bytes', 'other', 'base64', 'unknown', 'undecodable', 'env', 'missing', 'environ'])
    if how == 'str':
        src = JSONSource(text)
    elif how == 'bytes':
        src = JSONSource(text.encode('utf-8'))
    elif how == 'other':
        src = JSONSource(text.encode('utf-16'), encoding='utf-16')
    elif how == 'base64':
        kind = S.pick('class', [JSONSource, YAMLSource, TOMLSource])
        if kind is JSONSource:
            data = text
        else:
            data, expected = S.pick('data', [('k: [1]', {'k': [1]}) if kind is YAMLSource else ('k = [1]', {'k': [1]}),
                                             ('- 1', None), ('', None if kind is YAMLSource else {})])
        src = kind(base64.encodebytes(data.encode('utf-8')), 'base64')
    elif how == 'unknown':
        src, expected = JSONSource(text.encode('utf-8'), encoding='no-such-encoding'), None
    elif how == 'undecodable':
        src, expected = JSONSource(b'\xff' + text.encode('utf-8')), None
    else:
        os.environ.pop(ENV, None)
        if how != 'missing':
            os.environ[ENV] = text
        else:
            expected = None
        src = EnvVarsSource(ENV)
        if how == 'environ':
            name = S.pick('name', [None, 'x'])
            cast = S.pick('cast', [None, len, json.loads, wrong_type])
            src = EnvironmentSource(ENV, name, cast)
            try:
                expected = {name or ENV: cast(text) if cast else text}
            except (ValueError, TypeError):
                expected = None
    try:
        for _ in range(2):
            r, out = S.raises(Exception, src.provide)
            if expected is None:
                S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
                S.reach('failed')
            else:
                S.check(not r and out == expected, lambda: 'provided %r instead of %r' % (out, expected))
                S.reach('provided')
        if how in ('env', 'environ', 'missing'):
            os.environ[ENV] = '{"changed": []}'
            r, out = S.raises(Exception, src.provide)
            if how != 'environ':
                S.check(not r and out == {'changed': []}, lambda: 'the current value is used, not %r' % (out,))
            else:
                S.check(r == (cast is wrong_type), lambda: 'the current value: %r' % (out,))
                if not r:
                    S.check_eq(out, {name or ENV: cast('{"changed": []}') if cast else '{"changed": []}'}, 'current value')
    finally:
        os.environ.pop(ENV, None)


def write(path, text):
    with open(path, 'wb') as f:
        f.write(text)


@R.harness(quick=[dict()], labels=['read', 'failed', 'skipped', 'relative', 'subdirectory'],
           bounds='a directory (absolute, relative to the current one, or missing) with up to two files and a subdirectory '
                  'with one, each valid, invalid or filtered out')
def directory(S):
    top = os.path.realpath(tempfile.mkdtemp())
    back = os.getcwd()
    try:
        encoding = S.pick('encoding', ['utf-8', 'utf-16'])
        where = S.pick('where', ['absolute', 'relative', 'dotted', 'missing'])
        silent, scan, filtered = S.flag('silent'), S.flag('scan'), S.flag('filtered')
        d = os.path.join(top, 'conf')
        os.mkdir(d)
        os.mkdir(os.path.join(d, 'sub'))
        expected, good, bad = [], 0, 0
        for name in ('one', 'two', 'sub/three'):
            kind = S.pick('file', ['valid', 'invalid', 'yaml', 'none'] if name == 'sub/three' else ['valid', 'invalid', 'none']
                          if name == 'one' else ['valid', 'none'])
            path = os.path.join(d, name + '.json')
            if kind == 'none':
                continue
            content = {'valid': '{"l": ["%s"], "d": {"%s": 1}}' % (name, name), 'invalid': '{"l": [',
                       'yaml': 'l:\n - 1\n'}[kind]
            write(path, content.encode(encoding))
            if (name.startswith('sub') and not scan) or (filtered and name == 'one'):
                continue
            if kind == 'valid':
                good += 1
                expected.append(name)
                if name.startswith('sub'):
                    S.reach('subdirectory')
            else:
                bad += 1
        os.chdir(top)
        path = {'absolute': d, 'relative': 'conf', 'dotted': './conf',
                'missing': 'none'}[where]
        if where == 'missing':
            expected, good, bad = [], 0, 0
        kwargs = dict(interpret_as=['JSONSource'], scan_subdirectories=scan)
        if filtered:
            seen = []

            def fname_filter(p):
                seen.append(p)
                return os.path.basename(p) != 'one.json'
            kwargs['fname_filter'] = fname_filter
        if encoding != 'utf-8':
            kwargs['encoding'] = encoding
        if silent:
            kwargs['on_fail'] = DirectorySource.SILENT
        src = DirectorySource(path, **kwargs)
        r, out = S.raises(Exception, src.provide)
        if (not silent and (bad or where == 'missing')) or (silent and bad and not good):
            S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
            S.reach('failed')
            return
        S.check(not r, lambda: 'failed with %r' % (out,))
        S.check(sorted(out.get('l', [])) == sorted(expected) and out.get('d', {}) == {k: 1 for k in expected},
                lambda: 'got %r of %r' % (out, expected))
        if filtered and where != 'missing':
            S.check(all(os.path.exists(p) for p in seen), lambda: 'filter gets the path: %r' % (seen,))
        S.reach('skipped' if bad else 'read')
        if where in ('relative', 'dotted'):
            S.reach('relative')
    finally:
        os.chdir(back)
        shutil.rmtree(top)


@R.harness(quick=[dict()], labels=['read', 'failed'], bounds='a file valid in JSON, YAML, TOML or none, or missing; all '
                                                            'orders and subsets of readers')
def single_file(S):
    top = tempfile.mkdtemp()
    try:
        kind = S.pick('kind', ['json', 'utf-16', 'yaml', 'toml', 'list', 'garbage', 'missing', 'directory'])
        path = os.path.join(top, 'f')
        data = {'json': b'{"a": 1}', 'utf-16': '{"a": 1}'.encode('utf-16'), 'yaml': b'a:\n  b: 1\n', 'toml': b'[a]\nb = 2\n', 'list': b'[1, 2]',
                'garbage': b'\xff\xff{'}.get(kind)
        if data is not None:
            write(path, data)
        elif kind == 'directory':
            os.mkdir(path)
        readers = S.pick('readers', [None, ['JSONSource'], ['TOMLSource', 'JSONSource'], ['YAMLSource'],
                                     [JSONSource, 'YAMLSource'], ['JSONSource', 'TOMLSource', 'YAMLSource'], []])
        encoding = 'utf-16' if kind == 'utf-16' else 'utf-8'
        if kind == 'utf-16' and readers is None:
            readers = FORMAT_SOURCES
        args = (path,) if readers is None else (path, encoding, readers)
        can = {'json': ['JSON', 'YAML'], 'utf-16': ['JSON', 'YAML'], 'yaml': ['YAML'], 'toml': ['TOML']}.get(kind, [])
        names = ['JSON', 'YAML', 'TOML'] if readers is None else [
            (x if isinstance(x, str) else x.__name__)[:4] for x in readers]
        ok = any(n in can for n in names)
        for src in (FileSource(*args), AlternativeSource(FileSource(*args), StaticSource({'alt': 1}))):
            r, out = S.raises(Exception, src.provide)
            if ok:
                S.check(not r, lambda: 'failed: %r' % (out,))
                S.check(out == {'json': {'a': 1}, 'utf-16': {'a': 1}, 'yaml': {'a': {'b': 1}}, 'toml': {'a': {'b': 2}}}[kind], 'read')
                S.reach('read')
            else:
                if isinstance(src, FileSource):
                    S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
                else:
                    S.check(not r and out == {'alt': 1}, lambda: 'alternative used: %r' % (out,))
                S.reach('failed')
    finally:
        shutil.rmtree(top)


@R.harness(quick=[dict()], labels=['provided', 'failed'], bounds='any HTTP status code, four kinds of responses')
def http(S):
    status = S.int('status', 100, 599)
    payload = S.pick('payload', [{'a': 1}, [1], None, 'error', 'connection'])
    url, kw = 'http://example.com/', S.pick('kw', [{}, {'timeout': 3}])
    method = S.pick('method', [None, 'POST'])
    calls = []

    class Response:
        status_code = status

        def json(self):
            if payload == 'error':
                raise file_module.requests.exceptions.JSONDecodeError('x', 'y', 0)
            return payload

    def request(*args, **kwargs):
        calls.append((args, kwargs))
        if payload == 'connection':
            raise file_module.requests.ConnectionError()
        return Response()

    old = file_module.requests.request
    file_module.requests.request = request
    try:
        src = HTTPJSONSource(url, **kw) if method is None else HTTPJSONSource(url, method, **kw)
        r, out = S.raises(Exception, src.provide)
    finally:
        file_module.requests.request = old
    S.check(calls == [((method or 'GET', url), kw)], lambda: 'request made: %r' % (calls,))
    if isinstance(payload, dict) and status < 400:
        S.check(not r and out == payload, 'provided')
        S.reach('provided')
    else:
        S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
        S.reach('failed')


def spec(S, depth, name):
    """a definition, with a function giving what it provides (or ConfigurationError)"""
    kinds = ['static', 'typed', 'json', 'binary', 'broken', 'env', 'import']
    if depth:
        kinds += ['build', 'merging', 'alternative']
    kind = S.pick(name, kinds)
    fails = False
    if kind == 'static':
        cfg = {'a': [S.int('n')]} if S.flag('full') else {}
        d, out = {'type': 'StaticSource', S.pick('arg', ['arg', 'config']): cfg}, cfg
    elif kind == 'typed':
        cfg = {'type': S.pick('type', ['unknown', 'file', 'os', 5, ['x'], '__name__']), 'a': S.int('n')}
        d, out = {'type': 'StaticSource', 'args': [cfg]}, cfg
    elif kind == 'json':
        d, out = {'type': 'JSONSource', 'arg': '{"a": [7]}'}, {'a': [7]}
    elif kind == 'binary':
        d = {'type': 'JSONSource', 'encoding': 'base64', 'args': [{'type': 'binary', 'value': 'eyJjIjogMjF9\n'}]}
        out = {'c': 21}
    elif kind == 'broken':
        d, out, fails = {'type': 'JSONSource', 'args': ['{"a": ']}, None, True
    elif kind == 'env':
        d = {'type': 'EnvironmentSource', 'args': [ENV, 'a'], 'cast_to': {'type': 'lambda', 'operation': '[int(x)]'}}
        out = {'a': [12]}
    elif kind == 'import':
        d = {'type': 'EnvironmentSource', 'args': [ENV], 'cast_to': {
            'type': 'import', 'module': 'builtins', 'attribute': 'bin', 'cast_before': {
                'type': 'lambda', 'operation': 'int(x)'} if S.flag('lambda') else {
                    'type': 'import', 'module': 'builtins', 'attribute': 'int'}}}
        out = {ENV: '0b1100'}
    elif kind == 'build':
        sub, out, fails = spec(S, 0, name + 'b')
        d, out = {'type': 'BuildObjectFrom', 'key': 'k', 'child': sub}, {'k': out}
    else:
        subs = [spec(S, 0, name + 'm%d' % i) for i in range(2)]
        if kind == 'merging':
            silent = S.flag('silent')
            d = {'type': 'MergingSource', 'args': [s[0] for s in subs]}
            if silent:
                d['on_fail'] = MergingSource.SILENT
            out = {}
            for _, o, f in subs:
                if not f:
                    out = ref_merge(out, fresh(o))
            fails = all(s[2] for s in subs) if silent else any(s[2] for s in subs)
        else:
            d = {'type': 'AlternativeSource', 'args': [s[0] for s in subs]}
            fails = subs[0][2] and subs[1][2]
            out = subs[1][1] if subs[0][2] else subs[0][1]
    optional = S.pick('optional', [None, True, False, 1]) if kind in ('broken', 'json', 'merging') else None
    if optional is not None:
        d['optional'] = optional
    if optional and fails:
        fails, out = False, {}
    return d, out, fails


@R.harness(quick=[dict(depth=1)], thorough=[dict(depth=2)], labels=['provided', 'failed', 'list', 'warned'],
           bounds='definitions of sources nested "depth" deep')
def from_dict(S, depth):
    os.environ[ENV] = '12'
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            d, expected, fails = spec(S, depth, 's')
            before = fresh(d)
            if S.flag('list'):
                others = S.pick('others', [[], [{'type': 'BaseSource'}], [{'type': 'JSONSource', 'arg': '['}],
                                           [{'type': 'JSONSource', 'arg': '[', 'optional': True}]])
                src = load_source_from_list([d] + others)
                fails = fails or others == [{'type': 'JSONSource', 'arg': '['}]
                S.reach('list')
            else:
                src = load_source_from_dict(d)
            S.check_eq(d, before, 'the definition is not altered')
            r, out = S.raises(Exception, src.provide)
        if any('type' in str(x.message) and x.category is UserWarning for x in w):
            S.reach('warned')
        else:
            S.check("'type': 'unknown'" not in str(d), 'warned')
        if fails:
            S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
            S.reach('failed')
        else:
            S.check(not r, lambda: 'failed with %r' % (out,))
            S.check_eq(out, expected, 'provided')
            S.reach('provided')
    finally:
        os.environ.pop(ENV, None)


@R.harness(quick=[dict()], labels=['refused'], bounds='twelve definitions of sources that cannot be made')
def bad_definitions(S):
    d = S.pick('d', [{}, {'type': 'Nonexistent'}, {'type': 'StaticSource'}, {'type': 'StaticSource', 'nope': 1},
                     {'type': 'StaticSource', 'args': [1, 2]}, {'type': 'os'}, {'type': 5}, {'args': []},
                     {'type': 'JSONSource', 'arg': {'type': 'binary', 'value': '{"\u0105": 1}'}},
                     {'type': 'JSONSource', 'arg': {'type': 'binary', 'value': '{}', 'encoding': 'no-such'}},
                     {'type': 'EnvironmentSource', 'arg': 'X', 'cast_to': {'type': 'lambda', 'operation': '('}},
                     {'type': 'BuildObjectFrom', 'key': 'k', 'child': {'type': 'StaticSource'}}])
    f = S.pick('f', [load_source_from_dict, lambda d: load_source_from_list([{'type': 'BaseSource'}, d])])
    r, out = S.raises(Exception, f, d)
    S.check(r and isinstance(out, ConfigurationError), lambda: 'fails: %r' % (out,))
    S.reach('refused')
