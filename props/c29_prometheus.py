import io

from engine.harness import Registry
from engine.timestub import controlled
from satella.instrumentation.metrics import MetricData, MetricDataCollection, getMetric
from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus
from satella.instrumentation.metrics.exporters import prometheus as module

R = Registry('C29', assumptions=['names, labels and paths are representative ones',
                                 'the HTTP protocol of the standard library is trusted'])
ESCAPES = {'\\': '\\', '"': '"', 'n': '\n'}


class Wrong(Exception):
    pass


def parse_line(line):
    """:return: name, labels, value, timestamp of one sample of the text exposition format"""
    i = 0
    while i < len(line) and (line[i].isalnum() or line[i] in '_:'):
        i += 1
    name, labels = line[:i], {}
    if not name:
        raise Wrong(line)
    if i < len(line) and line[i] == '{':
        i += 1
        while line[i] != '}':
            j = line.index('=', i)
            k = line[i:j]
            if line[j + 1] != '"' or not k.isidentifier():
                raise Wrong(line)
            i, v = j + 2, []
            while line[i] != '"':
                if line[i] == '\\':
                    v.append(ESCAPES[line[i + 1]])
                    i += 2
                else:
                    v.append(line[i])
                    i += 1
            i += 1
            if k in labels:
                raise Wrong(line)
            labels[k] = ''.join(v)
            if line[i] == ',':
                i += 1
            elif line[i] != '}':
                raise Wrong(line)
        i += 1
    if line[i] != ' ':
        raise Wrong(line)
    rest = line[i + 1:].split(' ')
    if len(rest) > 2:
        raise Wrong(line)
    return name, labels, float(rest[0]), int(rest[1]) if len(rest) == 2 else None


def parse(S, text):
    S.check(text.endswith('\n') or text == '', 'the last line is terminated')
    out = {}
    for line in text.split('\n'):
        if line == '' or line.startswith('#'):
            continue
        try:
            name, labels, value, stamp = parse_line(line)
        except (Wrong, ValueError, LookupError) as e:
            S.fail('malformed: %r' % (line,))
        k = name, frozenset(labels.items())
        S.check(k not in out, 'listed twice')
        out[k] = value, stamp
    return out


CHARS = ['a', '\\', '"', '\n', 'n', '{', '}', ',', '=', ' ', '#', 'ż']


@R.harness(quick=[dict(n=3)], thorough=[dict(n=4)], labels=['text', 'empty', 'number'],
           bounds='label values of up to n characters of all relevant kinds')
def escaping(S, n):
    n = S.choice('n', n + 1)
    v = ''.join(S.pick('char', CHARS) for _ in range(n))
    other = S.pick('other', ['x', 5, None, True]) if n < 3 else 'x'
    mdc = MetricDataCollection(MetricData('m', 1, {'k': v, 'l': other}))
    S.check_eq(parse(S, metric_data_collection_to_prometheus(mdc)),
               {('m', frozenset([('k', v), ('l', str(other))])): (1, None)}, 'rendered')
    S.reach('text' if n else 'empty')
    if other == 5:
        S.reach('number')


@R.harness(quick=[dict()], labels=['internal', 'stamped', 'none', 'dots', 'labels', 'real'],
           bounds='up to 3 entries of any kind with any values up to 20, any times up to 5 s in steps of 1/8 s')
def rendering(S):
    xs, expected = [], {}
    for name, labels in [('a.b.c', {}), ('a', {'k': 1}), ('x:y_z', {'k': '1', 'l': 'v'})]:
        if S.flag('present'):
            internal = S.flag('internal')
            v = S.pick('value', [0, -7, 2.5, 20])
            stamp = S.conc(S.int('stamp', 0, 40)) / 8 if name == 'a' and S.flag('stamped') else None
            xs.append(MetricData(name, v, labels, stamp, internal))
            if internal:
                S.reach('internal')
            else:
                k = name.replace('.', '_'), frozenset((x, str(y)) for x, y in labels.items())
                expected[k] = v, None if stamp is None else int(stamp * 1000)
                S.reach('dots' if '.' in name else 'labels')
                if v == 2.5:
                    S.reach('real')
                if stamp is not None:
                    S.reach('stamped')
    mdc = MetricDataCollection(xs)
    out = metric_data_collection_to_prometheus(mdc)
    S.check_eq(parse(S, out), expected, 'rendered')
    if not xs:
        S.check(out == '\n', 'an empty line')
        S.reach('none')
    S.check(len(mdc.values) == len(xs), 'left as it was')
    S.check(metric_data_collection_to_prometheus(mdc) == out, 'the same again')


class Connection:
    def __init__(self, request):
        self.request = request
        self.out = io.BytesIO()

    def makefile(self, mode, *args):
        return io.BytesIO(self.request)

    def sendall(self, data):
        self.out.write(data)


class Quiet(module.PrometheusHandler):
    def log_message(self, *args):
        pass


@R.harness(quick=[dict(n=2)], thorough=[dict(n=3)], labels=['served', 'not_found', 'counted', 'labels', 'not_counted'],
           bounds='n requests of any of several paths, after any values were reported')
def serving(S, n):
    with controlled(lambda: 100):
        _serving(S, n)


def _serving(S, n):
    getMetric('').reset()
    m = getMetric('app.value', 'int')
    enable = S.flag('enable')
    extra = S.pick('extra', [None, {}, {'host': 'h"1'}, {'host': '\u0105', 'no': 0, 'empty': ''}])
    kept = None
    if S.flag('source of its own'):
        kept = MetricDataCollection(MetricData('own.x', 1, {'l': 'm'}), MetricData('own.y', 2))

        class Exporter(module.PrometheusHTTPExporterThread):
            def get_metric_data(self):
                return super().get_metric_data() + kept
    else:
        Exporter = module.PrometheusHTTPExporterThread
    t = Exporter('127.0.0.1', 0, extra, enable)
    t.httpd.socket.close()
    S.check(t.daemon, 'a daemon')
    served = 0
    for _ in range(n):
        v = S.conc(S.int('value', 0, 2))
        m.runtime(v)
        path = S.pick('path', ['/metrics', '/', '/metrics/', '/metricsx', '/metric', '/a/metrics'])
        c = Connection(('GET %s HTTP/1.0\r\n\r\n' % path).encode())
        Quiet(c, ('127.0.0.1', 1), t.httpd)
        head, _, body = c.out.getvalue().decode('utf8').partition('\r\n\r\n')
        status = int(head.split()[1])
        if path == '/metrics':
            S.check(status == 200, 'served')
            out = parse(S, body)
            labels = frozenset((k, str(v)) for k, v in (extra or {}).items())
            expected = {('app_value', labels): (v, None)}
            if enable:
                for p in (1, 20, 60):
                    expected['prometheus_exports_per_time', labels | {('period', str(p))}] = served, None
                S.reach('counted')
            else:
                S.reach('not_counted')
            if extra:
                S.reach('labels')
            if kept is not None:
                expected['own_x', labels | {('l', 'm')}] = 1, None
                expected['own_y', labels] = 2, None
            S.check(out == expected, 'the report')
            served += 1
            S.reach('served')
        else:
            S.check(status == 404, 'not found')
            S.reach('not_found')
    for d in getMetric().to_metric_data().values:
        S.check('host' not in d.labels, 'the metrics are left as they were')
    if kept is not None:
        S.check({(d.name, frozenset(d.labels.items())) for d in kept.values} ==
                {('own.x', frozenset({('l', 'm')})), ('own.y', frozenset())}, 'the source is left as it was')
