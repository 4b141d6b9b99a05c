import json

from vt import Part

PARTS = [
    Part('tree', 'MTree', 'T', depth=(3, 4), max_paths=(5000, 60000), shards=(2, 6)),
    Part('data', 'MTree', 'D', depth=(3, 4), max_paths=(5000, 60000), shards=(2, 6)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Tree:
    def __init__(self, cfg):
        from satella.exceptions import MetricAlreadyExists
        from satella.instrumentation.metrics import getMetric
        self.known = MetricAlreadyExists, AssertionError
        getMetric('').reset()

    def get(self, name, type_, **k):
        from satella.instrumentation.metrics import getMetric
        return getMetric(name, type_, **k)

    def op_get(self, name, type_, level):
        from satella.instrumentation.metrics import MetricLevel
        from satella.exceptions import MetricAlreadyExists
        try:
            m = self.get(name, type_, **({} if level == 'none' else dict(metric_level=MetricLevel[level])))
        except MetricAlreadyExists as e:
            assert (e.name, e.requested_type) == (name, type_) and e.existing_type != type_
            raise
        assert m is self.get(name, type_) and m.CLASS_NAME == type_
        return m.get_fully_qualified_name()

    def op_handle(self, name, type_, level, v):
        from satella.instrumentation.metrics import MetricLevel
        m = self.get(name, type_)
        if level == 'DISABLED' or v % 2:
            m.handle(MetricLevel[level], v)
        else:
            getattr(m, level.lower())(v)

    def op_level(self, name, type_, level):
        from satella.instrumentation.metrics import MetricLevel
        self.get(name, type_).level = MetricLevel[level]

    def op_level_of(self, name, type_):
        return self.get(name, type_).level

    def op_report(self, name, type_):
        m = self.get(name, type_)
        up = name.rpartition('.')[0]
        r = []
        seen = set()
        for x in m.to_metric_data().values:
            assert not x.labels and x.timestamp is None and not x.internal
            n = up + '.' + x.name if up else x.name
            assert n not in seen, 'reported twice'
            seen.add(n)
            r.append([n, x.value])
        order = ['', 'a', 'a.b', 'a.b.c', 'a.bc', 'd', 'd.e']
        return sorted(r, key=lambda p: order.index(p[0]))

    def op_reset(self, name, type_):
        self.get(name, type_).reset()

    def op_badname(self, name):
        self.get(name, 'int')


TYPES = {'': ['base'], 'a': ['base', 'base', 'int', 'empty'], 'a.b': ['base', 'int', 'counter'], 'a.b.c': ['counter', 'int', 'base'], 'a.bc': ['counter', 'int'], 'd': ['empty', 'int', 'base'], 'd.e': ['int', 'counter']}
LEVELS = ['none', 'DISABLED', 'RUNTIME', 'DEBUG', 'INHERIT']


def gen_tree(w):
    w.replay_spec(Tree, [dict(x=0)], final=[O('report', '', 'base')])
    r = w.rng
    for _ in range(w.n(300, 8000)):
        kind = {n: r.choice(t) for n, t in TYPES.items()}   # mostly the same type
        q = []
        for _ in range(r.randint(4, 25)):
            n = r.choice(list(TYPES))
            t = kind[n] if r.random() < 0.9 else r.choice(TYPES[n])
            o = r.choice(['get', 'get', 'handle', 'handle', 'handle', 'level', 'level_of', 'report', 'reset' if r.random() < 0.3 else 'report', 'badname' if r.random() < 0.1 else 'get'])
            if o == 'get':
                q.append(O('get', n, t, r.choice(LEVELS + ['none'] * 3)))
            elif o == 'handle':
                q.append(O('handle', n, t, r.choice(LEVELS[1:4]), r.randint(-3, 9)))
            elif o == 'level':
                q.append(O('level', n, t, r.choice(LEVELS[1:])))
            elif o == 'badname':
                q.append(O('badname', r.choice(['a-b', 'a b', 'a.b.ż', 'a/b', 'a.\u017f', 'stra\u00dfe', 'a\n'])))
            else:
                q.append(O(o, n, t))
        w.seq(dict(x=0), q + [O('report', '', 'base'), O('report', 'a', kind['a'])], Tree)


NASTY = 'q"\\\n\\n,{}='
LAB = dict(no={}, none=dict(k=None), k=dict(k='v'), nasty=dict(k=NASTY, l='2'))


class Data:
    def __init__(self, cfg):
        from satella.instrumentation.metrics import MetricDataCollection
        self.c = [MetricDataCollection(), MetricDataCollection()]
        self.n = 0

    def labels(self, lab):
        r = dict(LAB[lab.rstrip('+')])
        n = len(lab) - len(lab.rstrip('+'))
        if n:
            r['extra'] = n
        return r

    def made(self, name, lab, v, ts, internal):
        from satella.instrumentation.metrics import MetricData
        return MetricData(name, v, self.labels(lab), None if ts == -1 else ts / 4, internal)

    def op_put(self, w, name, lab, v, ts, internal):
        from satella.instrumentation.metrics import MetricDataCollection
        m = self.made(name, lab, v, ts, internal)
        self.n += 1
        if self.n % 3 == 0:
            self.c[w - 1] = self.c[w - 1] + m
        elif self.n % 3 == 1:
            self.c[w - 1] += m
        else:
            self.c[w - 1] += MetricDataCollection(m)

    def clone(self, w):
        """the other one, sharing no elements"""
        from satella.instrumentation.metrics import MetricDataCollection, MetricData
        return MetricDataCollection([MetricData(x.name, x.value, dict(x.labels), x.timestamp, x.internal) for x in self.c[2 - w].values])

    def op_join(self, w):
        self.n += 1
        if self.n % 2:
            self.c[w - 1] += self.clone(w)
        else:
            self.c[w - 1] = self.c[w - 1] + self.clone(w)

    def op_copy(self, w):
        from satella.instrumentation.metrics import MetricDataCollection
        self.c[w - 1] = MetricDataCollection(self.clone(w))
        c = MetricDataCollection(self.c[w - 1])
        c += self.made('other', 'no', 1, -1, False)     # the original does not change

    def op_prefix(self, w, p):
        return self.c[w - 1].prefix_with(p) is self.c[w - 1]

    def op_postfix(self, w, p):
        return self.c[w - 1].postfix_with(p) is self.c[w - 1]

    def op_labels(self, w):
        for x in list(self.c[w - 1].values):
            n = x.labels.get('extra', 0)
            x.add_labels(dict(extra=n + 1)) if False else None
        # each of them gets one more
        new = {}
        for x in self.c[w - 1].values:
            new[x.labels.get('extra', 0)] = 1
        if len(new) <= 1:
            self.c[w - 1].add_labels(dict(extra=next(iter(new), 0) + 1))
        else:
            from satella.instrumentation.metrics import MetricDataCollection
            q = []
            for x in self.c[w - 1].values:
                x.add_labels(dict(extra=x.labels.get('extra', 0) + 1))
                q.append(x)
            self.c[w - 1] = MetricDataCollection(*q)

    def op_value(self, w, v):
        return self.c[w - 1].set_value(v) is self.c[w - 1]

    def op_stamp(self, w, t):
        return self.c[w - 1].set_timestamp(t / 4) is self.c[w - 1]

    def op_external(self, w):
        self.c[w - 1].remove_internals()

    def all(self, c):
        return sorted([(x.name, sorted(x.labels.items()), x.value, -1 if x.timestamp is None else x.timestamp, x.internal) for x in c.values], key=repr)

    def op_json(self, w):
        from satella.instrumentation.metrics import MetricDataCollection
        from satella.json import json_encode
        c = self.c[w - 1]
        j = json.loads(json_encode(c))
        a, b = MetricDataCollection.from_json(j), MetricDataCollection.from_json(j)
        return self.all(a) == self.all(b) == self.all(c) and c.strict_eq(a)

    def op_eq(self, w):
        a, b = self.c[w - 1], self.c[2 - w]
        return [a == b, a.strict_eq(b)]

    def op_reset_leaf(self, t, labels):
        from satella.instrumentation.metrics import getMetric
        getMetric('').reset()
        getMetric('a.other', 'int').runtime(1)
        m = getMetric('a.leaf', t)
        m.runtime(*([] if t == 'cps' else [1]), **(dict(l='x') if labels else {}))
        there = lambda: any(x.name.startswith('a.leaf') for x in getMetric('').to_metric_data().values)
        r = there()
        m.reset()
        assert any(x.name == 'a.other' for x in getMetric('').to_metric_data().values)
        return [r, there()]

    def op_size(self, w):
        return len(self.c[w - 1].values)

    def op_has(self, w, name, lab):
        m = self.made(name, lab, 0, -1, False)
        if m not in self.c[w - 1].values:
            return None
        x, = [x for x in self.c[w - 1].values if x == m]
        assert hash(x) == hash(m)
        return [x.value, -1 if x.timestamp is None else x.timestamp * 4, x.internal]

    def op_prometheus(self, w, name, lab):
        from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus
        t = metric_data_collection_to_prometheus(self.c[w - 1])
        assert t == '' or t.endswith('\n')
        lines = [parse(x) for x in t.split('\n') if x]
        got = [(v, ts) for n, l, v, ts in lines if n == name.replace('.', '_') and l == {k: str(x) for k, x in self.labels(lab).items()}]
        return [len(lines)] + [got[0][0] if got else None, got[0][1] if got else None]


def parse(line):
    """a line of the text format of Prometheus"""
    i = 0
    while i < len(line) and (line[i].isalnum() or line[i] in '_:'):
        i += 1
    name, labels = line[:i], {}
    if line[i] == '{':
        i += 1
        while line[i] != '}':
            j = line.index('=', i)
            key = line[i:j]
            assert line[j + 1] == '"' and key not in labels
            i = j + 2
            v = ''
            while line[i] != '"':
                if line[i] == '\\':
                    i += 1
                    v += {'\\': '\\', '"': '"', 'n': '\n'}[line[i]]
                else:
                    v += line[i]
                i += 1
            labels[key] = v
            i += 1
            if line[i] == ',':
                i += 1
        i += 1
    assert line[i] == ' '
    rest = line[i + 1:].split(' ')
    ts = -1
    if len(rest) == 2:
        ts = int(rest[1])
        assert ts % 250 == 0, 'in milliseconds'
        ts //= 250
    return name, labels, int(rest[0]), ts


def gen_data(w):
    w.replay_spec(Data, [dict(x=0)], final=[O('size', 1), O('size', 2), O('json', 1), O('eq', 1)])
    r = w.rng
    names, labs = ['x', 'x.y', 'z'], list(LAB)
    for _ in range(w.n(300, 8000)):
        q = []
        for _ in range(r.randint(3, 14)):
            n = r.randint(1, 2)
            o = r.choice(['put', 'put', 'put', 'put', 'join', 'copy', 'labels', 'external', 'json', 'eq', 'prefix', 'postfix', 'value', 'stamp', 'prometheus', 'has'])
            if o == 'put':
                q.append(O('put', n, r.choice(names + ['p.x', 'x.p']), r.choice(labs + ['k+', 'nasty+']), r.randint(-5, 5), r.choice([-1, 3, 4]), r.random() < 0.3))
            elif o in ('prefix', 'postfix'):
                q.append(O(o, n, r.choice('ps')))
            elif o in ('value', 'stamp'):
                q.append(O(o, n, r.randint(1, 9)))
            elif o in ('prometheus', 'has'):
                q.append(O(o, n, r.choice(names + ['p.x', 'x.p']), r.choice(labs + ['k+', 'nasty+'])))
            else:
                q.append(O(o, n))
        w.seq(dict(x=0), q + [O('size', 1), O('size', 2), O('json', 1), O('eq', 1)] + [O('has', i, a, b) for i in (1, 2) for a in ('x', 'p.x') for b in ('no', 'k', 'k+')], Data)


PROP = dict(
    title='The tree of metrics and the data it reports',
    statement='getMetric gives the one metric of that name - creating the missing ancestors, at the given level or INHERIT, the root at RUNTIME - or raises MetricAlreadyExists if it is of another type, ValueError for a forbidden character, TypeError for a child of a leaf, and then does not register it; a given level is set also if the metric exists. A value is accepted exactly when the effective level (own or of the nearest ancestor that does not inherit) is at least that of the call. '
              'A container reports, under full names, each leaf below it once, other than those below a child whose effective level is higher than its parent\'s. reset() removes the metric and all under it, and nothing else. '
              'A MetricDataCollection is a map from name and labels: a later element replaces the earlier one, also after names or labels change; JSON and Prometheus text say exactly the same things, the latter without the internal ones.',
    over=['histories', 'inputs'], text='trees of 7 names and 4 types, histories of 4 (5) operations and random ones of 25; two collections of data, with labels full of special characters', why='tests never reset, change the levels or create below a leaf, and look up one value by its name',
    files=['satella/instrumentation/metrics/__init__.py', 'satella/instrumentation/metrics/metric_types/base.py', 'satella/instrumentation/metrics/metric_types/empty.py', 'satella/instrumentation/metrics/metric_types/simple.py', 'satella/instrumentation/metrics/data.py', 'satella/instrumentation/metrics/exporters/prometheus.py'],
    mech=[('tree', 'metrics/__init__.py getMetric; base.py Metric'), ('data', 'data.py MetricData, MetricDataCollection'), ('Prometheus', 'exporters/prometheus.py')],
    note='a metric that has been reset is not used again through an old reference; labels that become equal after add_labels are unspecified')
