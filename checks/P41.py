import enum
import itertools

from vt import Part

PARTS = [
    Part('merge_series', 'Transforms', 'G', depth=(3, 8), max_paths=(6000, 60000), shards=(2, 4)),
    Part('merge_list', 'Transforms', 'L', depth=(3, 6), max_paths=(4000, 20000), shards=(1, 2)),
    Part('numbers', 'Transforms', 'N', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('sequences', 'Transforms', 'W', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('values', 'Transforms', 'J', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Series:
    def __init__(self, cfg):
        self.i = None

    def op_merge(self, series):
        from satella.coding.transforms import merge_series
        kinds = [list, iter, tuple, lambda q: (x for x in q)]
        self.i = merge_series(*(kinds[k % 4]([tuple(p) for p in q]) for k, q in enumerate(series)))

    def op_next(self):
        return next(self.i)


def gen_merge_series(w):
    w.replay_spec(Series, [dict(x=0)], final=[O('next')] * 5)
    r = w.rng
    for _ in range(w.n(200, 6000)):
        ss = []
        for _ in range(r.randint(1, 4)):
            ts = sorted(r.sample(range(40), r.choice([0, 1, 2, 5, 9]) if r.random() < .3 else r.randint(1, 9)))
            ss.append([[t, r.randint(-9, 9)] for t in ts])
        w.seq(dict(x=0), [O('merge', ss)] + [O('next')] * (len(set(p[0] for s in ss for p in s)) + 2), Series)


class Lists:
    def __init__(self, cfg):
        self.mode = cfg['mode']

    def op_merge(self, lists):
        from satella.coding.transforms import merge_list
        wrap = dict(sum=lambda v: v, cat=lambda v: [v], dict=lambda v: {'v': v})[self.mode]
        fn = dict(sum=lambda a, b: a + b, cat=lambda a, b: a + b, dict=lambda a, b: {'v': a['v'] + b['v']})[self.mode]
        self.i = merge_list(*(iter([(k, wrap(v)) for k, v in q]) for q in lists), merge_function=fn)

    def op_next(self):
        k, v = next(self.i)
        return k, v['v'] if self.mode == 'dict' else v


def gen_merge_list(w):
    modes = [dict(mode='sum'), dict(mode='cat'), dict(mode='dict')]
    w.replay_spec(Lists, modes, final=[O('next')] * 4)
    r = w.rng
    for i in range(w.n(120, 3000)):
        mode = r.choice(modes)
        ls = []
        for j in range(r.randint(1, 3 if mode['mode'] == 'cat' else 6)):
            ks = sorted(r.randint(0, 5 if r.random() < .5 else 30) for _ in range(r.randint(0, 4 if mode['mode'] == 'cat' else 12)))
            ls.append([[k, r.randint(0, 999)] for k in ks])
        w.seq(mode, [O('merge', ls)] + [O('next')] * (len(set(p[0] for s in ls for p in s)) + 2), Lists)
    # many elements of one key
    w.seq(modes[0], [O('merge', [[[1, 1]] * 1500, [[1, 2], [3, 4]]])] + [O('next')] * 3, Lists)


class E(enum.Enum):
    A = 0
    B = 'b'
    C = (1, 'x')


class Plain:
    def __str__(self):
        return 'an object'


class NoStr:
    def __str__(self):
        return None

    def __repr__(self):
        return 'its repr'


class BadLen:
    def __len__(self):
        return -1


def build(v):
    from satella.json import JSONAble
    t = v[0]
    if t in ('int', 'str', 'bool'):
        return v[1]
    if t == 'none':
        return None
    if t == 'enum':
        return E[v[1]]
    if t == 'seq':
        return [build(x) for x in v[1:]]
    if t == 'tup':
        return tuple(build(x) for x in v[1:])
    if t == 'iter':
        return iter([build(x) for x in v[1:]])
    if t == 'pairs':
        return {build(k): build(x) for k, x in v[1:]}
    if t == 'half':
        return v[1] / 2
    if t in ('inf', 'nan'):
        return float(t)
    if t == 'jsn':
        class J(JSONAble):
            def to_json(self):
                return build(v[1])
        return J()
    return dict(obj=Plain, noobj=NoStr, badlen=BadLen)[t]()


def tree(x):
    from drive import enc, Raw
    if isinstance(x, dict):
        return ['pairs'] + [[tree(k), tree(v)] for k, v in x.items()]
    if isinstance(x, list):
        return ['seq'] + [tree(v) for v in x]
    if type(x) in (int, str, bool, type(None)):
        return enc(x)
    return ['obj', type(x).__name__]


class Numbers:
    def __init__(self, cfg):
        from satella.coding import transforms
        self.t = transforms

    def op_interpolate(self, series, t, clip):
        return 60 * self.t.linear_interpolate([tuple(p) for p in series], t, clip)

    def op_percentile(self, q, p):
        return 4 * self.t.percentile(q, p / 4)

    def op_clip(self, v, a, b):
        return self.t.clip(v, a, b)

    def op_intify(self, v):
        r = self.t.intify(build(v))
        assert type(r) is int or isinstance(r, bool)
        return int(r)

    def op_none_if_false(self, v):
        from drive import Raw
        return Raw(*tree(self.t.none_if_false(build(v))))

    def op_b64encode(self, b):
        return self.t.b64encode(bytes(b))


def gen_numbers(w):
    w.replay_spec(Numbers, [dict(x=0)], final=[])
    r = w.rng
    for _ in range(w.n(150, 4000)):
        t, q = r.randint(-9, 0), []
        for _ in range(r.randint(1, 6)):
            q.append([t, r.randint(-9, 9)])
            t += r.choice([1, 2, 4])
        w.seq(dict(x=0), [O('interpolate', q, r.randint(-10, 25), r.random() < .5),
                          O('percentile', sorted(r.randint(-20, 20) for _ in range(r.randint(1, 9))), r.randint(0, 4)),
                          O('b64encode', [r.randint(0, 255) for _ in range(r.randint(0, 12))])], Numbers)


class Sequences:
    def __init__(self, cfg):
        from satella.coding import transforms
        self.t = transforms

    def op_pad(self, q, n, how):
        c = itertools.count(1)
        q0 = list(q)
        kw = {}
        if how in ('with', 'both'):
            kw['pad_with'] = 0
        if how in ('factory', 'both'):
            kw['pad_with_factory'] = lambda: next(c)
        return [self.t.pad_to_multiple_of_length(q0, n, **kw), q0]

    def op_one_tuple(self, q):
        r = list(self.t.one_tuple(iter(q)))
        assert all(type(x) is tuple for x in r)
        return r

    def op_shuffle(self, q, how, front):
        q0 = list(q)
        if how == 'all':
            return [self.t.split_shuffle_and_join(q0, not_shuffled_to_front=front), q0]
        return [self.t.split_shuffle_and_join(q0, lambda v: how == 'odd' and v % 2 == 1, front), q0]

    def op_indices(self, q):
        return sorted(self.t.list_values_to_indices(list(q)).items(), key=lambda p: q.index(p[0]))

    def op_to_int(self, q):
        return sorted(self.t.hashables_to_int(list(q)).items())

    def op_is_subset(self, a, b):
        return self.t.is_subset(dict(map(tuple, a)), dict(map(tuple, b)))

    def op_unpack(self, d, q, how, rs):
        from drive import exc, Raw
        kw = {}
        if how == 'double':
            kw['map_through'] = lambda y: 2 * y
        elif how == 'keyerror':
            kw['map_through'] = lambda y: {}[y]
        out = []
        try:
            for x in self.t.unpack_dict(dict(map(tuple, d)), *q, raise_if_not_found=rs, **kw):
                out.append(x)
        except Exception as e:
            out.append(Raw(*exc(e)))
        return out


def gen_sequences(w):
    w.replay_spec(Sequences, [dict(x=0)], final=[])


class Values:
    def __init__(self, cfg):
        from satella.coding import transforms
        self.t = transforms

    def op_stringify(self, v, rec, sn):
        from drive import Raw
        return Raw(*tree(self.t.stringify(build(v), recursively=rec, str_none=sn)))

    def op_jsonify(self, v):
        import json
        from drive import Raw
        r = self.t.jsonify(build(v))
        json.dumps(r)
        return Raw(*tree(r))


def gen_values(w):
    w.replay_spec(Values, [dict(x=0)], final=[])
    r = w.rng

    def scalar():
        return r.choice([['int', r.randint(-5, 5)], ['str', r.choice('pqr')], ['none'], ['enum', r.choice('AB')]])

    def value(d):
        x = r.random()
        if d == 0 or x < .3:
            return scalar()
        if x < .75:
            return [r.choice(['seq', 'tup'])] + [value(d - 1) for _ in range(r.randint(0, 3))]
        return ['pairs'] + [[['str', k], value(d - 1)] for k in r.sample('klmnop', r.randint(0, 3))]
    for _ in range(w.n(150, 6000)):
        v = value(3)
        w.seq(dict(x=0), [O('stringify', v, True, r.random() < .5), O('jsonify', v)], Values)


PROP = dict(
    title='Transforms compute what they describe for every input, changing no argument',
    statement='merge_series gives one row for every timestamp at which all the series have a value, each with the latest value of every series, in order, whatever '
              'the timestamps the series start at; merge_list gives each key once, ascending, with all of its values merged, whatever the values are and however '
              'many; linear_interpolate, percentile and clip agree with their definition and stay within the values given; intify raises nothing but ValueError; '
              'jsonify gives a value the json module accepts, and stringify one made of strings, enums being given by value or by label; padding, shuffling, '
              'indexing, unpacking and is_subset answer as documented and leave their arguments alone.',
    over=['inputs', 'histories'],
    text='All the series that are subsets of five timestamps (with one, two and three series) and longer random ones; lists with repeated keys, also 1500 of one'
         ' key, with values that cannot be compared; exact rational arithmetic for the numbers; nested values of two levels exhaustively and of three at random',
    why='A merge of series depends on the relative order of all the timestamps and on which series ends first; the tests have six pairs of series',
    files=['satella/coding/transforms/__init__.py', 'satella/coding/transforms/merger.py', 'satella/coding/transforms/merge_list.py', 'satella/coding/transforms/interpol.py', 'satella/coding/transforms/percentile.py', 'satella/coding/transforms/jsonify.py', 'satella/coding/transforms/words.py', 'satella/coding/transforms/misc.py', 'satella/coding/transforms/predicates.py', 'satella/coding/transforms/base64.py'],
    mech=[('transforms', 'coding/transforms/'), ('series', 'merge_series.py, interpol.py')],
    note='Series with the same timestamp twice, and floating point rounding, are left open',
    design='Specification Transforms.tla, in five parts; what merge_series and merge_list answer is defined by what is in the series, not by how they are read; '
           "base64 and Python's repr are defined in the specification itself.",
)
