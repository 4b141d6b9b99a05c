import itertools
import warnings

from vt import Part

PARTS = [
    Part('functions', 'Iters', 'F', depth=(1, 1), shards=(2, 4), max_paths=(100000, 100000)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


PR = dict(odd=lambda x: x is not None and x % 2 == 1, big=lambda x: x is not None and x > 1, none=lambda x: x is None, all=lambda x: True)


def n_(x):
    return None if x == -99 else x


class Counter:
    def __init__(self, v):
        self.v = v

    def add(self, o):
        self.v += o
        return 'what it returns does not matter'

    def mul(self, o):
        self.v *= o

    def __isub__(self, o):
        self.v -= o
        return self


def call(f, p, q, src):
    """src makes an iterable out of a list"""
    import satella.coding.sequences as S
    import satella.coding.iterators as I
    v = [n_(x) if not isinstance(x, list) else x for x in q]
    g = lambda: src(list(v))
    if f in ('even', 'odd', 'unique', 'is_last'):
        return getattr(S, f)(g())
    if f in ('length', 'index_of_max', 'filter_out_nones', 'filter_out_false'):
        return getattr(S, f)(g() if f != 'index_of_max' else list(v))
    if f in ('map_list', 'to_iterator'):
        def fun(x):
            return x + 10
        return S.map_list(fun, g()) if f == 'map_list' else S.to_iterator(fun)(g())
    if f == 'smart_zip':
        return S.smart_zip(src([(x, x + 1) for x in v]), g())
    if f == 'exhaust':
        it = iter(g())
        r = I.exhaust(it)
        assert list(it) == []
        return r
    if f == 'dict_of_list':
        return S.iter_dict_of_list({i: list(range(x)) for i, x in enumerate(v)})
    if f == 'count':
        return S.count(g(), p[0], p[1])
    if f == 'enumerate2':
        return S.enumerate2(g(), *p)
    if f == 'smart_enumerate':
        return S.smart_enumerate(src([[x, x] if i % 2 else (x, x) for i, x in enumerate(v)]) if not callable(getattr(src, 'endless', None)) else ((x, x) for x in g()), *p)
    if f == 'add_next':
        return S.add_next(g(), bool(p[0]), bool(p[1]))
    if f == 'half_cartesian':
        return S.half_cartesian(list(v), bool(p[0]))
    if f == 'group_quantity':
        return S.group_quantity(p[0], g())
    if f in ('shift', 'skip_first', 'stop_after'):
        return getattr(S, f)(g(), p[0])
    if f == 'zip_shifted':
        return S.zip_shifted((g(), p[0]), (g(), 0))
    if f == 'no_longer':
        return S.other_sequence_no_longer_than(src([0] * p[0]) if not hasattr(src, 'endless') else [0] * p[0], g())
    if f == 'iterate_callable':
        return S.iterate_callable(lambda i: v[i], p[0])
    if f == 'take_n':
        return S.take_n(g(), *p)
    if f == 'n_th':
        return S.n_th(g(), *p)
    if f == 'is_empty':
        return S.is_empty(g(), bool(p[0]))
    if f in ('choose', 'choose_one', 'choose_with_index', 'index_of'):
        return getattr(S, f)(PR[p[0]], g())
    if f == 'append_sequence':
        return S.append_sequence(src([[x, x] if i % 2 else (x, x) for i, x in enumerate(v)]), *p)
    if f == 'f_range':
        return S.f_range(*p)
    if f == 'infinite_iterator':
        return itertools.islice(S.infinite_iterator(n_(p[0])), 4)
    if f == 'infinite_factory':
        c = itertools.count(1)
        return itertools.islice(S.infinite_iterator(return_factory=lambda: next(c)), 4)
    if f == 'infinite_counter':
        return itertools.islice(S.infinite_counter(*p), 4)
    if f == 'make_list':
        for deep in (False, True):
            e = [p[0]]
            r = S.make_list(e, p[1], deep)
            assert all(x == e and x is not e for x in r) and len({id(x) for x in r}) == p[1]
        assert all(x == [] for x in S.make_list([], 3)) and len({id(x) for x in S.make_list([], 3, deep)} ) <= 3
        e = []
        r = S.make_list(e, 2)
        assert r[0] is not r[1] and r[0] is not e
        e = [[1]]
        assert all((x[0] is e[0]) != deep for deep in (False, True) for x in S.make_list(e, 2, deep))
        return S.make_list(n_(p[0]), p[1])
    if f == 'multirun':
        cs = [Counter(x) for x in v]
        if p[0] == 3:
            m = S.Multirun(cs)
            m -= p[1]
            assert isinstance(m, S.Multirun) and bool(m) == bool(cs)
            return [[c.v for c in m], [c.v for c in cs]]
        name = {1: 'add', 2: 'mul'}[p[0]]
        r = getattr(S.Multirun(src(cs)), name)(p[1])
        assert all(a is b for a, b in zip(r, cs))
        ds = [Counter(x) for x in v]
        assert getattr(S.Multirun(src(ds), dont_return_list=True), name)(p[1]) is None
        assert [c.v for c in ds] == [c.v for c in cs]
        return [[c.v for c in r], [c.v for c in cs]]
    if f == 'chain':
        return I.chain(*(p[:1] + [src(p[1:] + v[:1]), src(v[1:])]))
    if f == 'seen':
        s = S.AlreadySeen()
        return [s.is_unique([x] if x < 0 else x if x < 5 else str(x)) for x in v]
    if f == 'chain_odd':
        class Old:
            def __getitem__(self, i):
                return [8, 9][i]
        return [' ab'.index(x) if isinstance(x, str) else x for x in I.chain(Old(), 'ab', {3: 4}, None, src([5]), src([]), [[6]])]
    if f == 'smart_zip_odd':
        return S.smart_zip(src([[1], [2]]), src([(3, 4), (5,)]), src([(), (6, [7])]))
    if f == 'instances':
        return [bool(S.is_instance(t)(x)) for t in (int, str, (int, str), bool) for x in (1, 'a', True, None)]
    if f == 'walk':
        calls = []

        def kids(t):
            calls.append(1)
            return t[1:] if len(t) > 1 or len(calls) % 2 else None
        return [t[0] for t in S.walk([0] + list(v), kids, bool(p[0]), bool(p[1]))]
    raise AssertionError(f)


def norm(r):
    if r is None or isinstance(r, (bool, int)):
        return r
    return [norm(x) for x in list(r)]       # all of them first: what was given before does not change afterwards


class Taken:
    def __init__(self, q):
        self.q, self.n = iter(q), 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.q)
        self.n += 1
        return x


class Endless:
    endless = staticmethod(lambda: 1)

    def __call__(self, q):
        return Taken(x for x in itertools.count())


class Fu:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')

    def op_call(self, f, p, q):
        out = []
        for src in (list, tuple, iter, lambda l: (x for x in l), Taken):
            try:
                out.append(norm(call(f, p, q, src)))
            except (ValueError, IndexError, TypeError) as e:
                out.append(e)
        if isinstance(out[0], Exception):
            assert all(type(x) is type(out[0]) for x in out), out
            raise out[0]
        assert all(x == out[0] and type(x) is type(out[0]) for x in out), ('different for a list, tuple, iterator, generator', out)
        return out[0]

    def op_few(self, f, p, n):
        return norm(itertools.islice(call(f, p, [], Endless()), n))

    def op_used(self, f, p, q):
        warnings.simplefilter('ignore')
        box = []

        def src(l):
            box.append(Taken(l))
            return box[-1]
        try:
            norm(call(f, p, q, src))
        except (ValueError, IndexError):
            pass
        return box[-1].n


def gen_functions(w):
    w.replay_spec(Fu, [dict(x=0)])
    r = w.rng
    for _ in range(w.n(1500, 50000)):
        q = [r.choice([-99, 0, 1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(r.randint(0, 14))]
        pos = [x for x in q if x != -99]
        f = r.choice(['even', 'odd', 'unique', 'length', 'is_last', 'add_next', 'group_quantity', 'shift', 'zip_shifted', 'skip_first', 'stop_after', 'take_n', 'n_th', 'choose', 'choose_one', 'index_of', 'choose_with_index', 'filter_out_nones',
                      'filter_out_false', 'index_of_max', 'half_cartesian', 'enumerate2', 'multirun', 'no_longer', 'chain', 'f_range', 'append_sequence', 'dict_of_list', 'iterate_callable', 'smart_zip', 'seen'])
        i = lambda a, b: r.randint(a, b)
        p = {'add_next': [i(0, 1), i(0, 1)], 'group_quantity': [i(1, 6)], 'shift': [i(-9, len(pos))], 'zip_shifted': [i(-9, len(pos))], 'skip_first': [i(0, 9)], 'stop_after': [i(0, 9)], 'take_n': [i(0, 9), i(0, 9)], 'n_th': [i(0, 9)], 'no_longer': [i(0, 9)],
             'iterate_callable': [i(0, 9)], 'half_cartesian': [i(0, 1)], 'enumerate2': [i(-3, 3), i(-3, 3)], 'multirun': [i(1, 3), i(1, 5)], 'chain': [i(0, 9)] * i(0, 3), 'f_range': [i(-9, 9), i(-9, 9), r.choice([-3, -2, -1, 1, 2, 3])], 'append_sequence': [i(0, 9)] * i(0, 3)}.get(f, [])
        if f in ('choose', 'choose_one', 'index_of', 'choose_with_index'):
            p = [r.choice(list(PR))]
        elif f == 'seen':
            q = [r.randint(-3, 7) for _ in q]
        else:
            q = pos
        if f == 'f_range':
            q = []
        w.seq(dict(x=0), [O('call', f, p, q)], Fu)


PROP = dict(
    title='Sequence functions give the documented elements for any kind of iterable',
    statement='The functions of satella.coding.sequences and satella.coding.iterators (even, odd, unique, count, enumerate2, smart_enumerate, is_last, add_next, half_cartesian, group_quantity, shift, zip_shifted, skip_first, stop_after, take_n, n_th, length, is_empty, choose, choose_one, choose_with_index, index_of, index_of_max, filter_out_nones, filter_out_false, make_list, '
              'map_list, to_iterator, smart_zip, append_sequence, other_sequence_no_longer_than, iter_dict_of_list, f_range, iterate_callable, infinite_iterator, infinite_counter, walk, Multirun, chain, exhaust) give exactly the elements that their documentation states, in order, of any length (also empty and shorter than asked for), the same for a list, a tuple, an '
              'iterator and a generator. Those giving iterators are lazy (they work with endless sources), and those that need only a beginning take no more of the source.',
    over=['inputs'], text='all sequences of up to 4 elements, small parameters, random longer ones; 5 kinds of iterables',
    why='boundary lengths, one-shot sources and combinations of parameters are too many for examples',
    files=['satella/coding/sequences/iterators.py', 'satella/coding/sequences/sequences.py', 'satella/coding/sequences/choose.py', 'satella/coding/iterators.py'], mech=[('lazy functions', 'iterators.py'), ('the rest', 'sequences.py, choose.py')],
    note='shift() by more than the length of the sequence, groups of 0 and half_cartesian of a one-shot iterator are not defined')
