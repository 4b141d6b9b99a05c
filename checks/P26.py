import gc
import operator
import warnings
from fractions import Fraction

from vt import Part

PARTS = [
    Part('generators', 'Iterobj', 'G', depth=(5, 7), shards=(1, 3)),
    Part('wrapper', 'Iterobj', 'W', depth=(4, 5), shards=(2, 6)),
    Part('adapter', 'Iterobj', 'A', depth=(5, 8)),
    Part('construable', 'Iterobj', 'K', depth=(5, 7)),
    Part('seen', 'Iterobj', 'U', depth=(5, 8)),
    Part('average', 'Iterobj', 'R', depth=(6, 9)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Ge:
    known = (StopIteration,)

    def __init__(self, cfg):
        import satella.coding as S
        self.log, self.ran, kind = [], 0, cfg['kind']

        def gen(q, bad):
            for i, x in enumerate(q):
                if i == bad:
                    raise OSError()
                try:
                    v = yield x
                except GeneratorExit:
                    self.log.append(-2)
                    raise
                except KeyError:
                    self.log.append(-3)
                    raise
                self.log.append(-9 if v is None else v)
            self.log.append(-1)

        def act(a, b):
            assert (a, b) == (1, 2)
            self.ran += 1
            if cfg['bad'] == 9:
                raise ValueError()
        q, bad = cfg['q'], cfg['bad']
        if kind == 'closing':
            self.g = S.SelfClosingGenerator(gen)(q, bad) if len(q) % 2 else S.SelfClosingGenerator(gen(q, bad))
        elif kind == 'after':
            self.g = S.run_when_generator_completes(gen(q, bad), act, 1, b=2)
        else:
            gs = [S.hint_with_length(gen(q, bad), 7), S.hint_with_length(gen(q, bad), None, lambda: 7), S.hint_with_length(gen, 7)(q, bad), S.hint_with_length(gen, None, lambda: 7)(q, bad)]
            assert all(operator.length_hint(g) == 7 for g in gs)
            assert operator.length_hint(S.hint_with_length(iter(q), 0)) == 0
            for a in ((None, None), (7, lambda: 7)):
                try:
                    S.hint_with_length(gen(q, bad), *a)
                    assert False
                except ValueError:
                    pass
            self.g = gs[cfg.get('which', 3)]
            for g in gs:
                if g is not self.g:
                    g.close()

    def op_log(self):
        return [self.log, self.ran]

    def op_next(self):
        return next(self.g)

    def op_send(self, v):
        return self.g.send(v)

    def op_rest(self):
        return list(self.g)

    def op_throw(self):
        return self.g.throw(KeyError())

    def op_close(self):
        self.g.close()

    def op_drop(self):
        self.g = None
        gc.collect()

    def op_with(self, bad):
        with self.g as g:
            assert g is self.g
            if bad:
                raise KeyError()

    def op_hint(self):
        return operator.length_hint(self.g)


class Source:
    def __init__(self, q):
        self.q, self.n = iter(q), 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.q)
        self.n += 1
        return x


class Wr:
    known = (StopIteration,)

    def __init__(self, cfg):
        from satella.coding.sequences import ListWrapperIterator
        self.s = Source(cfg['q'])
        self.w = ListWrapperIterator(self.s)
        self.it = []

    def op_next(self):
        return next(self.w)

    def op_get(self, i):
        return self.w[i]

    def op_len(self):
        return len(self.w)

    def op_exhaust(self):
        self.w.exhaust()

    def op_slice(self, a, b):
        return self.w[None if a == 99 else a:None if b == 99 else b]

    def op_has(self, x):
        return x in self.w

    def op_index(self, x):
        return self.w.index(x)

    def op_number(self, x):
        return self.w.count(x)

    def op_all(self):
        return list(self.w)

    def op_backwards(self):
        return list(reversed(self.w))

    def op_iter(self):
        self.it.append(iter(self.w))

    def op_step(self, i):
        return next(self.it[i - 1])

    def op_loaded(self):
        return self.s.n


class Ad:
    known = (StopIteration,)

    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        from satella.coding.sequences import IteratorListAdapter
        self.w = IteratorListAdapter(cfg['q'])

    op_next = Wr.op_next
    op_get = Wr.op_get
    op_len = Wr.op_len
    op_has = Wr.op_has

    def op_all(self):
        return [x for x in self.w]


class Co:
    known = (StopIteration,)

    def __init__(self, cfg):
        from satella.coding.sequences import ConstruableIterator
        self.w = ConstruableIterator(cfg['q'])

    op_next = Wr.op_next
    op_all = Wr.op_all

    def op_add(self, x):
        self.w.add(x)

    def op_add_immediate(self, x):
        self.w.add_immediate(x)

    def op_add_many(self, *q):
        self.w.add_many(iter(q))

    def op_add_many_immediate(self, *q):
        self.w.add_many_immediate(iter(q))

    def op_hint(self):
        return operator.length_hint(self.w)


class Un:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        from satella.coding.sequences import AlreadySeen
        self.w = AlreadySeen()

    def op_unique(self, x):
        return self.w.is_unique(x if x < 10 else [x])


class Av:
    def __init__(self, cfg):
        from satella.coding.sequences import RollingArithmeticAverage
        self.w = RollingArithmeticAverage(cfg['n'])
        self.n, self.max = 0, cfg['n']

    def op_insert(self, x):
        self.n = min(self.n + 1, self.max)
        self.w.insert(Fraction(x))

    def op_avg(self):
        v = self.w.avg() * self.n
        assert v.denominator == 1
        return [int(v), self.n]

    def op_clear(self):
        self.w.clear()
        self.n = 0


GC = [dict(kind='closing', q=[5, 6], bad=-1), dict(kind='closing', q=[], bad=-1), dict(kind='after', q=[5, 6], bad=-1), dict(kind='after', q=[5, 6], bad=1), dict(kind='after', q=[5, 6], bad=9), dict(kind='after', q=[], bad=-1), dict(kind='hint', q=[5, 6], bad=-1)]


def rnd(w, n, cfgs, ops, A, fin):
    r = w.rng
    for _ in range(n):
        w.seq(cfgs(r), [o for _ in range(r.randint(2, 14)) for o in ops(r)] + fin, A)


def gen_generators(w):
    w.replay_spec(Ge, GC, [O('log')])
    r = w.rng
    for _ in range(w.n(300, 8000)):
        kind = r.choice(['closing', 'after', 'hint'])
        q = [r.randint(0, 9) for _ in range(r.randint(0, 5))]
        cfg = dict(kind=kind, q=q, bad=r.choice([-1, -1, r.randint(0, len(q))]) if kind == 'after' and q else -1)
        if cfg['bad'] == len(q):
            cfg['bad'] = -1
        if kind == 'hint':
            cfg['which'] = r.randint(0, 3)
        ops = []
        for _ in range(r.randint(2, 9)):
            o = r.choice(['next'] * 4 + ['send'] * 4 + ['log', 'rest', 'close'] + {'closing': ['with', 'drop'], 'after': ['throw'], 'hint': ['hint']}[kind])
            ops += [O(o, *({'send': [r.randint(0, 9)], 'with': [r.randint(0, 1)]}.get(o, []))), O('log')]
            if o == 'drop':
                break
        w.seq(cfg, ops, Ge)


WF = [O('loaded'), O('next'), O('loaded'), O('all'), O('next'), O('number', 5), O('all'), O('backwards'), O('loaded')]


def gen_wrapper(w):
    w.replay_spec(Wr, [dict(q=[]), dict(q=[5]), dict(q=[5, 6, 5, 7])], WF)
    r = w.rng
    for _ in range(w.n(300, 8000)):
        q = [r.randint(0, 6) for _ in range(r.randint(0, 9))]
        ops, its = [], 0
        for _ in range(r.randint(2, 14)):
            o = r.choice(['next'] * 3 + ['get'] * 3 + ['has', 'slice', 'slice', 'index', 'iter', 'step', 'step', 'step', 'loaded', 'loaded'] + (['len', 'all', 'number', 'exhaust'] if r.random() < 0.2 else []))
            if o == 'iter':
                its += 1
            if o == 'step' and not its:
                continue
            ops.append(O(o, *{'get': lambda: [r.randint(-10, 10)], 'has': lambda: [r.randint(0, 8)], 'index': lambda: [r.randint(0, 8)], 'number': lambda: [r.randint(0, 8)], 'slice': lambda: [r.choice([99, r.randint(-9, 9)]), r.choice([99, r.randint(-9, 9)])],
                              'step': lambda: [r.randint(1, its)]}.get(o, lambda: [])()))
        w.seq(dict(q=q), ops + WF, Wr)


def gen_adapter(w):
    w.replay_spec(Ad, [dict(q=[]), dict(q=[5, 6, 7])], [O('len'), O('all'), O('next')])


def gen_construable(w):
    w.replay_spec(Co, [dict(q=[]), dict(q=[1, 2])], [O('hint'), O('all')])


def gen_seen(w):
    w.replay_spec(Un, [dict(x=0)])
    r = w.rng
    for _ in range(w.n(100, 2000)):
        w.seq(dict(x=0), [O('unique', r.choice([1, 2, 3, 4, 5, 11, 12, 13, 14])) for _ in range(20)], Un)


def gen_average(w):
    w.replay_spec(Av, [dict(n=1), dict(n=2), dict(n=3)], [O('avg')])
    r = w.rng
    for _ in range(w.n(100, 2000)):
        w.seq(dict(n=r.randint(1, 9)), [r.choice([O('insert', r.randint(-9, 9)), O('insert', r.randint(-9, 9)), O('avg'), O('avg'), O('clear')] if r.random() < 0.2 else [O('insert', r.randint(-9, 9)), O('avg')]) for _ in range(30)], Av)


PROP = dict(
    title='Iterator wrappers compute each element once and do their action exactly once',
    statement='SelfClosingGenerator runs its generator to the end when closed, left by a with-statement (however that ends) or deleted, and passes values sent and yielded. run_when_generator_completes runs the action once, exactly when the generator comes to its end by next(), send() or iteration, and never when it is closed or fails. hint_with_length keeps the hint also for '
              'generator functions. A ListWrapperIterator behaves as the list of what its source gives (indexing, also negative, slices, length, membership, index, iterating it any number of times, several iterators at once) and takes from the source, once, no more than needed. IteratorListAdapter, ConstruableIterator, AlreadySeen (also of mixed hashable and unhashable '
              'elements) and RollingArithmeticAverage behave as documented, whatever the sequence of calls.',
    over=['histories'], text='all histories up to a depth, random longer ones',
    why='these objects hold state that every call changes; mistakes appear only in sequences of calls',
    files=['satella/coding/sequences/iterators.py', 'satella/coding/sequences/average.py', 'satella/coding/iterators.py', 'satella/coding/generators.py'],
    mech=[('wrappers', 'iterators.py ListWrapperIterator, ConstruableIterator, AlreadySeen'), ('generators', 'coding/iterators.py, coding/generators.py')],
    note='generators that are collected by the cycle collector at interpreter exit are not checked; floating-point rounding of the average is not checked (fractions are used)')
