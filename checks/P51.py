import enum
import functools
import queue
import warnings

from vt import Part

PARTS = [
    Part('updates', 'Helpers', 'U', depth=(2, 3), max_paths=(20000, 200000), shards=(2, 4)),
    Part('callables', 'Helpers', 'C', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('closing', 'Helpers', 'O', depth=(4, 6), max_paths=(3000, 40000), shards=(1, 4)),
    Part('queue', 'Helpers', 'Q', depth=(5, 7), max_paths=(3000, 40000), shards=(1, 4)),
    Part('consumers', 'Helpers', 'Q', mode='lin', design=False, shards=(2, 4)),
]
KEYS = ['a', 'b', 'c']
VALS = {-1: None, 3: '', 4: 'text', 5: []}


def O(op, *a):
    return dict(op=op, a=list(a))


def val(c):
    return VALS.get(c, c)


def code(v):
    return next((c for c in VALS if type(VALS[c]) is type(v) and VALS[c] == v), v)


class Slots:
    __slots__ = ('a', 'b', 'c')


class Plain:
    pass


class Updates:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        self.d = {}
        self.o = Slots() if cfg['slots'] else Plain()

    def ans(self, r):
        if r is self.d:
            return [[k, code(self.d[k])] for k in sorted(self.d)]
        assert r is self.o, r
        return [[k, code(getattr(self.o, k))] for k in KEYS if hasattr(self.o, k)]

    def op_if_true(self, k, v):
        from satella.coding import update_key_if_true
        return self.ans(update_key_if_true(self.d, k, val(v)))

    def op_flag(self, k, v, f):
        from satella.coding import update_key_if_true
        return self.ans(update_key_if_true(self.d, k, val(v), val(f)))

    def op_if_not_none(self, k, v):
        from satella.coding import update_key_if_not_none
        return self.ans(update_key_if_not_none(self.d, k, val(v)))

    def op_old1(self, k, v):
        from satella.coding import update_key_if_none
        return self.ans(update_key_if_none(self.d, k, val(v)))

    def op_old2(self, k, v):
        from satella.coding import update_if_not_none
        return self.ans(update_if_not_none(self.d, k, val(v)))

    def op_all_not_none(self, q):
        from satella.coding import update_key_if_not_none
        src = {k: val(v) for k, v in q}
        r = self.ans(update_key_if_not_none(self.d, src))
        assert src == {k: val(v) for k, v in q}
        return r

    def op_del(self, k):
        self.d.pop(k, None)
        if hasattr(self.o, k):
            delattr(self.o, k)

    def op_attr(self, k, v, b):
        from satella.coding import update_attr_if_none
        return self.ans(update_attr_if_none(self.o, k, val(v), b) if not b else update_attr_if_none(self.o, k, val(v)))

    def op_attr_value(self, k, v):
        from satella.coding import update_attr_if_none
        return self.ans(update_attr_if_none(self.o, k, val(v), if_value_is_not_none=True))


def gen_updates(w):
    w.replay_spec(Updates, [dict(slots=False), dict(slots=True)])
    r = w.rng
    for _ in range(w.n(150, 3000)):
        ops = []
        for _ in range(r.randint(3, 10)):
            k, v = r.choice(KEYS), r.choice([-1, 0, 1, 2, 3, 4, 5])
            o = r.choice(['if_true', 'flag', 'if_not_none', 'old1', 'old2', 'all_not_none', 'del', 'attr', 'attr_value'])
            ops.append(O(o, *{'flag': [k, v, r.choice([-1, 0, 1, 3, 4, 5])], 'all_not_none': [[[q, r.choice([-1, 0, 1, 4])] for q in r.sample(KEYS, r.randint(0, 3))]], 'del': [k], 'attr': [k, v, r.random() < 0.7]}.get(o, [k, v])))
        w.seq(dict(slots=r.random() < 0.5), ops, Updates)


# ---------------------------------------------------------------- callables
class Colour(enum.Enum):
    RED = 'value of member'


class Number(enum.IntEnum):
    ONE = 1


class Callables:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')

    def second(self, kind, calls):
        def note(*a):
            calls.append(a)
            return [kind] + [-1 if x is None else x for x in a]

        class C:
            def m1(self, x):
                return note(x)

            def m0(self):
                return note()

            @classmethod
            def cm1(cls, x):
                return note(x)

            @staticmethod
            def sm0():
                return note()

        class C1:
            def __new__(cls, x):
                return note(x)

        class C0:
            def __new__(cls):
                return note()

        def needs_nothing():
            pass

        def one(x):
            return note(x)

        def opt(x=None):
            return note(x)

        def star(*a):
            return note(*a)

        def zero():
            return note()

        def kwonly(*, k=1):
            return note()

        def two(x, y):
            return note(x, y)

        def err1(x):
            note(x)
            raise TypeError('boom')

        def err0():
            note()
            raise TypeError()

        def noargs(x):
            note(x)
            raise TypeError()

        def inner(x):
            note(x)
            return needs_nothing(x)

        def pair(a, b):
            return note(a, b)
        return dict(one=one, opt=opt, star=star, zero=zero, kwonly=kwonly, two=two, err1=err1, err0=err0, noargs=noargs, inner=inner, m1=C().m1, m0=C().m0, cm1=C.cm1, sm0=C.sm0,
                    c1=C1, c0=C0, partial=functools.partial(pair, 9), builtin0=[1].clear, len=len)[kind]

    def op_chain(self, f, g, q):
        from satella.coding import chain_callables
        first, calls = [], []

        def sum_(a, b=2):
            first.append((a, b))
            if f == 'fail':
                raise ValueError()
            return a + b if f == 'sum' else None
        c = chain_callables(sum_, self.second(g, calls))
        try:
            res = c(*q[:1], **dict(b=q[1]) if len(q) > 1 else {})
        except Exception as e:
            res = e
        return [len(first), len(calls), res]

    def op_enum(self, k):
        from satella.coding import enum_value
        v = dict(member=Colour.RED, none=None, number=4)
        if k == 'class':
            assert enum_value(Colour) is Colour
        elif k == 'int member':
            r = enum_value(Number.ONE)
            assert r == 1 and type(r) is int
        else:
            assert enum_value(v[k]) is getattr(v[k], 'value', v[k])
        return 'value of ' + k

    def op_source(self, k, v):
        from satella.coding import source_to_function
        if k == 'callable':
            f = lambda x: x * 2
            assert source_to_function(f) is f
            return f(v)
        f = source_to_function(k)
        assert f(5) == eval(k, dict(x=5))
        return f(v)

    def op_iterate(self, q):
        from satella.coding.optionals import iterate_if_nnone
        if not q:
            assert list(iterate_if_nnone(None)) == [] and list(iterate_if_nnone(())) == []
        class Falsy(list):
            def __bool__(self):
                return False
        assert list(iterate_if_nnone(Falsy(q))) == q
        src = iter(q)
        assert iterate_if_nnone(src) is iter(src)
        return list(iterate_if_nnone(q))

    def op_call_nn(self, k, q):
        from satella.coding.optionals import call_if_nnone
        return call_if_nnone(None if k == 'none' else lambda a, b=2: a + b, *q[:1], **dict(b=q[1]) if len(q) > 1 else {})

    def op_import(self, k):
        from satella.imports import import_class
        import collections.abc
        import os.path
        try:
            r = import_class(k)
        except ModuleNotFoundError as e:
            raise ImportError(str(e))
        assert r is eval(k, dict(collections=collections, os=os))
        return k

    def op_disabled(self, why):
        from satella.warnings import mark_temporarily_disabled
        n = []
        with warnings.catch_warnings(record=True) as c:
            warnings.simplefilter('always')
            f = mark_temporarily_disabled(why)(lambda: n.append(1))
        try:
            r = f()
        except NotImplementedError as e:
            r = e
            assert why in str(e)
        return [len(c) == 1 and why in str(c[0].message), r, len(n)]

    def op_clock(self, t):
        import time
        from satella.time import time_as_int, time_ms, time_us
        saved = time.time, time.time_ns
        time.time = lambda: t / 1000 + 0.0004
        time.time_ns = lambda: t * 10 ** 6 + 400
        try:
            r = [time_as_int(), time_ms(), time_us()]
            assert all(type(x) is int for x in r)
            return r
        finally:
            time.time, time.time_ns = saved


def gen_callables(w):
    w.replay_spec(Callables, [dict(x=0)])


# ---------------------------------------------------------------- closing
class Closing:
    def __init__(self, cfg):
        from satella.coding import Closeable
        self.n, self.o = {}, {}
        n = self.n

        class Thing(Closeable):
            def __init__(self, k, half):
                self.k = k
                if half:
                    raise KeyError()
                super().__init__()

            def close(self):
                if super().close():
                    n[self.k] += 1
                    return True
        self.Thing = Thing

    def warned(self, f):
        with warnings.catch_warnings(record=True) as c:
            warnings.simplefilter('always')
            r = f()
        return [any(issubclass(x.category, UserWarning) for x in c), r]

    def op_new(self, k, half):
        self.n[k] = 0
        self.o[k] = self.Thing.__new__(self.Thing)
        try:
            self.o[k].__init__(k, half)
        except KeyError:
            assert half

    def op_close(self, k):
        before = self.n[k]
        q, r = self.warned(self.o[k].close)
        assert bool(r) == (self.n[k] > before)
        return [q, self.n[k]]

    def op_closed(self, k):
        return self.warned(lambda: self.o[k].closed)

    def op_with(self, k, fails):
        inside = []

        def f():
            try:
                with self.o[k] as o:
                    assert o is self.o[k]
                    n = self.n[k]
                    if fails:
                        1 / 0
            except ZeroDivisionError as e:
                r = ZeroDivisionError()
            else:
                r = None
            inside.append(self.n[k] > n)
            return r
        q, r = self.warned(f)
        return [q, self.n[k], inside[0], r]

    def op_reopen(self, k):
        self.o[k].__init__(k, False)

    def op_gone(self, k):
        import gc

        def f():
            del self.o[k]
            gc.collect()
        q, _ = self.warned(f)
        return [q, self.n[k]]


def gen_closing(w):
    w.replay_spec(Closing, [dict(x=0)])


# ---------------------------------------------------------------- a queue
class Queue:
    def __init__(self, cfg):
        self.q = queue.Queue()
        self.it = {}

    def op_put(self, v):
        self.q.put(v)

    def op_take(self):
        try:
            return self.q.get(block=False)
        except queue.Empty:
            return None

    def op_iter(self, k):
        from satella.coding import queue_iterator
        self.it[k] = queue_iterator(self.q)
        assert iter(self.it[k]) is self.it[k]

    def op_next(self, k):
        if k not in self.it:
            raise StopIteration()
        return next(self.it[k])


def gen_queue(w):
    w.replay_spec(Queue, [dict(x=0)])
    r = w.rng
    for _ in range(w.n(100, 2000)):
        w.seq(dict(x=0), [r.choice([O('put', r.randint(0, 9)), O('put', r.randint(0, 9)), O('take'), O('iter', r.randint(1, 2)), O('next', 1), O('next', 2), O('next', 1)]) for _ in range(r.randint(4, 14))], Queue)


def gen_consumers(w):
    r = w.rng
    for _ in range(w.n(40, 1500)):
        pre = [O('put', i) for i in range(r.randint(0, 3))] + [O('iter', 1), O('iter', 2), O('iter', 3)]
        lanes = [[O('next', k) for _ in range(r.randint(1, 3))] for k in (1, 2)] + [[r.choice([O('put', 5), O('take'), O('next', 3)]) for _ in range(r.randint(1, 3))]]
        w.lin(dict(x=0), lanes, Queue, setup=pre, budget=30, rnd=20)


PROP = dict(
    title='Helpers update, chain, close and iterate exactly as they say, once',
    statement='update_key_if_true, update_key_if_not_none (with a value or with a whole dictionary) and update_attr_if_none change nothing but the key or attribute named, only under their condition, whatever the value (None, zero, empty) and give back the thing given. Of chained callables each is called exactly once: the second with the answer of the first '
              'if it can take it, or with nothing if it takes nothing, and what either raises comes out. A Closeable is to be cleaned up exactly once for every time it was initialized, by close(), the end of a with-statement (however it ends, the exception coming through) or its end, and never if its constructor did not finish. '
              'queue_iterator gives what is in the queue, each once and in order whoever else takes from it, ending without blocking or raising when it is found empty. enum_value, source_to_function, iterate_if_nnone, call_if_nnone, import_class, mark_temporarily_disabled and the integer clocks answer as documented.',
    over=['inputs', 'histories', 'schedules'], text='all short histories of updates over odd values, every kind of callable chained, histories of closing 4 (6) deep, of a queue 5 (7) deep, three threads at one queue',
    why='tests use a value or two, plain functions, and one thread',
    files=['satella/coding/misc.py', 'satella/coding/optionals.py', 'satella/imports.py', 'satella/time/misc.py', 'satella/warnings.py'],
    mech=[('updates', 'misc.py update_key_if_true, update_key_if_not_none, update_attr_if_none'), ('chaining', 'misc.py chain_callables'), ('closing', 'misc.py Closeable'), ('queue', 'misc.py queue_iterator'), ('the rest', 'optionals.py iterate_if_nnone, call_if_nnone; imports.py import_class; warnings.py; time/misc.py')],
    note='closing one thing from two threads at once is not checked (Closeable does not claim to be thread-safe); callables without a signature are only checked with an argument they take')
