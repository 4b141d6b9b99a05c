import asyncio
import copy
import math
import operator
import pickle

from vt import Part

PARTS = [
    Part('proxy', 'Wrappers', 'P', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('lists', 'Wrappers', 'O', depth=(3, 4), max_paths=(8000, 60000), shards=(2, 4)),
    Part('frozen', 'Wrappers', 'F', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('tuples', 'Wrappers', 'T', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


OPS = {'and': operator.and_, 'or': operator.or_, 'divmod': divmod}
IOPS = {f: getattr(operator, 'i' + f) for f in ['add', 'sub', 'mul', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'xor', 'truediv', 'and', 'or']}


def q4(v):
    """in quarters"""
    from drive import Raw
    if isinstance(v, tuple):
        return [q4(x) for x in v]
    return Raw('float') if 4 * v != int(4 * v) else 4 * v


class ProxyOps:
    def __init__(self, cfg):
        from satella.coding.structures import Proxy
        self.P = Proxy

    def out(self, v):
        p = type(v) is self.P
        return [q4(v._get_object() if p else v), p]

    def pair(self, how, a, b, wr):
        x = self.P(a, wr) if wr else self.P(a)
        if how == 'both':
            return x, self.P(b, wr) if wr else self.P(b)
        return (x, b) if how == 'direct' else (b, x)

    def op_binary(self, f, how, a, b, wr):
        x, y = self.pair(how, a, b, wr)
        r = (OPS.get(f) or getattr(operator, f))(x, y)
        if how == 'both' and type(r) is self.P:     # a proxy of what the other one answers
            while type(r._get_object()) is self.P:
                r = r._get_object()
        return self.out(r)

    def op_compare(self, f, how, a, b, wr):
        x, y = self.pair(how, a, b, wr)
        return getattr(operator, f)(x, y)

    def op_inplace(self, f, how, a, b, wr):
        x, y = self.pair(how, a, b, wr)
        z = IOPS[f](x, y)
        v = z._get_object()
        while type(v) is self.P:
            v = v._get_object()
        return [q4(v), z is x]

    def op_unary(self, f, a, wr):
        x = self.P(a, wr) if wr else self.P(a)
        if f in ('neg', 'pos', 'invert', 'abs'):
            r = getattr(operator, f)(x)
        elif f in ('floor', 'ceil', 'trunc'):
            r = getattr(math, f)(x)
        elif f in ('round', 'round1'):
            r = round(x) if f == 'round' else round(x, 1)
            t = type(r._get_object() if wr else r)
            assert t is int, t
        else:
            r = dict(int=int, float=float, index=operator.index, hash=hash, bool=bool, str=str, repr=repr, complex=lambda v: complex(v).real, format='{:d}'.format, hex=hex)[f](x)
            assert f not in ('int', 'float') or type(r).__name__ == f
            return r
        p = type(r) is self.P
        return [r._get_object() if p else r, p]

    def op_matmul(self, how, wr):
        class M:
            def __init__(self, n):
                self.n = n

            def __matmul__(self, other):
                return [self.n, other.n]
        x, y = (M('x'), M('y'))
        if how == 'inplace':
            p = q = self.P(x, wr)
            p @= y
            return [p._get_object(), p is q]
        r = self.P(x, wr) @ y if how == 'direct' else M('y') @ self.P(x, wr)
        if type(r) is self.P:
            return [r._get_object(), True]
        # what M answers itself is never a proxy
        return [r, wr if how == 'reflected' else False]

    def op_async(self, f):
        log = []

        async def five():
            return 5

        class Ctx:
            async def __aenter__(self):
                log.append('enter')

            async def __aexit__(self, a, b, c):
                log.append('exit')

        async def items():
            yield 1
            yield 2
        P = self.P

        async def main():
            if f == 'await':
                return await P(five())
            if f == 'with':
                async with P(Ctx()):
                    log.append('body')
                return log
            async for x in P(items()):
                log.append(x)
            return log
        m = main()
        try:
            m.send(None)
        except StopIteration as e:
            return e.value

    def op_copy(self, f, a):
        p = self.P(a)
        c = getattr(copy, f)(p)
        return [c._get_object(), type(c) is self.P]

    def op_with(self):
        log = []

        class Ctx:
            def __enter__(self):
                log.append('enter')

            def __exit__(self, a, b, c):
                log.append('exit')
        with self.P(Ctx()):
            log.append('body')
        return log

    def op_attr(self):
        from drive import exc, Raw

        class Obj:
            pass
        o = Obj()
        p = self.P(o)
        p.a = 3
        out = [o.a, p.a]
        del p.a
        for x in (o, p):
            try:
                out.append(x.a)
            except Exception as e:
                out.append(Raw(*exc(e)))
        return out

    def op_call(self):
        return self.P(lambda *a, **k: [list(a), [x for p in k.items() for x in p]])(1, 2, k=3)


def gen_proxy(w):
    w.replay_spec(ProxyOps, [dict(x=0)], final=[])


class Lists:
    def __init__(self, cfg):
        from satella.coding.structures import Proxy
        from satella.coding.optionals import Optional
        self.list = [2, 1] if cfg['some'] else None
        self.o = (Proxy if cfg['what'] == 'proxy' else Optional)(self.list)
        self.optional = Optional

    def out(self, v):
        if isinstance(v, self.optional):
            assert not v and len(v) == 0
            return 'empty'
        return v

    def op_len(self):
        return len(self.o)

    def op_bool(self):
        return bool(self.o)

    def op_call(self):
        return self.out(self.o())

    def op_attr(self):
        return self.out(self.o.nothing)

    def op_extract(self):
        from satella.coding.optionals import extract_optional
        v = extract_optional(self.o)
        assert not isinstance(self.o, self.optional) or v is self.list
        return None if v is None else list(v)

    def op_order(self):
        return [f(self.o, [2, 1]) for f in (operator.lt, operator.le, operator.gt, operator.ge)]

    def op_iter(self):
        return list(self.o)

    def op_reversed(self):
        return list(reversed(self.o))

    def op_sort(self):
        self.o.sort()

    def op_get(self, k):
        return self.out(self.o[k])

    def op_del(self, k):
        del self.o[k]

    def op_set(self, k, v):
        self.o[k] = v

    def op_in(self, k):
        return k in self.o

    def op_eq(self, k):
        return self.o == [2, k]

    def op_append(self, k):
        return self.out(self.o.append(k))

    def op_extend(self, k):
        o = self.o
        self.o += [k]
        return self.o is o

    def op_slice(self, k):
        return self.o[:k]


def gen_lists(w):
    w.replay_spec(Lists, [dict(what='proxy', some=True), dict(what='optional', some=True), dict(what='optional', some=False)], final=[O('extract')])


def tried(fn):
    from drive import Raw, exc
    try:
        return fn()
    except Exception as e:
        return Raw(*exc(e))


class Frozen:
    def __init__(self, cfg):
        pass

    def fd(self, p):
        from satella.coding.structures import frozendict
        return frozendict([tuple(x) for x in p])

    def op_frozendict(self, p, how):
        f = self.fd(p)
        k = p[0][0] if p else 9

        def ior():
            nonlocal f
            g = f
            f |= {k: 5}
            if f is not g:
                f = g
        r = tried(dict(setitem=lambda: f.__setitem__(k, 5), delitem=lambda: f.__delitem__(k), update=lambda: f.update({k: 5}), updatekw=lambda: f.update(a=5), pop=lambda: f.pop(k, None),
                       popitem=lambda: f.popitem(), clear=lambda: f.clear(), setdefault=lambda: f.setdefault(55, 5), ior=ior)[how])
        return [r, [list(x) for x in f.items()]]

    def op_fcopy(self, p, how):
        f = self.fd(p)
        g = pickle.loads(pickle.dumps(f)) if how == 'pickle' else getattr(copy, how)(f)
        return [[list(x) for x in g.items()], f == g and hash(f) == hash(g), type(g) is type(f), tried(lambda: g.__setitem__(1, 2))]

    def op_fsame(self, p, q):
        f, g = self.fd(p), self.fd(q)
        assert (f != g) == (not (f == g))
        return [f == g, f != g or hash(f) == hash(g), len({f: 1, g: 2})]

    def op_fread(self, p):
        f = self.fd(p)
        return [len(f), [list(x) for x in f.items()], tried(lambda: f[p[0][0] if p else 1])]

    def make(self, slots):
        from satella.coding.structures import Immutable

        class A(Immutable):
            def __init__(self):
                self.x = 4
                self.x = 5

        class B(Immutable):
            __slots__ = ('x', 'other')

            def __init__(self):
                self.x = 4
                self.x = 5
                self.other = 1
                del self.other
        return (B if slots else A)()

    def op_immutable(self, how, slots):
        a = self.make(slots)

        def aug():
            a.x += 1
        r = tried(dict(set=lambda: setattr(a, 'x', 6), setnew=lambda: setattr(a, 'other', 6), delnew=lambda: delattr(a, 'other'), aug=aug, **{'del': lambda: delattr(a, 'x')})[how])
        return [r, a.x]

    def op_icopy(self, how, slots):
        a = getattr(copy, how)(self.make(slots))
        return [a.x, tried(lambda: setattr(a, 'x', 1))]

    def op_ifailed(self):
        """an instance whose constructor failed does not lock another one"""
        from satella.coding.structures import Immutable

        class A(Immutable):
            def __init__(self, bad):
                self.x = 5
                if bad:
                    raise ValueError()
                self.x = 5
        r = tried(lambda: A(True))
        return [r, A(False).x]

    objs = dict(d1={1: 2}, d2={1: 2}, i=5, t=(1, 2))

    def op_hashable(self, x, y):
        from satella.coding.structures import HashableWrapper
        a, b = HashableWrapper(self.objs[x]), HashableWrapper(self.objs[y])
        return [a == b, a != b, a != b or hash(a) == hash(b), len({a: 1, b: 2})]

    def op_unequal(self, x):
        from satella.coding.structures import NotEqualToAnything, NOT_EQUAL_TO_ANYTHING
        n = NotEqualToAnything() if x == 1 else NOT_EQUAL_TO_ANYTHING
        return [n == 5, n != n, n == n]


def gen_frozen(w):
    w.replay_spec(Frozen, [dict(x=0)], final=[])


class Tuples:
    def __init__(self, cfg):
        from satella.coding import structures
        self.s = structures
        self.tnt = structures.typednamedtuple('tnt', ('x', int), ('y', float))

    def op_vector(self, f, a, b):
        V = self.s.Vector
        x, y = V(a), V(b)
        r = getattr(operator, f)(x, y)
        return [type(r) is V and x == V(a) and y == V(b)] + list(r)

    def op_scale(self, f, a, n):
        V = self.s.Vector
        x = V(a)
        r = getattr(operator, f)(x, n)
        return [type(r) is V and x == V(a)] + [4 * v for v in r]

    def op_setzip(self, a, b, c):
        z = self.s.SetZip(set(a), set(b))
        z += set(c)
        got = list(z)
        assert len(got) == len(z)
        return [len(z), sorted(set(got)), [k - 2 in z for k in range(8)]]

    def op_tuple(self, pos, kw):
        def v(x):
            return dict(i=lambda: x[1], s=lambda: str(x[1]), h=lambda: x[1] / 2, bad=lambda: 'bad')[x[0]]()
        t = self.tnt(*(v(x) for x in pos), **{k: '7' for k in kw})
        assert t == (t.x, t.y) and t[0] == t.x and len(t) == 2
        return [2 * t.x, 2 * t.y, type(t.x).__name__, type(t.y).__name__, isinstance(t, self.tnt), isinstance(t, tuple)]

    def op_subclass(self):
        tnt = self.tnt

        class S(tnt):
            def total(self):
                return self.x + self.y
        s = S(3, '5')
        t = tnt(3, 5)
        return [s.total(), isinstance(s, S), repr(t), tnt.__name__]


def gen_tuples(w):
    w.replay_spec(Tuples, [dict(x=0)], final=[])
    r = w.rng
    for _ in range(w.n(60, 1000)):
        n = r.randint(0, 8)
        a, b = ([r.randint(-99, 99) for _ in range(n)] for _ in range(2))
        w.seq(dict(x=0), [O('vector', r.choice(['add', 'sub', 'iadd', 'isub']), a, b), O('scale', r.choice(['mul', 'imul']), a, r.randint(-3, 9)),
                          O('setzip', a, b, [r.randint(-3, 3) for _ in range(4)])], Tuples)


PROP = dict(
    title='Wrappers answer as what they wrap, and what is frozen never changes',
    statement='Every operation upon a Proxy - arithmetic and bitwise on either side and in place, comparison, conversion, rounding, container, attribute, call, '
              'context manager and asynchronous ones - is the operation upon the wrapped object, wrapped again if and only if asked for; an Optional of something is '
              'that, and one of None is empty: nothing done to it raises, changes anything, or compares true; HashableWrapper makes == and != and hashing agree upon '
              'identity; no operation changes a frozendict or an Immutable once made, a frozendict can be hashed and copied, equal ones having equal hashes; '
              'typednamedtuple makes instances of the type returned, with the fields converted, and refuses a wrong set of arguments; Vector and SetZip compute '
              'elementwise.',
    over=['inputs', 'histories'],
    text='Thirteen binary operators, in three positions, with and without wrapping, over small numbers; all the sequences of list operations up to the depth '
         'upon a proxy, an optional and an empty one; every mutator of a dictionary; all the ways of giving and omitting fields',
    why='The classes have some seventy operators and the tests call a handful; one that forwards wrongly in one position is not noticed',
    files=['satella/coding/structures/proxy.py', 'satella/coding/optionals.py', 'satella/coding/structures/hashable_objects.py', 'satella/coding/structures/immutable.py', 'satella/coding/structures/typednamedtuple.py', 'satella/coding/structures/tuples.py', 'satella/coding/structures/zip_dict.py'],
    mech=[('proxying', 'structures/proxy.py Proxy; optionals.py'), ('immutability', 'structures/immutable.py')],
    note='Vectors of different lengths, and attribute assignment upon an empty Optional, are left open',
    design='Specification Wrappers.tla: the operators over integers are defined in the specification (the bitwise ones bit by bit), lists as sequences, frozen '
           'dictionaries as sets of pairs.',
)
