from vt import Part

PARTS = [
    Part('predicates', 'Preds', 'P', depth=(1, 1), shards=(2, 4), max_paths=(100000, 100000)),
]
BIN = dict(add='+', sub='-', mul='*', mod='%', floordiv='//', pow='**', lshift='<<', rshift='>>', eq='==', ne='!=', lt='<', le='<=', gt='>', ge='>=')
BIN.update({'and': '&', 'or': '|', 'xor': '^'})
TYPES = dict(int=int, str=str, bool=bool, list=list, object=object)


def O(op, *a):
    return dict(op=op, a=list(a))


class Ob(dict):
    pass


def value(v):
    if v[0] == 'seq':
        return [value(x) for x in v[1:]]
    if v[0] == 'obj':
        o = Ob()
        for n, q in v[1:]:
            q = value(q)
            o[n] = q
            setattr(o, n, q)
            setattr(o, 'get_' + n, lambda q=q: q)
        return o
    return v[1]


def const(e):
    return e[0] == 'n'


def pred(e):
    from satella.coding.predicates import x
    k = e[0]
    if k == 'x':
        return x
    if k == 'n':
        return e[1]
    if k == 'bin':
        return eval('a %s b' % BIN[e[2 - 1]], dict(a=pred(e[2]), b=pred(e[3])))
    p = pred(e[1])
    if k == 'neg':
        return -p
    if k == 'inv':
        return ~p
    if k == 'abs':
        return abs(p)
    if k == 'len':
        return p.length()
    if k in ('false', 'int', 'str', 'type', 'identity'):
        return getattr(p, k)()
    if k == 'item':
        return p[e[2]]
    if k == 'attr':
        return getattr(p, e[2])
    if k == 'call':
        return getattr(p, 'get_' + e[2])()
    if k == 'inside':
        return p.inside(e[2])
    if k == 'one_of':
        return p.one_of(*e[2])
    if k == 'has_keys':
        return p.has_keys(*e[2])
    if k == 'isinst':
        t = tuple(TYPES[n] for n in e[2])
        return p.is_instance(*t) if len(t) > 1 else p.instanceof(t[0])
    if k == 'has':
        return p.has(pred(e[2]))
    raise AssertionError(e)


def struct(s):
    k = s[0]
    if k == 'leaf':
        return value(s[1])
    if k == 'p':
        return pred(s[1]).identity()
    if k == 'list':
        return [struct(q) for q in s[1:]]
    if k == 'tuple':
        return tuple(struct(q) for q in s[1:])
    return {struct(a): struct(b) for a, b in s[1:]}


def shown(v):
    if isinstance(v, list):
        return ['list'] + [shown(q) for q in v]
    if isinstance(v, tuple):
        return ['tuple'] + [shown(q) for q in v]
    if isinstance(v, dict):
        return ['dict'] + [[shown(a), shown(b)] for a, b in v.items()]
    return v


class Sub(int):
    pass


class Ob2(dict):
    def __bool__(self):
        return True


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class Mat:
    def __init__(self, n):
        self.n = n

    def __matmul__(self, o):
        return self.n + ' @ ' + o.n if isinstance(o, Mat) else NotImplemented


Point = __import__('collections').namedtuple('Point', 'a b')
ODD = dict(none=None, true=True, one=1, onef=1.0, big1=Sub(1), zero=0, false=False, s='s', t='t', empty='', elist=[], etuple=(), edict={}, obj=Ob2())


def odd(n):
    return ODD[n]


class Pr:
    def __init__(self, cfg):
        pass

    def op_eval(self, e, v):
        r = pred(e)(value(v))
        if isinstance(r, type):
            return r.__name__
        if isinstance(r, Ob):
            return 'an object'
        return r

    def op_build(self, s, v):
        from satella.coding.predicates import build_structure
        st = struct(s)
        r = shown(build_structure(st, value(v)))
        q = build_structure(st, value(v), lambda y: [y, 1])
        assert shown(q) == ['list', r, 1], (q, r)
        return r


    # ---------------------------------------------------------------- odd values
    def op_odd(self, f, n):
        from satella.coding.predicates import x, build_structure
        v = odd(n)
        k = f[0]
        if k == 'identity':
            return n if x.identity()(v) is v and x(v) is v else 'another'
        if k in ('leaf', 'put'):
            if k == 'leaf':
                r = build_structure([v, (v,)], 4)
                same = (lambda q: q == v and isinstance(v, type(q))) if isinstance(v, (list, tuple, dict)) else (lambda q: q is v)
                return n if same(r[0]) and same(r[1][0]) and same(build_structure({n: v}, None)[n]) else 'another'
            r = build_structure({'a': x, 'b': [x]}, v)
            return [n if q is v else 'another' for q in (r['a'], r['b'][0])]
        if k in ('eq', 'ne'):
            p = x == odd(f[1]) if k == 'eq' else x != odd(f[1])
        elif k == 'one_of':
            p = x.one_of(*map(odd, f[1]))
        elif k == 'isinst':
            p = x.is_instance(*(dict(TYPES, float=float, dict=dict, NoneType=type(None))[t] for t in f[1]))
        elif k == 'half':
            p = x / 2
        elif k == 'prefix':
            p = 'pre' + x
        elif k == 'suffix':
            p = x + 'post'
        elif k == 'matmul':
            p = Mat('obj') @ x
            v = Mat(n)
        elif k == 'rmatmul':
            p = x @ Mat('obj')
            v = Mat(n)
        elif k == 'inv':
            p = ~x
        elif k == 'len':
            p = x.length()
            try:
                a, b = x.len()(v), len(v)
                assert a == b and type(a) is int
            except TypeError:
                pass
        else:
            p = getattr(x, k)()
        r = p(v)
        if k == 'half':
            return int(r * 10)
        if k == 'float':
            return str(r) if type(r) is float else r
        return r.__name__ if isinstance(r, type) else r

    def op_has(self, q, k):
        from satella.coding.predicates import x
        seen = []

        def it():
            for n in q:
                seen.append(n)
                yield [n]                # an unhashable one
        p = x.has(x[0] == k)
        r = p(it())
        assert x.has_p(x[0] == k)(it()) == r
        return [r, len(seen) // 2]

    def op_keys(self, q, k):
        from satella.coding.predicates import x
        seen = []

        class Holder:
            def __contains__(self, n):
                seen.append(n)
                return n in q
        return [x.has_keys(*k)(Holder()), seen]

    def op_kinds(self, k, v):
        import collections
        from satella.coding.predicates import x, build_structure
        from satella.coding.structures import HashableWrapper
        kind = k.replace('wrapped ', '')
        if kind == 'dict':
            s = {'p': x, 'q': x * 2}
        elif kind == 'Point':
            s = Point(x, x * 2)
        else:
            s = dict(MyList=MyList, MyTuple=MyTuple, list=list)[kind]([x, x * 2])
        r = build_structure([HashableWrapper(s)] if k != kind else [s], v)[0]
        return [('wrapped ' if k != kind else '') + type(r).__name__] + (list(r.values()) if kind == 'dict' else list(r))

    def op_schema(self, k):
        from satella.coding.predicates import x
        return x.is_valid_schema({'a': int})({'a': 1} if k == 'int' else {'a': 'z'} if k == 'str' else {'b': 1})


def native(e, v):
    """bounds the numbers (TLC has 32 bits) and keeps to what the model defines"""
    k = e[0]
    if k == 'x':
        r = v
    elif k == 'n':
        r = e[1]
    elif k == 'bin':
        a, b = native(e[2], v), native(e[3], v)
        o = e[1]
        if o in ('and', 'or', 'xor'):
            if type(a) is not type(b) or type(a) is not bool and (a < 0 or b < 0):
                raise ValueError
        elif o in ('mod', 'floordiv'):
            if b <= 0:
                raise ValueError
        elif o in ('pow', 'lshift', 'rshift'):
            if not 0 <= b < 8:
                raise ValueError
        elif o in ('eq', 'ne') and type(a) is not type(b):
            raise ValueError
        if o == 'pow' and type(b) is bool:
            raise ValueError
        r = eval('a %s b' % BIN[o])
    elif k in ('neg', 'abs', 'int'):
        r = int(native(e[1], v))
        r = -r if k == 'neg' else abs(r) if k == 'abs' else r
    elif k == 'inv':
        q = native(e[1], v)
        r = not q if isinstance(q, bool) else ~q
    elif k in ('false',):
        r = not native(e[1], v)
    elif k == 'identity':
        r = native(e[1], v)
    else:
        r = native(e[1], v) in e[2]
        if isinstance(native(e[1], v), bool):
            raise ValueError
    if not isinstance(r, (int, bool)) or abs(r) > 10 ** 6:
        raise ValueError
    return r


def rnd(r, d):
    if d == 0 or r.random() < 0.15:
        return ['x'] if r.random() < 0.7 else ['n', r.randint(-3, 9)]
    k = r.random()
    if k < 0.75:
        a, b = rnd(r, d - 1), rnd(r, d - 1)
        if const(a) and const(b):
            a = ['x']
        return ['bin', r.choice(sorted(BIN)), a, b]
    a = rnd(r, d - 1)
    if const(a):
        a = ['x']
    if k < 0.9:
        return [r.choice(['neg', 'inv', 'abs', 'false', 'int', 'identity']), a]
    return ['one_of', a, [r.randint(-2, 5) for _ in range(3)]]


def rstruct(r, d):
    if d == 0 or r.random() < 0.2:
        while True:
            if r.random() < 0.4:
                return ['leaf', r.choice([['int', r.randint(0, 9)], ['str', r.choice(['', 'a', 'abc'])]])]
            e = rnd(r, 2)
            try:
                if not const(e):
                    native(e, 4)
                    return ['p', e]
            except (ValueError, TypeError):
                pass
    k = r.choice(['list', 'tuple', 'dict'])
    if k == 'dict':
        return ['dict'] + [[['leaf', ['str', 'k%d' % i]] if r.random() < 0.5 else ['p', ['bin', 'add', ['x'], ['n', 100 + i]]], rstruct(r, d - 1)] for i in range(r.randint(0, 3))]
    return [k] + [rstruct(r, d - 1) for _ in range(r.randint(0, 3))]


def gen_predicates(w):
    w.replay_spec(Pr, [dict(x=0)])
    r = w.rng
    n = 0
    while n < w.n(2000, 60000):
        e, v = rnd(r, r.randint(1, 4)), r.randint(-3, 9)
        if const(e):
            continue
        try:
            native(e, v)
        except (ValueError, TypeError):
            continue
        n += 1
        w.seq(dict(x=0), [O('eval', e, ['int', v])], Pr)
    for _ in range(w.n(500, 10000)):
        w.seq(dict(x=0), [O('build', rstruct(r, r.randint(1, 3)), ['int', 4])], Pr)


PROP = dict(
    title='Predicates compute what the expression of x says, structures are built whole',
    statement='An expression made of x (satella.coding.predicates) with any of the arithmetic, bitwise, comparison and unary operators (also with x on the right, and with several predicates combined; ~ negates a truth value), item and attribute access, method calls, length(), int(), str(), type(), false(), has_keys(), one_of(), inside(), has(), instanceof() and '
              'is_instance() is a function that gives exactly what the same Python expression gives for its argument, every time it is called. build_structure gives the same nesting of lists, tuples and dictionaries, of every size, with each predicate replaced by its value, and everything else (strings included) left alone.',
    over=['inputs'], text='all operators on small values, random expressions 4 deep and structures 3 deep',
    why='the guarantee ranges over every expression that can be composed',
    files=['satella/coding/predicates.py'], mech=[('expressions', 'predicates.py PredicateClass'), ('structures', 'predicates.py build_structure')],
    note='floats, and structures containing HashableWrapper, are not checked')
