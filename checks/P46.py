import abc

from vt import Part

PARTS = [
    Part('overload', 'Classes', 'V', depth=(3, 4), max_paths=(9000, 60000), shards=(2, 4)),
    Part('signatures', 'Classes', 'L', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('docs', 'Classes', 'D', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('wrapping', 'Classes', 'W', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class A:
    pass


class B(A):
    pass


class C(B):
    pass


TYPES = dict(object=object, A=A, B=B, C=C, int=int, bool=bool, str=str)
VALUES = dict(object=object(), A=A(), B=B(), C=C(), int=3, bool=True, str='s')


def make(sig, result):
    """a function of this signature"""
    import inspect

    def f(*args, **kwargs):
        return result
    params = ['p%d' % i for i in range(len(sig))]
    ns = dict(TYPES, result=result)
    exec('def f(%s):\n    return result' % ', '.join(p if t == 'any' else '%s: %s' % (p, t) for p, t in zip(params, sig)), ns)
    return ns['f']


class Overload:
    def __init__(self, cfg):
        self.o, self.n = None, 0

    def op_overload(self, sig):
        from satella.coding import overload
        f = make(sig, self.n + 1)
        if self.o is None:
            self.o = overload(f)
            assert self.o.__wrapped__ is f
        else:
            r = self.o.overload(f)
            assert r is self.o
        self.n += 1
        assert len(list(self.o.all_functions)) == self.n
        return self.n

    def op_call(self, types, kw):
        args = [VALUES[t] for t in types]
        return self.o(**{'p%d' % i: v for i, v in enumerate(args)}) if kw else self.o(*args)


def gen_overload(w):
    w.replay_spec(Overload, [dict(x=0)], final=[])
    r = w.rng
    ts = sorted(TYPES)
    for _ in range(w.n(250, 8000)):
        n = r.randint(1, 3)
        ops = [O('overload', [r.choice(ts + ['any']) for _ in range(n if r.random() < .8 else r.randint(0, 3))]) for _ in range(r.randint(1, 6))]
        ops += [O('call', [r.choice(ts) for _ in range(n)], r.random() < .5) for _ in range(6)]
        w.seq(dict(x=0), ops, Overload)


class Signatures:
    def __init__(self, cfg):
        pass

    def op_lt(self, g, h):
        from satella.coding import TypeSignature
        return TypeSignature.from_fun(make(g, 0)) < TypeSignature.from_fun(make(h, 0))


def gen_signatures(w):
    w.replay_spec(Signatures, [dict(x=0)], final=[])


class Docs:
    def __init__(self, cfg):
        pass

    def body(self, name, parts, members=('m', 'n')):
        d = {'count': 2, '__module__': __name__, '__qualname__': name}
        if 'cls' in parts:
            d['__doc__'] = name
        for m in members:
            def f(self):
                pass
            f.__doc__ = name if m in parts else None
            d[m] = f
        return d

    def docs(self, c):
        return [c.m.__doc__, c.n.__doc__, c.__doc__]

    def op_parent(self, own, f, mo, g):
        from satella.coding import DocsFromParent
        Grand = type('Grand', (), self.body('Grand', g))
        Father = type('Father', (Grand,), self.body('Father', f))
        Mother = type('Mother', (), self.body('Mother', mo))
        Child = DocsFromParent('Child', (Father, Mother), self.body('Child', own))
        assert issubclass(Child, Father) and issubclass(Child, Mother) and Child.__name__ == 'Child' and Child.count == 2
        return self.docs(Child)

    def op_copy(self, own, src):
        from satella.coding import CopyDocsFrom
        Source = type('Source', (), self.body('Source', src))
        Target = CopyDocsFrom(Source)('Target', (), self.body('Target', own))
        return self.docs(Target)


def gen_docs(w):
    w.replay_spec(Docs, [dict(x=0)], final=[])


def tried(fn):
    from drive import Raw, exc
    try:
        return fn()
    except Exception as e:
        return Raw(*exc(e))


class Wrapping:
    def __init__(self, cfg):
        pass

    def op_wrap_with(self, sel, dont, psel):
        from satella.coding import wrap_with, dont_wrap, wrap_property

        def d(name, f):
            return dont_wrap(f) if name in dont else f

        def double(fun):
            return lambda self, *a: 2 * fun(self, *a)

        class Base(abc.ABC):
            @abc.abstractmethod
            def one(self, x):
                pass

            def inherited(self):
                return 7

        def one(self, x):
            return 1

        def two(self):
            return 2

        def three(self, x, y):
            return 3

        class K(Base, metaclass=wrap_with(double, wrap_property(double), lambda f: f.__name__ in sel, lambda p: psel)):
            locals().update(one=d('one', one), two=d('two', two), three=d('three', three))

            @property
            def p(self):
                return 50
        k = K()
        return [k.one(1), k.two(), k.three(1, 2), k.p, k.inherited(), isinstance(k, Base) and K.__name__ == 'K']

    def op_wrap_property(self, which, has):
        from satella.coding import wrap_property
        log = []

        class K:
            v = 5

            def get(self):
                """doc"""
                return self.v

            def set_(self, v):
                self.v = v

            def del_(self):
                log.append('plain')
        p = property(K.get, K.set_ if 'set' in has else None, K.del_ if 'del' in has else None)
        kw = {}
        if 'get' in which:
            kw['getter'] = lambda f: lambda self: 2 * f(self)
        if 'set' in which:
            kw['setter'] = lambda f: lambda self, v: f(self, 10 * v)
        if 'del' in which:
            kw['deleter'] = lambda f: lambda self: log.append('wrapped')
        K.x = wrap_property(**kw)(p)
        k = K()
        out = [k.x]

        def put():
            k.x = 3
            return k.x

        def rem():
            del k.x
            return log[-1]
        return out + [tried(put), tried(rem), K.x.__doc__]

    def op_metaclass(self, x, y, derived):
        from satella.coding import metaclass_maker
        MA = type('MA', (type,), {})
        MB = type('MB', (type,), {})
        m = dict(type=type, MA=MA, MB=MB, MAsub=type('MAsub', (MA,), {}), ABCMeta=abc.ABCMeta)
        X = m[x]('X', (), {'f': lambda self: 3})
        Y = m[y]('Y', (X,) if derived and (issubclass(m[y], m[x])) else (), {})
        if Y.__mro__[1] is X:
            K = metaclass_maker('K', (Y,), {})
        else:
            K = metaclass_maker('K', (X, Y), {})
        K2 = metaclass_maker('K2', (K,), {})
        return [isinstance(K, m[x]) and isinstance(K, m[y]), isinstance(K2, type(K)) and K.__name__ == 'K', K().f()]

    def op_class_or_instance(self, how):
        from satella.coding import class_or_instancemethod

        class K:
            @class_or_instancemethod
            def f(self_or_cls, x):
                assert x == 1
                if isinstance(self_or_cls, Sub):
                    return 'subinstance'
                if isinstance(self_or_cls, K):
                    return 'instance'
                return 'subclass' if self_or_cls is Sub else 'class' if self_or_cls is K else None

        class Sub(K):
            pass
        return {'class': K, 'instance': K(), 'subclass': Sub, 'subinstance': Sub()}[how].f(1)

    def op_in_context(self, how, n):
        from satella.coding import wrap_callable_in_context_manager
        log = []

        class Ctx:
            def __init__(self, *a, **k):
                self.a = list(a) + [x for p in k.items() for x in p]

            def __enter__(self):
                log.append('enter')
                log.append(self.a)

            def __exit__(self, a, b, c):
                log.append('exit')
                return how == 'swallowed'

        def name(*a, **k):
            log.append(list(a) + [x for p in k.items() for x in p])
            if how != 'returns':
                raise ValueError()
            return a[0]
        f = wrap_callable_in_context_manager(name, Ctx, 1, k=2)
        assert not log
        for i in range(n):
            r = tried(lambda: f(5 + i, z=9))
        return [r, log, f.__name__]

    def op_empty_context(self, how):
        from satella.coding import EmptyContextManager
        with EmptyContextManager(1, 2, x=3) as e:
            assert isinstance(e, EmptyContextManager)
            if how == 'raises':
                raise ValueError()
        return 5

    def op_static(self, how, n):
        from satella.coding import static_var
        if how == 'function':
            def fs():
                @static_var('counter', 2)
                def f():
                    f.counter += 1
                return f
        else:
            def fs():
                class K:
                    @static_var('counter', 2)
                    def f(self):
                        K.f.counter += 1
                return K().f
        f, g = fs(), fs()
        for _ in range(n):
            f()
        return [f.counter, g.counter]


def gen_wrapping(w):
    w.replay_spec(Wrapping, [dict(x=0)], final=[])


PROP = dict(
    title='Overloaded calls go to the most specific function; metaclasses do their part',
    statement='A call of an overloaded function goes to a function whose signature matches the arguments, such that no other that matches is more specific, whatever '
              'the order they were given in and however many arguments they have, and raises TypeError if there is none; TypeSignatures are ordered by generality; '
              'documentation is inherited breadth-first, for every method and the class, and never replaces what is there; wrap_with wraps the selected members and '
              'no others; a class made by metaclass_maker is an instance of the metaclasses of all of its bases; a callable wrapped in a context manager runs inside '
              'of a fresh one each time; static variables are those of their function.',
    over=['inputs', 'histories', 'configurations'],
    text='All the sequences of up to three overloads of fifteen signatures with calls of twelve kinds of arguments, and longer random ones with up to three '
         'arguments; all the placements of documentation in four classes; all selections of members; all the pairs of five metaclasses',
    why='Which function is the most specific depends on the order they were registered in and on the whole set of signatures; the test has two of them, in one '
        'order',
    files=['satella/coding/overloading.py', 'satella/coding/metaclasses.py', 'satella/coding/ctxt_managers.py', 'satella/coding/fun_static.py', 'satella/coding/typing.py'],
    mech=[('dispatch', 'overloading.py overload, TypeSignature'), ('documentation', 'metaclasses.py CopyDocsFrom, DocsFromParent'), ('wrapping', 'metaclasses.py wrap_with, wrap_property; ctxt_managers.py')],
    note='Variable arguments, string annotations, static and class methods under wrap_with, and can_be_called_with_args are left open',
    design='Specification Classes.tla: dispatch as a partial order of signatures; inheritance of documentation as a search; the rest by what can be observed of '
           'the resulting class.',
)
