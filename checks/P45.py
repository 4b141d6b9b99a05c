import enum
import operator

from vt import Part

PARTS = [
    Part('mixins', 'Mixins', 'M', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('assert_equal', 'Mixins', 'A', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]
STRINGS = ['', 'a', 'ab', 'b']


def hashes(a, b):
    """that equal ones hash the same, and how many keys they are"""
    return [a != b or hash(a) == hash(b), len({a: 1, b: 2})]


def eqs(a, b):
    return [a == b, a != b, b == a, b != a]


def order(a, b):
    return [f(a, b) for f in (operator.lt, operator.le, operator.gt, operator.ge)]


class Mixins:
    def __init__(self, cfg):
        from satella.coding.structures import ComparableAndHashableBy, ComparableAndHashableByInt, ComparableAndHashableByStr, OmniHashableMixin, HashableMixin, DictionaryEQAble, \
            ComparableEnum, ComparableIntEnum, HashableIntEnum, StrEqHashableMixin, OnStrOnlyName, ReprableMixin

        class By(ComparableAndHashableBy):
            _COMPARABLE_BY = 'n'

            def __init__(self, n):
                self.n = n

        class ByProperty(ComparableAndHashableBy):
            _COMPARABLE_BY = 'half'

            def __init__(self, n):
                self.m = 2 * n

            @property
            def half(self):
                return self.m // 2

        class ByInt(ComparableAndHashableByInt):
            def __init__(self, n):
                self.n = n

            def __int__(self):
                return self.n

        class ByStr(ComparableAndHashableByStr):
            def __init__(self, n):
                self.n = n

            def __str__(self):
                return STRINGS[self.n]

        class Omni(OmniHashableMixin):
            _HASH_FIELDS_TO_USE = ('a', 'b')

            def __init__(self, a, b):
                self.a, self.b, self.c = a, b, object()

        class Omni2(Omni):
            pass

        class Omni3(OmniHashableMixin):
            _HASH_FIELDS_TO_USE = ('a', 'b')
            __init__ = Omni.__init__

        class OmniStr(Omni):
            _HASH_FIELDS_TO_USE = 'a'

        class OmniStr2(OmniStr):
            pass

        class OmniStr3(Omni3):
            _HASH_FIELDS_TO_USE = 'a'

        class Id(HashableMixin):
            def __init__(self, n=0):
                pass

        class D(DictionaryEQAble):
            c = 5

            def __init__(self, pairs=()):
                for k, v in pairs:
                    setattr(self, k, v)

        class D2(DictionaryEQAble):
            c = 5
            __init__ = D.__init__

        class Dsub(D):
            pass

        class CE(ComparableEnum):
            A = 'test'
            B = 2

        class CE2(ComparableEnum):
            A = 'test'
            C = 3

        class Plain(enum.Enum):
            A = 'test'
            B = 2

        class CIE(ComparableIntEnum):
            A = 0
            C = 2

        class CIE2(ComparableIntEnum):
            C = 2

        class HIE(HashableIntEnum):
            C = 2

        class SE(StrEqHashableMixin):
            def __init__(self, s):
                self.s = s

            def __str__(self):
                return self.s

        class Named(OnStrOnlyName, enum.Enum):
            A = 0
            B = 'b'
            C = None

        class Inner(ReprableMixin):
            def __init__(self, q):
                for k, v in enumerate(q):
                    setattr(self, 'f%d' % k, v)
                self._REPR_FIELDS = tuple('f%d' % k for k in range(len(q)))
        Inner.__module__ = 'module'
        Inner.__qualname__ = 'Outer.Inner'
        self.c = dict(locals())
        self.kinds = dict(by=By, byproperty=ByProperty, byint=ByInt, bystr=ByStr, id=Id, omni=lambda n: Omni(n, n), omnistr=lambda n: OmniStr(n, n), dict=lambda n: D([('a', n)]))

    def op_order(self, k, x, y):
        a, b = self.kinds[k](x), self.kinds[k](y)
        return eqs(a, b) + hashes(a, b) + order(a, b)

    def op_foreign(self, k, f):
        return eqs(self.kinds[k](1), dict(none=None, list=[], object=object())[f])

    def op_omni(self, k, x, y, how):
        c = self.c
        s = '' if k == 'omni' else 'Str'
        a = c['Omni' + s](*x)
        b = c['Omni' + s + dict(same='', sub='2', other='3', missing='')[how]](*y)
        if how == 'missing':
            del b.a
            return eqs(a, b) + [True, 2]
        return eqs(a, b) + hashes(a, b)

    def member(self, x):
        c, v = x
        v = int(v[1:]) if v in ('n2', 'n3', 'n7') else v
        if c == 'raw':
            return dict(none=None, list=[1], dict={}).get(v, v)
        return dict(CE=self.c['CE'], CE2=self.c['CE2'], plain=self.c['Plain'])[c](v)

    def op_enum(self, x, y):
        a, b = self.member(x), self.member(y)
        return eqs(a, b) + (hashes(a, b) if y[0] != 'plain' and not isinstance(b, (list, dict)) else [])

    def like(self, x):
        class HasInt:
            def __int__(self):
                return x[1]
        return dict(cie=lambda: self.c['CIE'](x[1]), cie2=lambda: self.c['CIE2'](x[1]), hie=lambda: self.c['HIE'](x[1]), int=lambda: x[1], half=lambda: x[1] / 2, hasint=HasInt,
                    none=lambda: None, str=lambda: 'test', list=lambda: [1])[x[0]]()

    def op_intenum(self, x, y):
        a, b = self.like(x), self.like(y)
        return eqs(a, b) + (hashes(a, b) if y[0] != 'hasint' else []) + order(a, b)

    def op_notint(self, x, y):
        return eqs(self.like(x), self.like(y))

    def op_dict(self, x, y):
        a, b = (dict(D1=self.c['D'], D2=self.c['D2'], D1sub=self.c['Dsub'])[c](p) for c, p in (x, y))
        return eqs(a, b)

    def op_id(self, same):
        a = self.c['Id']()
        b = a if same else self.c['Id']()
        return eqs(a, b) + hashes(a, b)

    def op_strs(self, x, y, how):
        a, b = self.c['SE'](x), self.c['SE'](y) if how == 'object' else y
        return eqs(a, b) + hashes(a, b)

    def op_name(self, n):
        return str(self.c['Named'][n])

    def op_repr(self, q, full):
        o = self.c['Inner']([None if v[0] == 'none' else v[1] for v in q])
        if full:
            o._REPR_FULL_CLASSNAME = True
        return repr(o)


def gen_mixins(w):
    w.replay_spec(Mixins, [dict(x=0)], final=[])


class Obj:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Obj) and self.n == other.n


class Bad:
    def __eq__(self, other):
        raise TypeError('no')


def build(v):
    t = v[0]
    if t in ('int', 'str'):
        return v[1]
    if t == 'none':
        return None
    if t == 'pairs':
        return {build(k): build(x) for k, x in v[1:]}
    if t in ('obj', 'bad'):
        return Obj(v[1]) if t == 'obj' else Bad()
    return dict(seq=list, tup=tuple, set=set)[t](build(x) for x in v[1:])


class Compare:
    def __init__(self, cfg):
        pass

    def op_assert_equal(self, x, y):
        from satella.coding import assert_equal, Inequal, InequalityReason
        a, b = build(x), build(y)
        try:
            assert_equal(a, b)
        except Inequal as e:
            assert isinstance(e.reason, InequalityReason)
            assert e.reason != InequalityReason.LENGTH_MISMATCH or len(e.obj1) != len(e.obj2)
            return e.reason.name


def gen_assert_equal(w):
    w.replay_spec(Compare, [dict(x=0)], final=[])


PROP = dict(
    title='Equality, order and hashing given by the mix-ins agree with each other',
    statement='For everything given its comparisons by a mix-in or enumeration of satella - by a field, by int, by str, by several fields, by its dictionary, by '
              'identity, ComparableEnum, ComparableIntEnum, HashableIntEnum - == and != are opposites, symmetrical and never raise, whatever the other one is; equal '
              'ones hash the same and are one key of a dictionary; exactly one of <, == and > holds where there is an order, and it is that of what is compared by; '
              'assert_equal raises Inequal, and nothing else, if and only if the two differ somewhere, with the right reason.',
    over=['inputs', 'histories'],
    text='All the pairs of a set of instances of each of the classes, subclasses, instances lacking a field, members of different enumerations, plain values and'
         ' foreign objects; all the pairs of some fifty nested values for assert_equal',
    why='Such laws are about all the pairs; the tests compare an instance with its like',
    files=['satella/coding/structures/mixins/hashable.py', 'satella/coding/structures/mixins/enums.py', 'satella/coding/structures/mixins/eqable.py', 'satella/coding/structures/mixins/strings.py', 'satella/coding/deep_compare.py'],
    mech=[('mixins', 'structures/mixins')],
    note='Comparing with a string that happens to be a number, and lists with tuples, is left open',
    design='Specification Mixins.tla: equality and order are those of the key; the laws between the operators are checked as such on every answer.',
)
