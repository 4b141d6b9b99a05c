import enum
import json
import os
import shutil
import subprocess
import sys
import tempfile

from vt import Part

PARTS = [
    Part('encoding', 'Jsons', 'Q', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 4)),
    Part('files', 'Jsons', 'L', depth=(4, 5), max_paths=(3000, 40000), shards=(1, 4)),
]


class E1(enum.Enum):
    ONE = 1
    TWO = 2
    THREE = 3
    PAIR = 1, 'q'


class E2(enum.IntEnum):
    FOUR = 4


class Bare:
    __slots__ = ()

    def __getattribute__(self, n):
        if n == '__slots__':
            raise AttributeError(n)
        return object.__getattribute__(self, n)


class Obj:
    pass


class Slots:
    __slots__ = 'a', 'b'


class S0:
    __slots__ = ()


class S1:
    __slots__ = 'a',


class J:
    __slots__ = ()

    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class JDict(J):
    pass


class JSlots(J):
    __slots__ = 'v',


class Under:
    __slots__ = '_a', '_b'


class Under1:
    __slots__ = '_a',


class Fails:
    def to_json(self):
        raise ZeroDivisionError()


def build(t):
    k = t[0]
    if k in ('int', 'str', 'bool'):
        return t[1]
    if k == 'none':
        return None
    if k == 'enum':
        return E1(t[1])
    if k == 'intenum':
        return E2(t[1])
    if k == 'other':
        return dict(set={1, 2}, bytes=b'abc', Bare=Bare())[t[1]]
    c = [build(x) for x in t[1:]]
    if k == 'list':
        return c
    if k == 'tuple':
        return tuple(c)
    if k == 'enumseq':
        return E1.PAIR
    if k in ('json', 'jslots'):
        return dict(json=JDict, jslots=JSlots)[k](c[0])
    if k == 'keys':
        return dict(zip([None, 5], c))
    if k == 'dict':
        return dict(zip('ab', c))
    if k == 'under':
        o = [S0, Under1, Under][len(c)]()
    elif k == 'slots':
        o = [S0, S1, Slots][len(c)]()
    else:
        o = Obj()
    for n, v in zip(['_a', '_b'] if k == 'under' else 'ab', c):
        setattr(o, n, v)
    return o


class Enc:
    """what was decoded from JSON"""

    def __new__(cls, v):
        from drive import Raw, enc
        def f(v):
            if isinstance(v, dict):
                return ['dict'] + [[k, f(x)] for k, x in v.items()]
            if isinstance(v, list):
                return ['seq'] + [f(x) for x in v]
            return enc(v)
        return Raw(*f(v))


def classes():
    from satella.json import JSONAbleDataObject

    class Base(JSONAbleDataObject):
        x: int
        y: int = 7

    class Derived(Base):
        z: int

    class Same(Base):
        pass

    class Zero(JSONAbleDataObject):
        x: int
        y: int = 0
    return dict(base=Base, derived=Derived, same=Same, zero=Zero)


class Js:
    known = OSError, ValueError, ZeroDivisionError

    def __init__(self, cfg):
        self.c = classes()
        self.d = tempfile.mkdtemp(prefix='p29', dir='/tmp')
        self.p = os.path.join(self.d, 'f.json')

    def finish(self):
        shutil.rmtree(self.d)

    def op_encode(self, t):
        from satella.json import json_encode
        return Enc(json.loads(json_encode(build(t))))

    def op_write(self, t):
        from satella.json import write_json_to_file
        write_json_to_file(self.p, build(t))

    def op_if_different(self, t):
        from satella.json import write_json_to_file_if_different
        return write_json_to_file_if_different(self.p, build(t))

    def op_write_bad(self):
        from satella.json import write_json_to_file
        write_json_to_file(self.p, [1, Fails()])

    def op_if_different_bad(self):
        from satella.json import write_json_to_file_if_different
        write_json_to_file_if_different(self.p, [1, Fails()])

    def op_spoil(self, k):
        with open(self.p, 'w') as f:
            f.write(dict(half='{"a": ', blank='', comma='[1,]')[k])

    def op_read(self):
        from satella.json import read_json_from_file
        return Enc(read_json_from_file(self.p))

    def op_made(self, c, o):
        cls = self.c[c]
        o = {k: float(x) for k, x in o.items()}      # so that those equal are not the same object
        v = cls(**o)
        from satella.json import json_encode
        w, u = cls.from_json(v.to_json()), cls.from_json(json.loads(json_encode(v)))
        e = v == w and w == v and not v != w and hash(v) == hash(w)
        x = v == u and hash(v) == hash(u) and len({v, u, w}) == 1
        assert all(getattr(v, k) == y for k, y in o.items() if k in v.to_json())
        return [Enc({k: int(q) for k, q in v.to_json().items()}), e, x]

    def op_equal(self, p, q):
        a, b = (self.c[x[0]](**{k: float(v) for k, v in x[1].items()}) for x in (p, q))
        assert (a == b) == (b == a) == (not a != b)
        return [a == b, a == b and len({a, b}) == 1]

    def op_equal_other(self, c, k):
        a = self.c[c](**(dict(x=1, z=1) if c == 'derived' else dict(x=1)))
        b = dict(int=5, none=None, str='x', blank=Obj())[k]
        return [a == b or b == a, a != b and b != a]


def gen_encoding(w):
    w.replay_spec(Js, [dict(x=0)])


def gen_files(w):
    w.replay_spec(Js, [dict(x=0)], final=[dict(op='read', a=[])])
    w.seq(dict(x=0), [dict(op='if_different', a=[['enum', 3]]), dict(op='write_bad', a=[]), dict(op='read', a=[])], Js)


PROP = dict(
    title='The JSON encoder encodes everything, and files hold what was written to them',
    statement='json_encode encodes any value made, in any nesting, of numbers, texts, lists, tuples, dictionaries, enums (as their values), objects with to_json(), objects with __dict__ or __slots__ (as dictionaries of their attributes) and objects of other kinds (as a description). read_json_from_file gives what was last written, ValueError for what is not JSON, OSError if there is no file; '
              'write_json_to_file_if_different writes, and returns True, exactly if the contents would differ; a value that fails to encode leaves the file as it was. JSONAbleDataObject objects, those of derived classes included, have all their fields in to_json(), from_json() gives back an equal object with an equal hash, and are equal exactly if all the fields are; a value of another kind is not equal.',
    over=['inputs', 'histories'], text='all the trees of 3 levels over 11 leaves and 9 kinds of containers, all the histories of 4 (thorough: 5) file operations, 4 data classes with 11 sets of values',
    why='the default() of the encoder recurses on its own, besides the encoder itself: each pair of kinds behaves differently', files=['satella/json.py'],
    mech=[('encoding', 'json.py JSONEncoder.default'), ('files', 'json.py write_json_to_file*'), ('data objects', 'json.py JSONAbleDataObject')], note='keys of dictionaries are texts, numbers or None')
