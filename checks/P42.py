import struct

from vt import Part

PARTS = [Part('parser', 'Parser', 'B', depth=(3, 4), max_paths=(12000, 150000), shards=(3, 8))]
CFGS = [dict(kind='bytes', stream=[1, 2, 3, 200, 5, 0]), dict(kind='bytearray', stream=[7, 255, 128]), dict(kind='memoryview', stream=[9, 8, 7, 6]), dict(kind='bytes', stream=[])]


def O(op, *a):
    return dict(op=op, a=list(a))


class Parser:
    def __init__(self, cfg):
        self.stream = dict(bytes=bytes, bytearray=bytearray, memoryview=lambda q: memoryview(bytes(q)))[cfg['kind']](cfg['stream'])
        self.ps = []

    def op_new(self, ofs, length):
        from satella.parsing import BinaryParser
        self.ps.append(BinaryParser(self.stream, ofs, None if length < 0 else length) if ofs or length >= 0 else BinaryParser(self.stream))

    def op_sub(self, p, n):
        self.ps.append(self.ps[p - 1].get_parser(n))

    def op_get(self, p, n):
        return bytes(self.ps[p - 1].get_bytes(n))

    def op_skip(self, p, n):
        self.ps[p - 1].skip(n)

    def op_has(self, p, n):
        self.ps[p - 1].assert_has_bytes(n)

    def op_reset(self, p):
        self.ps[p - 1].reset()

    def op_seek(self, p, k):
        q = self.ps[p - 1]
        if k <= len(q):
            at = q.pointer
            q.reset()
            q.skip(0)
            start = q.pointer
            q.pointer = at
            q.pointer = start + k

    def op_struct(self, p, f, compiled):
        return self.ps[p - 1].get_struct(struct.Struct(f) if compiled else f)

    def op_structs(self, p, f, compiled):
        r = self.ps[p - 1].get_structs(struct.Struct(f) if compiled else f)
        assert type(r) is tuple
        return r

    def op_look(self, p):
        p = self.ps[p - 1]
        b = bytes(p)
        return len(p), p.pointer, p.get_remaining_bytes_count(), bytes(p.get_remaining_bytes()), b


def gen_parser(w):
    ALL = [O('look', 1), O('get', 1, 1), O('look', 1)]
    w.replay_spec(Parser, CFGS, final=[])
    r = w.rng
    for _ in range(w.n(500, 20000)):
        n = r.choice([0, 1, 3, 8, 30, 30])
        cfg = dict(kind=r.choice(['bytes', 'bytearray', 'memoryview']), stream=[r.choice([0, 1, 100, 127, 128, 255]) if r.random() < .5 else r.randint(0, 60) for _ in range(n)])
        ofs = r.randint(0, n)
        ops = [O('new', ofs, r.choice([-1, -1, r.randint(0, n + 2)]))]
        left = cfg['stream'][ofs:]
        live = 1
        known = [n - ofs]
        safe = [[0, ops[0]['a'][1] if ops[0]['a'][1] >= 0 else n]]
        for _ in range(r.randint(3, 14)):
            p = r.randint(1, live)
            k = r.random()
            if k < .12 and live < 5:
                # a window of nothing is there whatever is left
                ops.append(O('sub', p, 0))
                live += 1
            elif k < .3:
                ops.append(O('get', p, r.randint(0, 4)))
            elif k < .4:
                ops.append(O(r.choice(['skip', 'skip', 'has']), p, r.randint(-3, 9)))
            elif k < .5:
                ops.append(O('structs', p, r.choice(['BB', '>HB', '<bH', '=BH', '2sB', '']), r.random() < .5))
            elif k < .6:
                ops.append(O('struct', p, r.choice(['B', 'b', '>H', '<H', '!h', '=B']), r.random() < .5))
            elif k < .65:
                ops.append(O('reset', p))
            elif k < .7:
                ops.append(O('seek', p, r.randint(0, 6)))
            else:
                ops.append(O('look', p))
        w.seq(cfg, ops + [O('look', p) for p in range(1, live + 1)], Parser)


PROP = dict(
    title='A BinaryParser never reads outside of its window and never moves on a failure',
    statement='A BinaryParser is a window of a stream, given by an offset and a maximum length, with a pointer inside of it; everything it returns is what the stream'
              ' has there; reading n bytes moves the pointer by n, or, if they are not there in the window - neither after the pointer nor, for a negative number of bytes to skip, before it - raises NotEnoughBytes and moves nothing; a parser made of'
              ' another one is the window of exactly the bytes asked for, and their pointers are independent; the length, the bytes remaining and the contents are '
              'those of the window, for any kind of stream.',
    over=['inputs', 'histories'],
    text='All the sequences of operations up to the depth on windows at every offset (up to one past the end), with lengths of nothing to more than there is, '
         'parsers of parsers, streams of bytes, bytearrays and memoryviews, empty ones too; longer random sequences',
    why='Whether a window leaks depends on the combination of offset, length, pointer and the parser it was made of; the test has one stream and no offsets',
    files=['satella/parsing.py'],
    mech=[('window', 'parsing.py BinaryParser')],
    note='Negative counts of bytes to read, offsets and lengths are left open',
    design='Specification Parser.tla: windows and pointers, and the struct formats decoded byte by byte.',
)
