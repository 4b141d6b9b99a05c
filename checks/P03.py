import operator as o

from vt import Part

PARTS = [
    Part('seq', 'Atomic', 'A', depth=(2, 4), shards=(2, 4), max_paths=(3000, 30000)),
    Part('conc', 'Atomic', 'A', mode='lin', design=False, shards=(3, 7)),
]
F = dict(add=o.add, sub=o.sub, mul=o.mul, floordiv=o.floordiv, truediv=o.truediv, lshift=o.lshift, rshift=o.rshift, pow=o.pow, xor=o.xor,
         lt=o.lt, le=o.le, gt=o.gt, ge=o.ge, eq=o.eq, ne=o.ne)
F['and'] = o.and_
F['or'] = o.or_
IF = dict(add=o.iadd, sub=o.isub, mul=o.imul, floordiv=o.ifloordiv, truediv=o.itruediv, lshift=o.ilshift, rshift=o.irshift, pow=o.ipow, xor=o.ixor)
IF['and'] = o.iand
IF['or'] = o.ior
U = dict(int=int, float=float, bool=bool, neg=o.neg, abs=abs, pos=o.pos, str=str, repr=repr)


class Ad:
    def __init__(self, cfg):
        from satella.coding.concurrent import AtomicNumber
        self.v = [AtomicNumber(x) for x in cfg['v']]

    def op_iop(self, i, f, x):
        y = self.v[i - 1]
        y2 = IF[f](y, x)
        if y2 is not y:
            return 'not-in-place'

    def op_bin(self, i, f, x):
        return F[f](self.v[i - 1], x)

    def op_pow3(self, i, x, m):
        return pow(self.v[i - 1], x, m)

    def op_rbin(self, i, f, x):
        return F[f](x, self.v[i - 1])

    op_cmp = op_bin

    def op_eq2(self, i, j):
        return self.v[i - 1] == self.v[j - 1]

    def op_un(self, i, f):
        return U[f](self.v[i - 1])

    def op_weq(self, i, v, t):
        return self.v[i - 1].wait_until_equal(v) if t < 0 else self.v[i - 1].wait_until_equal(v, t / 1000)

    def op_wait(self, i, t, m):
        kw = {} if m == 'raise' else {'throw_exception': False}
        return self.v[i - 1].wait(None if t < 0 else t / 1000, **kw)

    def op_sleep(self, t):
        import time
        time.sleep(t / 1000)


def O(op, *a):
    return dict(op=op, a=list(a))


CFGS = [dict(v=[0, 3]), dict(v=[5, 5])]


def gen_seq(w):
    w.replay_spec(Ad, CFGS, [O('un', 1, 'int'), O('un', 2, 'int')], clock=True)


I = lambda f, x, i=1: O('iop', i, f, x)
PROGS = [
    [[I('add', 1)], [I('add', 1)]],
    [[I('add', 1), I('add', 1)], [I('sub', 1), I('mul', 3)]],
    [[O('weq', 1, 1, -1)], [I('add', 1)]],
    [[O('weq', 1, 1, -1)], [I('or', 1)]],
    [[O('weq', 1, 2, 2000)], [I('add', 1), I('add', 1)]],
    [[O('weq', 1, 2, 2000)], [O('sleep', 1000), I('add', 1), I('lshift', 1)]],
    [[O('weq', 1, 1, -1)], [O('weq', 1, 2, -1)], [I('add', 1), I('add', 1)]],
    [[O('weq', 1, 3, -1)], [O('sleep', 500), I('or', 3)]],
    [[O('weq', 1, 3, -1)], [O('sleep', 500), I('xor', 3)]],
    [[O('eq2', 1, 2)], [O('eq2', 2, 1)]],
    [[O('eq2', 1, 2)], [O('eq2', 2, 1)], [I('add', 3), I('sub', 3, 2)]],
    [[O('eq2', 1, 1)], [I('add', 1)]],
    [[O('eq2', 1, 2)], [I('add', 1), I('sub', 3, 2)]],
    [[O('eq2', 2, 1)], [I('add', 1), I('sub', 3, 2)]],
    [[O('eq2', 1, 2)], [I('add', 1, 2), I('add', 3)]],
    [[O('eq2', 2, 1)], [I('add', 1, 2), I('add', 3)]],
    [[I('add', 1), O('un', 1, 'int')], [I('add', 2), O('un', 1, 'int')]],
    [[I('mul', 2), O('un', 1, 'int')], [I('add', 1), O('bin', 1, 'add', 10)]],
    [[I('and', 1), O('un', 1, 'int')], [I('or', 4), O('un', 1, 'int')], [I('lshift', 1)]],
    [[I('floordiv', 2), O('cmp', 1, 'lt', 2)], [I('pow', 2), O('cmp', 1, 'ge', 3)], [I('xor', 7)]],
]
WPROGS = [[[O('wait', 1, -1, 'raise')], [O('weq', 1, 77, 2000)], [O('wait', 1, -1, 'raise')], [O('sleep', 1000), I(f, x)]] for f, x in
          [('add', 1), ('sub', 1), ('mul', 2), ('floordiv', 2), ('truediv', 5), ('and', 1), ('or', 2), ('xor', 1), ('lshift', 1), ('rshift', 1), ('pow', 2)]] + [
    [[O('wait', 1, 2000, 'raise')], [O('sleep', 1000), I('add', 1)]],
    [[O('wait', 1, 2000, 'quiet')], [O('sleep', 1000), I('or', 2)]],
    [[O('wait', 1, 2000, 'raise')], [O('sleep', 3000), I('add', 1)]],
    [[O('wait', 1, -1, 'raise')], [O('wait', 1, -1, 'raise')], [O('sleep', 1000), I('sub', 1)]],
]

# the clock moves only when everybody waits: nobody may wait longer than told to
SHARP = [
    [[O('weq', 1, 9, 1000)], [O('sleep', 500), I('add', 1), O('sleep', 300), I('add', 1)]],
    [[O('weq', 1, 7, 1000)], [O('weq', 1, 9, 1500)], [O('sleep', 500), I('add', 1), O('sleep', 300), I('add', 1), O('sleep', 300), I('mul', 2)]],
    [[O('wait', 1, 1000, 'raise')], [O('wait', 1, 1000, 'quiet')], [O('weq', 1, 6, 1200)], [O('sleep', 1100), I('add', 1)]],
    [[O('weq', 1, 9, 0)], [O('wait', 1, 0, 'raise')], [I('add', 1)]],
]


def gen_conc(w):
    r = w.rng
    fin = [O('un', 1, 'int'), O('un', 2, 'int')]
    for k, p in enumerate(PROGS):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(CFGS[0], p, Ad, final=fin, clock=True, bound=2, budget=150 if w.quick() else 3000, rnd=60 if w.quick() else 800)
            if k >= 16:
                w.lin(CFGS[1], p, Ad, final=fin, clock=True, bound=2, budget=150 if w.quick() else 3000, rnd=60 if w.quick() else 800)
    for k, p in enumerate(WPROGS):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(CFGS[1], p, Ad, final=fin, clock=True, bound=1, budget=40 if w.quick() else 500, rnd=20 if w.quick() else 300, padv=0)
    for k, p in enumerate(SHARP):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(dict(CFGS[1], sharp=1), p, Ad, final=fin, clock=True, bound=1, budget=60 if w.quick() else 600, rnd=20 if w.quick() else 300, padv=0)
    for _ in range(w.n(18, 400)):
        bits = r.random() < 0.5
        fs = ['and', 'or', 'xor', 'lshift', 'rshift', 'add'] if bits else ['add', 'sub', 'mul', 'floordiv', 'add', 'sub']
        prog = [[r.choice([lambda: I(r.choice(fs), r.randint(1, 3), r.choice([1, 1, 2])), lambda: I(r.choice(fs), r.randint(1, 3)),
                           lambda: O('un', 1, 'int'), lambda: O('bin', 1, 'add', 1), lambda: O('eq2', 1, 2), lambda: O('eq2', 2, 1),
                           lambda: O('weq', 1, r.randint(0, 4), r.choice([0, 1000, -1])), lambda: O('sleep', 500)])()
                 for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 3]))]
        w.lin(r.choice(CFGS), prog, Ad, final=fin, clock=True, bound=1, budget=20 if w.quick() else 200, rnd=30 if w.quick() else 300)

PROP = dict(
    title='Atomic number: every operation is atomic and waiters see the changes',
    statement='Every reading, comparing and in-place operation on a shared atomic number takes effect at one instant, as the same operation would on a '
              'plain number; no update is lost and comparing two atomic numbers never deadlocks. Waiting for a change ends as soon as the value changes '
              '(by whichever in-place operation), and waiting for a given value ends iff the number has that value; with a timeout WouldWaitMore is '
              'raised only after the timeout elapsed without that.',
    over=['schedules', 'histories'], text='every interleaving of in-place operations, reads, comparisons and waits of several threads on one or two numbers',
    why='tests check operators sequentially and one wait with real sleeps; lost updates and lost wake-ups need specific interleavings',
    files=['satella/coding/concurrent/atomic.py', 'satella/coding/concurrent/monitor.py'],
    mech=[('synchronized operators', 'atomic.py AtomicNumber'), ('waiting', 'atomic.py wait, wait_until_equal')],
    note='linearizability against the specification of two numbers with virtual time; all operators sequentially, bounded-preemption schedules concurrently')
