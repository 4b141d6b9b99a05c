from vt import Part

PARTS = [
    Part('seq', 'Queue', 'Q', depth=(3, 5), shards=(1, 3)),
    Part('conc', 'Queue', 'Q', mode='lin', design=False, shards=(3, 7)),
]


class Ad:
    def __init__(self, cfg):
        from satella.coding.concurrent import PeekableQueue
        self.q = PeekableQueue()

    def op_put(self, x):
        return self.q.put(x)

    def op_put_many(self, xs):
        return self.q.put_many(list(xs))

    def op_get(self, t):
        return self.q.get() if t < 0 else self.q.get(t / 1000)

    def op_peek(self, t):
        return self.q.peek() if t < 0 else self.q.peek(timeout=t / 1000)

    def op_qsize(self):
        return self.q.qsize()

    def op_sleep(self, t):
        import time
        time.sleep(t / 1000)


def O(op, *a):
    return dict(op=op, a=list(a))


def gen_seq(w):
    w.replay_spec(Ad, [dict(z=0)], [O('get', 0)] * 4, clock=True)
    r = w.rng
    for _ in range(w.n(100, 3000)):
        ops = []
        for _ in range(r.randint(5, 30)):
            ops.append(r.choice([lambda: O('put', r.randint(0, 99)), lambda: O('put_many', [r.randint(0, 99) for _ in range(r.randint(0, 4))]),
                                 lambda: O('get', r.choice([0, 500, 2000])), lambda: O('peek', r.choice([0, 500, 2000])), lambda: O('qsize'),
                                 lambda: O('get', 0)])())
        w.seq(dict(z=0), ops, Ad, clock=True)


PROGS = [
    [[O('get', -1)], [O('put', 1)]],
    [[O('get', 2000)], [O('put', 1)]],
    [[O('get', 2000)], [O('sleep', 1000), O('put', 1)]],
    [[O('get', -1)], [O('sleep', 1000), O('put', 1)]],
    [[O('peek', -1)], [O('get', -1)], [O('put', 1)]],
    [[O('peek', -1)], [O('get', -1)], [O('sleep', 500), O('put', 1)]],
    [[O('get', -1)], [O('get', -1)], [O('put_many', [1, 2])]],
    [[O('get', -1)], [O('get', -1)], [O('put', 1), O('put', 2)]],
    [[O('get', -1)], [O('get', 1000)], [O('put', 1)]],
    [[O('get', -1), O('put', 3)], [O('get', -1)], [O('put', 1)]],
    [[O('put', 1), O('get', 0)], [O('put', 2), O('get', 0)]],
    [[O('put_many', [1, 2])], [O('put_many', [3, 4])], [O('get', -1), O('get', -1), O('get', -1)]],
    [[O('peek', 1000), O('get', 1000)], [O('peek', 1000)], [O('put', 7)]],
    [[O('get', -1)], [O('put_many', [])], [O('put', 7)]],
    [[O('get', -1)], [O('get', -1)], [O('peek', -1)], [O('put_many', [1, 2, 3])]],
    [[O('peek', -1)], [O('peek', -1)], [O('peek', -1)], [O('sleep', 500), O('put', 1)]],
    [[O('peek', -1)], [O('peek', -1)], [O('get', -1)], [O('sleep', 500), O('put_many', [1])], [O('sleep', 900), O('put', 2)]],
    [[O('peek', 2000)], [O('peek', 2000)], [O('peek', 2000)], [O('sleep', 500), O('put_many', [1, 2])]],
    [[O('peek', -1), O('get', 0)], [O('peek', -1), O('get', 0)], [O('sleep', 500), O('put_many', [1])]],
    [[O('get', -1)], [O('get', -1)], [O('get', -1)], [O('sleep', 500), O('put_many', [1, 2, 3])]],
    [[O('get', -1)], [O('get', -1)], [O('get', -1)], [O('sleep', 500), O('put', 1), O('put', 2), O('sleep', 500), O('put', 3)]],
    [[O('get', 1000)], [O('get', 1000)], [O('sleep', 1000), O('put', 1)], [O('put', 2)]],
]

# the clock moves only when everybody waits: nobody may wait longer than told to
SHARP = [
    [[O('get', 1000)], [O('get', 1000)], [O('sleep', 500), O('put', 1)]],
    [[O('peek', 1000)], [O('get', 1000)], [O('sleep', 500), O('put', 1), O('get', 0)]],
    [[O('get', 1000)], [O('get', 1000)], [O('get', 1500)], [O('sleep', 700), O('put_many', [1, 2])]],
    [[O('get', 1000)], [O('sleep', 500), O('put_many', [])]],
    [[O('get', 1500), O('get', 500)], [O('get', 2000)], [O('sleep', 600), O('put', 1), O('sleep', 600), O('put', 2)]],
    [[O('peek', 1000)], [O('peek', 500)], [O('sleep', 400), O('put', 1), O('get', 0)]],
]


def gen_conc(w):
    r = w.rng
    fin = [O('get', 0)] * 4
    for k, p in enumerate(PROGS):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(dict(z=0), p, Ad, final=fin, clock=True, bound=2, budget=150 if w.quick() else 3000, rnd=60 if w.quick() else 800)
    for k, p in enumerate(SHARP):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(dict(z=1), p, Ad, final=fin, clock=True, bound=2, budget=100 if w.quick() else 2000, rnd=40 if w.quick() else 500, padv=0)
    for _ in range(w.n(18, 300)):
        prog = []
        x = [0]

        def v():
            x[0] += 1
            return x[0]
        for _ in range(r.choice([2, 3, 3, 4])):
            prog.append([r.choice([lambda: O('put', v()), lambda: O('put_many', [v() for _ in range(r.randint(0, 3))]), lambda: O('get', -1),
                                   lambda: O('get', r.choice([0, 1000, 2000])), lambda: O('peek', r.choice([-1, 1000])),
                                   lambda: O('sleep', 1000)])() for _ in range(r.randint(1, 3))])
        w.lin(dict(z=0), prog, Ad, final=fin, clock=True, bound=1, budget=20 if w.quick() else 200, rnd=30 if w.quick() else 300)

PROP = dict(
    title='Peekable queue: linearizable FIFO, no lost item and no lost wake-up',
    statement='A peekable queue shared by any number of threads is a FIFO: every item is got exactly once, in insertion order, and peeking gives the '
              'oldest item without removing it. A get or peek without a timeout never stays blocked while there is an item for it; one with a timeout '
              'raises Empty once that much time has passed, no sooner and no later, with no item available to it.',
    over=['schedules', 'histories'], text='every interleaving of put, put_many, get, peek by several threads, with and without timeouts',
    why='the tests use one consumer and no controlled interleaving; a wake-up lost between the emptiness check and the wait needs a specific schedule',
    files=['satella/coding/concurrent/queue.py'],
    mech=[('waiting for an item', 'queue.py PeekableQueue.__get*'), ('insertion', 'queue.py put, put_many')],
    note='linearizability against the FIFO specification with virtual time; schedules up to two preemptions at opcode granularity (sampled above the budget) plus random ones')
