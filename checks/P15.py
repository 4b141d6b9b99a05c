from vt import Part

PARTS = [
    Part('sortedlist', 'Ordered', 'SL', depth=(4, 6), shards=(1, 4), max_paths=(3000, 40000)),
    Part('ranking', 'Ordered', 'R', depth=(4, 6), shards=(1, 2)),
    Part('deque', 'Ordered', 'D', depth=(3, 5), shards=(1, 4), max_paths=(3000, 40000)),
    Part('push', 'Ordered', 'P', depth=(5, 7), shards=(1, 1)),
    Part('subqueue', 'Ordered', 'U', depth=(4, 6), shards=(1, 2)),
    Part('shared', 'Ordered', 'U', mode='lin', design=False, shards=(2, 6)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Thing:
    """an item that can be compared for equality only"""
    cache = {}

    def __new__(cls, x):
        if x not in cls.cache:
            cls.cache[x] = super().__new__(cls)
            cls.cache[x].x = x
        return cls.cache[x]

    def __deepcopy__(self, memo):
        return self

    __hash__ = None

    def __eq__(self, other):
        return self.x == other.x


class Sl:
    def __init__(self, cfg):
        from satella.coding.structures import SortedList
        self.C = SortedList
        g = -1 if cfg['neg'] else 1
        if cfg['obj']:
            self.i, self.o, self.kw = Thing, (lambda t: t.x), dict(key=lambda t: g * (t.x // 10))
        else:
            self.i, self.o, self.kw = int, int, dict(key=lambda t: g * (t // 10))
        self.l = SortedList(**self.kw)

    def ins(self, q):
        return [self.i(x) for x in q]

    def out(self, q):
        return [self.o(x) for x in q]

    def op_new(self, q):
        self.l = self.C(iter(self.ins(q)), **self.kw)

    def op_add(self, x):
        return self.l.add(self.i(x))

    def op_ext(self, q):
        return self.l.extend(self.ins(q))

    def op_pop(self):
        return self.o(self.l.pop())

    def op_popl(self):
        return self.o(self.l.popleft())

    def op_rem(self, x):
        return self.l.remove(self.i(x))

    def op_index(self, x):
        return self.l.index(self.i(x))

    def op_in(self, x):
        return self.i(x) in self.l

    def op_at(self, j):
        return self.o(self.l[j])

    def op_slice(self, a, b, s):
        return self.out(self.l[None if a == 99 else a:None if b == 99 else b:s])

    def op_items(self):
        return self.out(self.l)

    def op_len(self):
        return len(self.l)

    def op_bool(self):
        return bool(self.l)

    def op_deep(self):
        import copy
        o = self.l
        self.l = copy.deepcopy(o)
        o.extend(self.ins([11, 99]))


def sl(r):
    return [r.choice([99, r.randint(-6, 6)]), r.choice([99, r.randint(-6, 6)]), r.choice([1, 1, 2, -1, -2])]


def gen_sortedlist(w):
    cfgs = [dict(neg=False, obj=False), dict(neg=True, obj=True)]
    fin = [O('items'), O('len'), O('bool'), O('add', 15), O('at', 0), O('at', -1), O('slice', 1, 99, 1), O('index', 11)]
    w.replay_spec(Sl, cfgs, fin)
    r = w.rng
    for _ in range(w.n(300, 6000)):
        x = lambda: r.randint(10, 49)
        ops = []
        for _ in range(r.randint(3, 18)):
            ops.append(r.choice([lambda: O('new', [r.choice([10, 20, 30, 40]) + r.randint(0, 9) for _ in range(r.randint(0, 5))]) if r.random() < 0.4 else O('items'), lambda: O('add', x()), lambda: O('add', x()), lambda: O('add', x()),
                                 lambda: O('ext', [x() for _ in range(r.randint(0, 3))]), lambda: O('pop'), lambda: O('popl'), lambda: O('rem', x()), lambda: O('in', x()), lambda: O('index', x()), lambda: O('at', r.randint(-5, 5)),
                                 lambda: O('slice', *sl(r)), lambda: O('items'), lambda: O('deep')])())
        cfg = dict(neg=r.random() < 0.5, obj=r.random() < 0.5)
        ev = w.seq(cfg, ops + [O('items')], Sl)
        # remove what is there
        its = [e[1] for e in ev[-1]['r'][1:]]
        if its:
            w.seq(cfg, ops + [O('items'), O('index', r.choice(its)), O('rem', r.choice(its)), O('items'), O('add', r.choice(its)), O('items')], Sl)


class Rk(Sl):
    def __init__(self, cfg):
        super().__init__(cfg)
        from satella.coding.structures import Ranking
        self.C = Ranking
        self.th = {}

        class T:
            pass
        self.T = T
        g = -1 if cfg['neg'] else 1
        self.i, self.o, self.kw = self.thing, (lambda t: t.x), dict(key=lambda t: g * (t.x // 10))
        self.l = Ranking([], **self.kw)

    def thing(self, x):
        if x not in self.th:
            self.th[x] = self.T()
            self.th[x].x = x
        return self.th[x]

    def op_new(self, q):
        self.l = self.C(self.ins(q), **self.kw)

    def op_pos(self, x):
        return self.l.get_position_of(self.i(x))

    def op_rank(self, x):
        return self.l.calculate_ranking_for(self.i(x))

    def op_items(self):
        return self.out(self.l.get_sorted())


def gen_ranking(w):
    cfgs = [dict(neg=False, obj=False), dict(neg=True, obj=True)]
    fin = [O('items'), O('rank', 11), O('rank', 12), O('rank', 21), O('pos', 12), O('at', -1)]
    w.replay_spec(Rk, cfgs, fin)
    r = w.rng
    for _ in range(w.n(250, 5000)):
        cfg = dict(neg=r.random() < 0.5, obj=False)
        xs = r.sample(range(10, 40), 7)
        cur = set(r.sample(xs, r.randint(0, 4)))
        ops = [O('new', r.sample(sorted(cur), len(cur)))]
        for _ in range(r.randint(3, 18)):
            x = r.choice(xs)
            k = r.choice(['flip', 'flip', 'flip', 'rem', 'pos', 'rank', 'rank', 'rank', 'at', 'slice', 'items'])
            if k == 'flip':
                ops.append(O('rem' if x in cur else 'add', x))
                cur ^= {x}
            elif k == 'rem':
                ops.append(O('rem', x))
                cur.discard(x)
            elif k in ('pos', 'rank'):
                ops.append(O(k, x))
            else:
                ops.append(O('at', r.randint(-5, 5)) if k == 'at' else O('slice', *sl(r)) if k == 'slice' else O('items'))
        w.seq(cfg, ops + [O('items')] + [O('rank', x) for x in xs] + [O('pos', x) for x in xs], Rk)


class Sd:
    def __init__(self, cfg):
        from satella.coding.structures import SliceableDeque
        self.d = SliceableDeque([], cfg['max'] or None)

    def op_app(self, x):
        return self.d.append(x)

    def op_appl(self, x):
        return self.d.appendleft(x)

    def op_ext(self, q):
        return self.d.extend(q)

    def op_pop(self):
        return self.d.pop()

    def op_popl(self):
        return self.d.popleft()

    def op_ins(self, j, x):
        return self.d.insert(j, x)

    def op_set(self, j, x):
        self.d[j] = x

    def op_del(self, j):
        del self.d[j]

    def op_at(self, j):
        return self.d[j]

    def op_rem(self, x):
        return self.d.remove(x)

    def op_index(self, x):
        return self.d.index(x)

    def op_count(self, x):
        return self.d.count(x)

    def op_in(self, x):
        return x in self.d

    def op_slice(self, a, b, s):
        return list(self.d[None if a == 99 else a:None if b == 99 else b:s])

    def op_rot(self, n):
        return self.d.rotate(n)

    def op_rev(self):
        return list(reversed(self.d))

    def op_items(self):
        return list(self.d)

    def op_len(self):
        return len(self.d)

    def op_bool(self):
        return bool(self.d)

    def op_clear(self):
        return self.d.clear()

    def op_deep(self):
        import copy
        o = self.d
        self.d = copy.deepcopy(o)
        o.append(77)


def gen_deque(w):
    fin = [O('items'), O('len'), O('bool'), O('rev'), O('slice', 99, 99, -1)]
    w.replay_spec(Sd, [dict(max=0), dict(max=2)], fin)
    r = w.rng
    for _ in range(w.n(300, 6000)):
        ops = []
        for _ in range(r.randint(3, 20)):
            x, j = r.randint(1, 4), r.randint(-5, 5)
            ops.append(r.choice([lambda: O('app', x), lambda: O('appl', x), lambda: O('ext', [r.randint(1, 4) for _ in range(r.randint(0, 4))]), lambda: O('pop'), lambda: O('popl'), lambda: O('ins', j, x), lambda: O('set', j, x), lambda: O('del', j),
                                 lambda: O('at', j), lambda: O('rem', x), lambda: O('index', x), lambda: O('count', x), lambda: O('in', x), lambda: O('slice', *sl(r)), lambda: O('slice', *sl(r)), lambda: O('rot', j), lambda: O('rev'),
                                 lambda: O('items'), lambda: O('len'), lambda: O('deep'), lambda: O('clear') if r.random() < 0.3 else O('bool')])())
        w.seq(dict(max=r.choice([0, 0, 3, 5])), ops + fin, Sd)


class Pi:
    def __init__(self, cfg):
        from satella.coding.structures import PushIterable
        self.p = PushIterable(cfg['q'])

    def op_push(self, x):
        return self.p.push(x)

    def op_pushl(self, x):
        return self.p.push_left(x)

    def op_pop(self):
        return self.p.pop()

    def op_next(self):
        return next(self.p)

    def op_list(self):
        return list(self.p)


def gen_push(w):
    w.replay_spec(Pi, [dict(q=[1, 2, 3]), dict(q=[])], [O('next'), O('list'), O('pop')])
    r = w.rng
    for _ in range(w.n(100, 2000)):
        ops = [r.choice([O('push', r.randint(5, 9)), O('pushl', r.randint(5, 9)), O('pop'), O('next')]) for _ in range(r.randint(3, 20))]
        w.seq(dict(q=list(range(r.randint(0, 4)))), ops + [O('list'), O('pop'), O('push', 1), O('next')], Pi)


class Sq:
    def __init__(self, cfg):
        import queue
        from satella.coding.structures import Subqueue
        self.q = Subqueue()
        self.known = (queue.Empty,)

    def op_put(self, k, v):
        return self.q.put(k, v)

    def op_get(self, k):
        return self.q.get(k)

    def op_getn(self, k):
        return self.q.get(k, False)

    def op_gett(self, k):
        return self.q.get(k, timeout=0.1)

    def op_any(self, z=0):
        return list(self.q.get_any())

    op_anyw = op_any

    def op_size(self, z=0):
        return self.q.qsize()

    def op_sizew(self, z=0):
        return self.q.qsize() >= 0


def gen_subqueue(w):
    w.replay_spec(Sq, [dict(z=0)], [O('size', 0)] + [O('any', 0)] * 5)
    r = w.rng
    for _ in range(w.n(150, 3000)):
        ops = [r.choice([O('put', r.randint(1, 3), r.randint(1, 9)), O('put', r.randint(1, 3), r.randint(1, 9)), O('getn', r.randint(1, 3)), O('gett', r.randint(1, 3)), O('any', 0), O('size', 0)]) for _ in range(r.randint(3, 20))]
        w.seq(dict(z=0), ops + [O('size', 0)], Sq)


def gen_shared(w):
    r = w.rng
    fixed = [[[O('put', 1, 5)], [O('put', 1, 6)]], [[O('put', 1, 5)], [O('get', 1)]], [[O('get', 1)], [O('put', 1, 5), O('put', 1, 6)], [O('get', 1)]], [[O('put', 1, 5)], [O('anyw', 0), O('anyw', 0)]], [[O('put', 2, 5), O('put', 3, 6)], [O('sizew', 0)]],
             [[O('gett', 1)], [O('put', 1, 5)]], [[O('any', 0)], [O('any', 0)]], [[O('any', 0)], [O('getn', 1)], [O('getn', 2)]]]
    fin = [O('size', 0)] + [O('any', 0)] * 4
    n = 0
    for p in fixed:
        for su in ([], [O('put', 1, 1)]) if p[0] != [O('any', 0)] else ([O('put', 1, 1)], [O('put', 1, 1), O('put', 2, 2)], [O('put', 1, 1), O('put', 2, 2), O('put', 3, 3)]):
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(dict(z=0), p, Sq, setup=su, final=fin, bound=2, budget=80 if w.quick() else 2500, rnd=30 if w.quick() else 800)
    for _ in range(w.n(16, 400)):
        p = [[r.choice([O('put', r.randint(1, 2), r.randint(1, 9)), O('put', r.randint(1, 2), r.randint(1, 9)), O('get', 1), O('getn', r.randint(1, 2)), O('anyw', 0), O('sizew', 0)]) for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
        w.lin(dict(z=0), p, Sq, final=[O('size', 0)], bound=1, budget=10 if w.quick() else 100, rnd=15 if w.quick() else 150)


PROP = dict(
    title='Ordered collections keep order and lose nothing under any history',
    statement='A SortedList is always sorted by its key (of whatever comparable type of keys; the items need not be comparable), add() returns where the item is, and remove, pop, popleft, index, slicing act on exactly that order. A Ranking answers for every item in it, and only for those, '
              'the position it has in the order of keys, after any additions and removals. A SliceableDeque behaves as collections.deque (including maxlen) whose slices, with any start, stop and step, are those of a list. PushIterable gives pushed items before the rest of the iterable, '
              'last pushed first, items pushed left last. A Subqueue keeps an independent FIFO queue for each name; used by many threads, nothing is lost or duplicated, a blocked get receives the item put, and get_any and qsize never fail because of a concurrent put.',
    over=['histories', 'inputs', 'schedules'], text='all histories up to a depth and sampled long ones; for Subqueue also the interleavings of threads with bounded preemptions',
    why='order and positions after arbitrary sequences of additions and removals with equal keys, and races, are not settled by a few examples',
    files=['satella/coding/structures/sorted_list.py', 'satella/coding/structures/ranking.py', 'satella/coding/structures/push_iterable.py', 'satella/coding/structures/queues.py'],
    mech=[('sorted list and deque', 'sorted_list.py SortedList, SliceableDeque'), ('positions', 'ranking.py Ranking'), ('named queues', 'queues.py Subqueue'), ('pushing back', 'push_iterable.py')],
    note='the order among items with equal keys, get_any\'s choice of queue and concurrent qsize are unspecified; a Ranking is of distinct items')
