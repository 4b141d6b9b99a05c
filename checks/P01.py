import copy

from vt import Part

PARTS = [
    Part('heap', 'Heaps', 'H', depth=(4, 6)),
    Part('timeheap', 'Heaps', 'T', depth=(3, 4)),
]
HCFGS = [dict(kind='heap', init=[]), dict(kind='set', init=[]), dict(kind='pairs', init=[]), dict(kind='mut', init=[]), dict(kind='heap', init=[2, 0, 2, 1]), dict(kind='set', init=[2, 0, 2, 1])]
TCFGS = [dict(kind='time', now=1), dict(kind='timeset', now=1)]


class Mutable:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v

    def __eq__(self, o):
        return self.v == o.v

    __hash__ = None


class HeapAd:
    known = (IndexError, ValueError)

    def __init__(self, cfg):
        from satella.coding.structures import Heap, SetHeap
        cls = SetHeap if cfg['kind'] == 'set' else Heap
        k = self.k = cfg['kind']
        # what is put for x, and what x is it that was taken
        self.to = dict(pairs=lambda x: (x, 'v', -x), mut=Mutable).get(k, lambda x: x)
        self.fro = dict(pairs=lambda p: p[0] if p == (p[0], 'v', -p[0]) else repr(p), mut=lambda m: m.v).get(k, lambda x: x)
        self.h = cls([self.to(x) for x in cfg['init']]) if cfg['init'] else cls()

    def op_push(self, x):
        return self.h.push(*self.to(x)) if self.k == 'pairs' else self.h.push(self.to(x))

    def op_push_many(self, xs):
        return self.h.push_many([self.to(x) for x in xs])

    def op_pop(self):
        return self.fro(self.h.pop())

    def op_pop_item(self, x):
        return self.fro(self.h.pop_item(self.to(x)))

    def op_contains(self, x):
        return self.to(x) in self.h

    def op_len(self):
        return len(self.h)

    def op_bool(self):
        return bool(self.h)

    def op_asc(self):
        return [self.fro(x) for x in self.h.iter_ascending()]

    def op_desc(self):
        return [self.fro(x) for x in self.h.iter_descending()]

    def op_dump(self):
        return sorted(map(self.fro, self.h))

    def op_filter_ge(self, k):
        return self.h.filter_map(filter_fun=lambda x: self.fro(x) >= k)

    def op_map_sub(self, k):
        return self.h.filter_map(map_fun=lambda x: self.to(k - self.fro(x)))

    def op_filter_map(self, k, m):
        return self.h.filter_map(lambda x: self.fro(x) >= k, lambda x: self.to(m - self.fro(x)))

    def op_copy_pop(self):
        c = copy.copy(self.h)
        c.pop()
        return [self.fro(x) for x in c.iter_ascending()]

    def op_adopt_copy(self):
        h = self.h
        self.h = copy.deepcopy(h)
        if self.k == 'mut':
            for x in h:
                x.v += 1000

    def op_eq_copy(self):
        c = copy.copy(self.h)
        a = self.h == c
        c.push(*self.to(-1000)) if self.k == 'pairs' else c.push(self.to(-1000))
        return [a, self.h == c]


class Item:
    """eq-able and hashable, but not orderable"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Item) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


def canon(pairs):
    """the order among equal timestamps is not specified"""
    out, k = [], 0
    pairs = [(t, i.v) for t, i in pairs]
    while k < len(pairs):
        m = k
        while m < len(pairs) and pairs[m][0] == pairs[k][0]:
            m += 1
        out += sorted(pairs[k:m])
        k = m
    return out


class TimeAd:
    known = (IndexError, ValueError)

    def __init__(self, cfg):
        from satella.coding.structures import TimeBasedHeap, TimeBasedSetHeap
        self.now = cfg['now']
        self.h = (TimeBasedHeap if cfg['kind'] == 'time' else TimeBasedSetHeap)(lambda: self.now)

    def op_put(self, t, x):
        return self.h.put(t, Item(x))

    def op_push_many(self, ps):
        return self.h.push_many([(t, Item(x)) for t, x in ps])

    def op_adopt_copy(self, deep):
        h, self.h = self.h, (copy.deepcopy if deep else copy.copy)(self.h)
        h.put(77, Item(77))
        h.pop()

    def op_copy_pop(self):
        c = copy.copy(self.h)
        c.pop()
        return len(c)

    def op_filter_ge(self, k):
        return self.h.filter_map(lambda p: p[1].v >= k)

    def op_put_now(self, x):
        return self.h.put(Item(x))

    def op_tick(self, d):
        self.now += d

    def op_pop(self):
        t, i = self.h.pop()
        return t, i.v

    def op_pop_less_than(self, t):
        return canon(self.h.pop_less_than(t))

    def op_pop_less_now(self):
        return canon(self.h.pop_less_than())

    def op_pop_less_first(self, t, n):
        out = []
        it = iter(self.h.pop_less_than(t))
        for _ in range(n):
            try:
                a, b = next(it)
                out.append((a, b.v))
            except StopIteration:
                break
        return out

    def op_pop_timestamp(self, t):
        return self.h.pop_timestamp(t).v

    def op_pop_item(self, x):
        t, i = self.h.pop_item(Item(x))
        return t, i.v

    def op_get_timestamp(self, x):
        return self.h.get_timestamp(Item(x))

    def op_remove(self, x):
        return self.h.remove(Item(x))

    def op_peek(self):
        t, i = self.h.peek_closest()
        return t, i.v

    def op_items(self):
        return sorted(i.v for i in self.h.items())

    def op_len(self):
        return len(self.h)

    def op_contains(self, t, x):
        return (t, Item(x)) in self.h

    def op_dump(self):
        return sorted((t, i.v) for t, i in self.h)

    def op_asc(self):
        return canon(self.h.iter_ascending())


def gen_heap(w):
    w.replay_spec(HeapAd, HCFGS, [dict(op='dump', a=[]), dict(op='asc', a=[])])
    r = w.rng
    for _ in range(w.n(400, 8000)):
        m = r.choice([2, 4, 8, 20])
        x = lambda: r.randint(-m, m)
        cfg = dict(kind=r.choice(['heap', 'set', 'heap', 'set', 'pairs', 'mut']), init=[x() for _ in range(r.choice([0, 0, 3, 9]))])
        ops = []
        for _ in range(r.randint(8, 40)):
            o = r.choice(['push'] * 5 + ['push_many', 'pop', 'pop', 'pop', 'pop_item', 'pop_item', 'contains', 'len', 'bool', 'asc', 'desc', 'dump',
                          'filter_ge', 'map_sub', 'filter_map', 'copy_pop', 'adopt_copy'] + (['eq_copy'] if cfg['kind'] != 'set' else []))
            a = {'push': lambda: [x()], 'push_many': lambda: [[x() for _ in range(r.randint(0, 6))]], 'pop_item': lambda: [x()],
                 'contains': lambda: [x()], 'filter_ge': lambda: [-m + r.randint(0, m // 2)], 'map_sub': lambda: [x()],
                 'filter_map': lambda: [-m + r.randint(0, m // 2), x()]}.get(o, lambda: [])()
            ops.append(dict(op=o, a=a))
        ops += [dict(op='dump', a=[])] + [dict(op='pop', a=[])] * 6
        w.seq(cfg, ops, HeapAd)
    # removal from the middle of larger heaps, then everything is taken out
    for _ in range(w.n(300, 5000)):
        n = r.randint(5, 31)
        init = r.choice([lambda: [r.randint(0, 50) for _ in range(n)], lambda: r.sample(range(100), n),
                         lambda: [(r.choice([0, 40, 80]) + r.randint(0, 9)) for _ in range(n)]])()
        cfg = dict(kind=r.choice(['heap', 'set']), init=init)
        left = list(init)
        ops = []
        for _ in range(r.randint(1, 5)):
            k = r.choice(['pop_item', 'pop_item', 'pop_item', 'pop', 'push', 'push_many'])
            if k == 'pop_item':
                ops.append(dict(op=k, a=[r.choice(left)]))
            elif k == 'pop':
                ops.append(dict(op=k, a=[]))
            elif k == 'push':
                ops.append(dict(op=k, a=[r.randint(0, 100)]))
            else:
                ops.append(dict(op=k, a=[[r.randint(0, 100) for _ in range(r.randint(1, 5))]]))
        w.seq(cfg, ops + [dict(op='asc', a=[])] + [dict(op='pop', a=[])] * (n + 8), HeapAd)


def gen_timeheap(w):
    w.replay_spec(TimeAd, TCFGS, [dict(op='dump', a=[]), dict(op='get_timestamp', a=[0]), dict(op='pop_item', a=[1])])
    r = w.rng
    for _ in range(w.n(400, 8000)):
        m = r.choice([2, 4, 10])
        k = r.choice([2, 4, 8])
        t = lambda: r.randint(0, m)
        x = lambda: r.randint(0, k)
        cfg = dict(kind=r.choice(['time', 'timeset']), now=t())
        ops = []
        for _ in range(r.randint(8, 40)):
            o = r.choice(['put'] * 5 + ['put_now', 'put_now', 'tick', 'pop', 'pop_less_than', 'pop_less_now', 'pop_less_first', 'pop_timestamp',
                          'pop_item', 'get_timestamp', 'remove', 'items', 'len', 'dump', 'asc', 'contains', 'push_many', 'adopt_copy', 'copy_pop', 'filter_ge'] + (['peek'] if cfg['kind'] == 'time' else []))
            a = {'put': lambda: [t(), x()], 'push_many': lambda: [[[t(), x()] for _ in range(r.randint(0, 4))]], 'adopt_copy': lambda: [r.randint(0, 1)], 'filter_ge': lambda: [1],
                 'contains': lambda: [t(), x()], 'put_now': lambda: [x()], 'tick': lambda: [r.randint(0, 2)], 'pop_less_than': lambda: [t()],
                 'pop_less_first': lambda: [t(), r.randint(0, 2)], 'pop_timestamp': lambda: [t()], 'pop_item': lambda: [x()],
                 'get_timestamp': lambda: [x()], 'remove': lambda: [x()]}.get(o, lambda: [])()
            ops.append(dict(op=o, a=a))
        ops += [dict(op='dump', a=[])] + [dict(op='pop', a=[])] * 4
        w.seq(cfg, ops, TimeAd)
    for _ in range(w.n(300, 5000)):
        n = r.randint(5, 25)
        kind = r.choice(['time', 'timeset'])
        its = r.sample(range(60), n)
        ts = [r.randint(0, 40) for _ in range(n)]
        ops = [dict(op='put', a=[t, i]) for t, i in zip(ts, its)]
        for _ in range(r.randint(1, 6)):
            ops.append(r.choice([lambda: dict(op='pop_item', a=[r.choice(its)]), lambda: dict(op='remove', a=[r.choice(its)]),
                                 lambda: dict(op='pop_timestamp', a=[r.choice(ts)]), lambda: dict(op='put', a=[r.randint(0, 40), r.choice(its)]),
                                 lambda: dict(op='pop_less_than', a=[r.randint(0, 20)]), lambda: dict(op='get_timestamp', a=[r.choice(its)])])())
        w.seq(dict(kind=kind, now=0), ops + [dict(op='items', a=[])] + [dict(op='pop', a=[])] * (n + 3), TimeAd)

PROP = dict(
    title='Priority queues: extraction in order, nothing lost, invented or duplicated',
    statement='For every sequence of operations a heap behaves as the multiset of the elements put and not yet taken (the set variants: as a set; '
              'the time-based set variant keeps one timestamp per item): pop gives a smallest element and removes exactly it, removal by item or by '
              'timestamp removes exactly one matching entry or raises ValueError, popping from an empty heap raises IndexError. '
              'Ordered iteration gives all the elements in order without changing the heap, copies are independent, filter_map keeps exactly the mapped '
              'survivors; popping everything below a timestamp gives exactly the entries strictly below it, in ascending order, and only the ones '
              'actually taken leave the heap.',
    over=['inputs', 'histories'], text='all sequences of operations on Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap, over small value domains, plus long random ones',
    why='the tests push a handful of elements in one order; order, duplicates, removal from the middle followed by further use and mixed histories are not covered',
    files=['satella/coding/structures/heaps/base.py', 'satella/coding/structures/heaps/time.py'],
    mech=[('heap operations', 'heaps/base.py Heap, SetHeap'), ('timestamped entries', 'heaps/time.py TimeBasedHeap, TimeBasedSetHeap')],
    note='all histories up to a bounded length over a small domain are explored in the specification and replayed; longer ones are sampled')
