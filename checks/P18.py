import time

from vt import Part

PARTS = [
    Part('memoize', 'Memo', 'M', depth=(5, 7), shards=(1, 1)),
    Part('shared', 'Memo', 'M', mode='lin', design=False, shards=(2, 6)),
    Part('cached', 'Memo', 'C', depth=(5, 7), shards=(1, 2)),
    Part('cshared', 'Memo', 'W', mode='lin', design=False, shards=(1, 4)),
    Part('singleton', 'Memo', 'G', depth=(3, 4), shards=(1, 2)),
    Part('gshared', 'Memo', 'G', mode='lin', design=False, shards=(2, 6)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Me:
    def __init__(self, cfg):
        from satella.coding.decorators import memoize
        self.n = 0
        self.bad = []

        @memoize
        def f(k, extra=None):
            """doc"""
            time.sleep(0.001)
            if cfg['rec'] and k > 1:
                f(k - 1)
            self.n += 1
            v = self.n
            time.sleep(0.001)
            if k in self.bad:
                raise ValueError()
            return v
        assert f.__name__ == 'f' and f.__doc__ == 'doc'
        self.f = f

    def op_get(self, k):
        return self.f(k)

    def op_calls(self):
        return self.n

    def op_bad(self, q):
        self.bad = q


FIN = [O('calls'), O('get', 1), O('get', 3), O('get', 2), O('calls')]


def gen_memoize(w):
    w.replay_spec(Me, [dict(rec=False), dict(rec=True)], FIN)
    r = w.rng
    for _ in range(w.n(100, 2000)):
        ops = [r.choice([O('get', r.randint(1, 5)), O('get', r.randint(1, 5)), O('bad', r.sample([1, 2, 3, 4, 5], r.randint(0, 2))), O('calls')]) for _ in range(r.randint(3, 15))]
        w.seq(dict(rec=r.random() < 0.4), ops + FIN, Me)


def gen_shared(w):
    r = w.rng
    fixed = [[[O('get', 1)], [O('get', 1)]], [[O('get', 1)], [O('get', 2)]], [[O('get', 1)], [O('get', 1)], [O('get', 1)]], [[O('get', 1), O('get', 2)], [O('get', 2), O('get', 1)]], [[O('get', 3)], [O('get', 2)]]]
    n = 0
    for cfg in (dict(rec=False), dict(rec=True)):
        for p in fixed:
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                for su in ([], [O('bad', [1])]):
                    w.lin(cfg, p, Me, setup=su, final=[O('calls'), O('bad', [])] + FIN, bound=1, budget=60 if w.quick() else 2000, rnd=30 if w.quick() else 800)


class Ca:
    def __init__(self, cfg):
        from satella.coding.decorators import cache_memoize
        self.n = 0
        self.bad = []
        kw = {}
        if cfg.get('tg'):
            kw['time_getter'] = lambda: time.monotonic() * 1000
        dur = cfg.get('dur', 1000000)

        @cache_memoize(dur if cfg.get('tg') else dur / 1000, **kw)
        def f(k):
            self.n += 1
            v = self.n
            if cfg['d']:
                time.sleep(cfg['d'] / 1000)
            if k in self.bad:
                raise ValueError()
            return v
        self.f = f

    def op_get(self, k):
        return self.f(k)

    op_again = op_get

    def op_calls(self):
        return self.n

    def op_bad(self, q):
        self.bad = q

    def op_sleep(self, t):
        time.sleep(t / 1000)


CFIN = [O('calls'), O('get', 1), O('get', 2), O('sleep', 1100), O('get', 1), O('calls')]


def gen_cached(w):
    w.replay_spec(Ca, [dict(dur=1025, d=0, tg=False), dict(dur=1025, d=300, tg=True)], CFIN, clock=True)
    r = w.rng
    for _ in range(w.n(150, 3000)):
        ops = [r.choice([O('get', r.randint(1, 3)), O('get', r.randint(1, 3)), O('bad', r.sample([1, 2, 3], r.randint(0, 1))), O('calls'), O('sleep', r.choice([50, 350, 900, 1050, 2000]))]) for _ in range(r.randint(3, 15))]
        w.seq(dict(dur=r.choice([525, 1025, 2025]), d=r.choice([0, 100, 700]), tg=r.random() < 0.5), ops + CFIN, Ca, clock=True)


def gen_cshared(w):
    fixed = [[[O('get', 1)], [O('get', 1)]], [[O('get', 1)], [O('get', 2)]], [[O('get', 1)], [O('get', 1)], [O('get', 1)]], [[O('get', 1), O('get', 2)], [O('get', 2), O('get', 1)]]]
    for n, p in enumerate(fixed):
        if n % w.nshards == w.shard or not w.quick():
            w.lin(dict(d=1), p, Ca, final=[O('calls'), O('again', 1), O('calls')], bound=1, budget=60 if w.quick() else 2000, rnd=30 if w.quick() else 800)


class Abort(BaseException):
    pass


class Gg:
    known = (Abort,)

    def __init__(self, cfg):
        from satella.coding.structures import singleton as S
        self.S = S
        self.n = 0
        self.refs = []
        self.args = cfg['args']
        outer = self
        falsy = cfg.get('falsy')

        class C:
            def __init__(self, *a):
                outer.n += 1
                n = outer.n
                time.sleep(0.001)
                if a[-1] < 0:
                    raise ValueError() if a[-1] == -1 else Abort()
                if a[-1] == 9:      # it needs another one
                    outer.make(3, 1, 4)
                self.v = a[-1]
                self.n = n

            def __bool__(self):
                return not falsy
        self.subs = None
        if cfg.get('sub'):
            self.args = cfg['args'] - 1
        self.C = S.Singleton(C) if not self.args else S.SingletonWithRegardsTo(self.args, weak_refs=cfg['weak'])(C)
        if cfg.get('sub'):

            class D(self.C):
                pass

            class E(D):
                pass
            self.subs = [self.C, D, E]

    def op_make(self, a, b, v):
        x = self.make(a, b, v)
        return [x.n, x.v]

    def make(self, a, b, v):
        # sub: the subclasses are as many further singletons
        c = self.subs[(a if self.args == 0 else b) - 1] if self.subs else self.C
        if self.args == 0:
            x = c(v)
        elif self.args == 1:
            x = c(a, v)
        else:
            x = c(a, b, v)
        self.refs.append(x)
        assert type(x) is c
        return x

    def key(self, a, b):
        return (a,) if self.args == 1 else (a, b)

    def op_forget(self, a, b):
        self.S.delete_singleton_for(self.C, *self.key(a, b))

    def op_keys(self):
        q = self.S.get_instances_for_singleton(self.C)
        assert all(isinstance(k, tuple) and len(k) == self.args for k in q) and len(set(q)) == len(q)
        return len(q)

    def op_number(self):
        return self.n

    def op_drop(self):
        import gc
        self.refs = []
        gc.collect(0)


GC = [dict(args=0, weak=False), dict(args=1, weak=False), dict(args=2, weak=False), dict(args=1, weak=True)]


def gfin(cfg):
    return [O('number')] + ([O('keys')] if cfg['args'] and not cfg.get('sub') else []) + [O('make', 1, 1, 5), O('make', 2, 1, 6), O('make', 1, 2, 4), O('number')]


def gen_singleton(w):
    for k, q in w.seqs:
        w.seq(GC[k - 1], q + gfin(GC[k - 1]), Gg)
        w.add('spec_behaviours_replayed')
    r = w.rng
    for _ in range(w.n(150, 2000)):
        cfg = dict(r.choice(GC), falsy=r.random() < 0.3, sub=False)
        if cfg['args'] and r.random() < 0.4:
            cfg['sub'] = True
        ops = []
        for _ in range(r.randint(3, 12)):
            a, b = r.randint(1, 3), r.randint(1, 2)
            ops.append(r.choice([O('make', a, b, r.choice([1, 2, 3, 9, -1, -2])), O('make', a, b, r.choice([1, 2, 3, -1])), O('number')] + ([O('forget', a, b), O('keys'), O('drop')] if cfg['args'] and not cfg['sub'] else [])))
        w.seq(cfg, ops + gfin(cfg), Gg)


def gen_gshared(w):
    fixed = [[[O('make', 1, 1, 5)], [O('make', 1, 1, 6)]], [[O('make', 1, 1, 5)], [O('make', 2, 1, 6)]], [[O('make', 1, 1, -1)], [O('make', 1, 1, 6)]], [[O('make', 1, 1, 5), O('make', 1, 1, 5)], [O('make', 1, 1, -1)], [O('make', 1, 1, 7)]]]
    n = 0
    for cfg in GC:
        for p in fixed:
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(cfg, p, Gg, final=gfin(cfg), bound=2, budget=50 if w.quick() else 2000, rnd=20 if w.quick() else 500)


PROP = dict(
    title='Memoized functions are computed once, singletons are constructed once',
    statement='A function decorated with memoize runs successfully once for each tuple of positional arguments, in at most one thread at a time, and every caller, from any thread, gets that value; a call that raises is not remembered. cache_memoize calls the function again only for arguments whose value was computed '
              'longer ago than cache_duration (by time_getter), and gives every caller a value computed for its arguments. A Singleton class, and a SingletonWithRegardsTo class for each tuple of its first arguments, has at most one instance however many threads construct it at once; nobody gets an instance whose '
              'constructor has not finished, and one whose constructor raised is not kept. get_instances_for_singleton and delete_singleton_for see exactly the live instances; with weak_refs an instance that nobody refers to goes away.',
    over=['schedules', 'histories'], text='all histories up to a depth; interleavings of up to 3 threads with bounded preemptions at bytecode level',
    why='whether two threads both compute, or see a half-made object, depends on the schedule',
    files=['satella/coding/decorators/decorators.py', 'satella/coding/structures/singleton.py'], mech=[('memoize', 'decorators.py memoize, cache_memoize'), ('singletons', 'singleton.py Singleton, SingletonWithRegardsTo')],
    note='keyword arguments, by the documentation, do not distinguish calls; behaviour exactly at the end of cache_duration is not checked')
