import time

from vt import Part

PARTS = [
    Part('cache', 'Cache', 'C', depth=(3, 4), shards=(3, 8), max_paths=(2500, 20000)),
    Part('shared', 'Cache', 'Q', mode='lin', design=False, shards=(2, 6)),
    Part('texts', 'Cache', 'T', depth=(1, 1), shards=(1, 1)),
    Part('lru', 'Cache', 'U', depth=(5, 7), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Ad:
    def __init__(self, cfg, src=None):
        from concurrent.futures import ThreadPoolExecutor
        from satella.coding.structures import CacheDict, LRUCacheDict
        from satella.instrumentation import metrics as M
        from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedLRUCacheDict
        self.src = {1: 10, 2: 20, 3: 30} if src is None else src
        self.calls = 0
        self.d = cfg['d']
        kw = {}
        iv = lambda x: x / 1000
        t0 = time.monotonic()
        self.tg = time.monotonic
        if cfg['zero']:
            self.tg = kw['time_getter'] = lambda: round(time.monotonic() - t0, 4)
        if cfg['fail'] >= 0:
            kw['cache_failures_interval'] = '%ss' % (cfg['fail'] / 1000) if cfg['zero'] else cfg['fail'] / 1000
        if cfg['dflt']:
            kw['default_value_factory'] = lambda: -7
        if cfg['max']:
            kw['max_size'] = cfg['max']
        self.met = cfg['met']
        cls = LRUCacheDict if cfg['max'] else CacheDict
        if cfg['met']:
            cls = MetrifiedLRUCacheDict if cfg['max'] else MetrifiedCacheDict
            M.Metric  # noqa
            from satella.instrumentation.metrics.metric_types import CounterMetric
            self.ms = [CounterMetric('m%d' % i, metric_level=M.MetricLevel.RUNTIME) for i in range(4)]
            kw.update(cache_hits=self.ms[0], cache_miss=self.ms[1], refreshes=self.ms[2])
            if cfg['max']:
                kw['evictions'] = self.ms[3]
        st = cfg['stale'] / 1000
        if cfg['max'] == 2:
            st = '%ss' % st
        self.c = cls(st, cfg['exp'] / 1000, self.getter, ThreadPoolExecutor(max_workers=30), **kw)

    def getter(self, k):
        self.calls += 1
        if self.d:
            time.sleep(self.d / 1000)
        v = self.src[k]
        if v == -1:
            raise ValueError()
        return v

    def op_get(self, k):
        return self.c[k]

    def op_getd(self, k):
        return self.c.get(k, -5)

    def op_in(self, k):
        return k in self.c

    def op_set(self, k, v):
        self.c[k] = v

    def op_feed(self, k, v, age):
        return self.c.feed(k, v) if age < 0 else self.c.feed(k, v, self.tg() - age / 1000)

    def op_feed0(self, k, v):
        return self.c.feed(k, v, timestamp=0)

    def op_inv(self, k):
        return self.c.invalidate(k)

    def op_del(self, k):
        del self.c[k]

    def op_has(self, k):
        return self.c.has_info_about(k)

    def op_fetch(self, k):
        self.c.schedule_a_fetch(k)

    def op_keys(self):
        return sorted(self.c)

    def op_len(self):
        return len(self.c)

    def op_calls(self):
        time.sleep(0)
        return self.calls

    def op_counts(self):
        def val(m):
            return sum(x.value for x in m.to_metric_data().values)
        v = [int(val(m)) for m in self.ms]
        return v

    def op_src(self, k, v):
        if v == 0:
            self.src.pop(k, None)
        else:
            self.src[k] = v

    def op_sleep(self, t):
        time.sleep(t / 1000)


def mk(stale, exp, fail, mx, d, dflt, zero=None, met=None):
    return dict(stale=stale, exp=exp, fail=fail, max=mx, d=d, dflt=dflt, zero=mx > 0 if zero is None else zero, met=d > 0 if met is None else met)


CFGS = [mk(1025, 2025, -1, 0, 0, False), mk(1025, 2025, 1525, 0, 300, False), mk(1025, 2025, -1, 1, 0, False), mk(1025, 1025, 525, 2, 300, True), mk(1025, 2025, 3025, 2, 300, False)]


def ending(cfg):
    return [O('sleep', 650), O('keys'), O('len')] + ([] if cfg['d'] == 0 else [O('calls')]) + [O('counts')] * (cfg['met'] and cfg['max'] > 0) + [O('has', 1), O('has', 2), O('get', 2), O('get', 1), O('get', 3)]


def gen_cache(w):
    for k, q in w.seqs:
        cfg = CFGS[k - 1]
        w.seq(cfg, q + ending(cfg), Ad, clock=True)
        w.add('spec_behaviours_replayed')
    r = w.rng
    for _ in range(w.n(700, 12000)):
        stale = r.choice([525, 1025, 2025])
        cfg = mk(stale, r.choice([stale, 2025, 4025]), r.choice([-1, -1, 525, 3025]), r.choice([0, 0, 1, 2, 3]), r.choice([0, 300, 700]), r.random() < 0.3, r.random() < 0.5, r.random() < 0.4)
        ops = []
        ks = r.choice([[1, 2], [1, 2, 3], [1, 2, 3, 4, 5]])
        p = r.choice([0.2, 0.35])
        for _ in range(r.randint(5, 25)):
            k = r.choice(ks)
            if r.random() < p:
                ops.append(O('sleep', r.choice([50, 250, 600, 1100, 2100])))
            elif r.random() < 0.5:
                ops.append(O(r.choice(['get', 'get', 'get', 'getd', 'in']), k))
            else:
                ops.append(r.choice([lambda: O('set', k, r.randint(1, 9)), lambda: O('feed', k, r.randint(1, 9), r.choice([-1, 0, 600, 1500, 5000])), lambda: O('inv', k), lambda: O('del', k),
                                     lambda: O('has', k), lambda: O('fetch', k), lambda: O('keys'), lambda: O('len'), lambda: O('src', k, r.choice([0, 0, -1, 33, 44])),
                                     lambda: O('feed0', k, 8) if cfg['zero'] else O('has', k)])())
                if ops[-1]['op'] == 'feed' and ops[-1]['a'][2] == 0:
                    ops[-1]['a'][2] = 50
        if cfg['met']:
            ops.append(O('sleep', 800))
            ops.append(O('counts'))
        w.seq(cfg, ops + ending(cfg), Ad, clock=True)


def gen_shared(w):
    r = w.rng
    fixed = [[[O('get', 1)], [O('get', 1)]], [[O('get', 1)], [O('set', 1, 5)]], [[O('get', 1), O('get', 1)], [O('inv', 1)]], [[O('get', 1)], [O('feed', 1, 5, -1), O('inv', 1)]],
             [[O('get', 1), O('get', 2)], [O('get', 2), O('get', 1)]], [[O('set', 1, 3), O('get', 1)], [O('set', 2, 4), O('get', 2)], [O('get', 1)]]]
    cfgs = [mk(1025, 2025, -1, 0, 0, False, False, False), mk(1025, 2025, -1, 1, 0, False, False, False), mk(0, 0, -1, 2, 0, False, False, False)]
    n = 0
    for cfg in cfgs:
        for p in fixed:
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                for su in ([], [O('get', 1)]):
                    w.lin(cfg, p, Ad, setup=su, bound=1, budget=40 if w.quick() else 1500, rnd=20 if w.quick() else 500)
    for _ in range(w.n(20, 400)):
        p = [[r.choice([O('get', 1), O('get', 1), O('get', 2), O('set', 1, 3), O('inv', 1), O('feed', 1, 4, -1), O('has', 1), O('sleep', 1100)]) for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
        w.lin(r.choice(cfgs), p, Ad, bound=1, budget=10 if w.quick() else 100, rnd=15 if w.quick() else 150)


class Lru:
    def __init__(self, cfg):
        from satella.coding.structures import LRU
        self.l = LRU()

    def op_add(self, k):
        return self.l.add(k)

    def op_use(self, k):
        return self.l.mark_as_used(k)

    def op_rem(self, k):
        return self.l.remove(k)

    def op_in(self, k):
        return k in self.l

    def op_len(self):
        return len(self.l)

    def op_evict(self):
        return self.l.get_item_to_evict()


class Texts:
    def __init__(self, cfg):
        pass

    def build(self, u, n, text, which):
        from satella.coding.structures import CacheDict
        v = n if u == 'none' else '%s%s' % (n, text)
        self.now = 0
        self.calls = 0
        args = dict(has=('0s', v, None), fresh=(v, 10 ** 9, None), missed=(0, 0, v))[which]

        class Now:
            def submit(s, f, *a):
                from concurrent.futures import Future
                self.calls += 1
                fut = Future()
                try:
                    fut.set_result(f(*a))
                except Exception as e:  # noqa
                    fut.set_exception(e)
                return fut
        return CacheDict(args[0], args[1], self.get, Now(), args[2], time_getter=lambda: self.now)

    def get(self, k):
        if k == 'none':
            raise KeyError(k)
        return 5

    def op_has(self, u, n, text, t):
        c = self.build(u, n, text, 'has')
        c.feed(1, 2)
        self.now = t
        return c.has_info_about(1)

    def op_fresh(self, u, n, text, t):
        c = self.build(u, n, text, 'fresh')
        c.feed(1, 2)
        self.now = t
        if c[1] != 2:
            return 'wrong'
        return self.calls

    def op_missed(self, u, n, text, t):
        c = self.build(u, n, text, 'missed')
        try:
            c['none']
        except KeyError:
            pass
        self.now = t
        return c.has_info_about('none')


def gen_texts(w):
    w.replay_spec(Texts, [dict(z=0)])


def gen_lru(w):
    w.replay_spec(Lru, [dict(z=0)], [O('len')] + [O('evict')] * 4)


PROP = dict(
    title='CacheDict serves fresh values, refreshes stale ones, never serves expired ones',
    statement='CacheDict and LRUCacheDict (and the metrified ones) answer a value not older than stale_interval from memory without calling value_getter; an older one, up to expiration_interval, from memory while one refresh is started in background; '
              'an expired or unknown one only after calling value_getter. The age is measured with time_getter since the value was stored, set or fed (with its timestamp). A KeyError of value_getter evicts the key, is answered as KeyError (or the default value) and, '
              'with cache_failures_interval, is remembered for that long; other exceptions change nothing. invalidate removes all information about a key, values and failures. LRUCacheDict never holds more than max_size entries and makes room '
              'by evicting the least recently used entry, only when it needs room. has_info_about and the metrics tell the truth about hits, misses, refreshes and evictions. Used by many threads, a get never raises KeyError for a key that value_getter knows.',
    over=['histories', 'inputs', 'schedules'], text='all histories of get/set/feed/invalidate/del/fetch/source change/passage of time up to a depth; sampled long ones; interleavings with bounded preemptions',
    why='staleness, expiration, failures and eviction interact over a history of timed calls; tests sample a few points in real time',
    files=['satella/coding/structures/dictionaries/cache_dict.py', 'satella/coding/structures/lru.py', 'satella/instrumentation/metrics/structures/cache_dict.py'],
    mech=[('ages and refreshes', 'cache_dict.py CacheDict.__getitem__, _on_cache_hit, schedule_a_fetch'), ('remembered failures', 'cache_dict.py _on_failure, _on_cache_hit_empty'),
          ('eviction', 'cache_dict.py LRUCacheDict.make_room; lru.py LRU'), ('metrics', 'metrics/structures/cache_dict.py')],
    note='behaviour exactly at the boundary instant of an interval is not checked')
