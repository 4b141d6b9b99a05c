import time

from vt import Part

PARTS = [
    Part('seq', 'Writeback', 'W', depth=(4, 5), shards=(3, 6), max_paths=(900, 8000)),
    Part('conc', 'Writeback', 'W', mode='lin', design=False, shards=(4, 8)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Ad:
    def __init__(self, cfg):
        from concurrent.futures import ThreadPoolExecutor
        from satella.exceptions import WouldWaitMore
        from satella.instrumentation.metrics import MetricLevel
        from satella.instrumentation.metrics.metric_types import CounterMetric, CallableMetric
        from satella.coding.structures import ExclusiveWritebackCache
        from satella.instrumentation.metrics.structures import MetrifiedExclusiveWritebackCache
        self.known = (WouldWaitMore,)
        self.i = (lambda v: ODD.get(v, v)) if cfg.get('odd') else (lambda v: v)
        self.o = (lambda v: next(k for k, x in list(ODD.items()) + [(v, v)] if x is v)) if cfg.get('odd') else (lambda v: v)
        self.st = {1: self.i(10), 2: 20}
        self.reads = 0
        self.rd = cfg.get('rd', 0)
        kw = dict(executor=ThreadPoolExecutor(max_workers=cfg['n'])) if cfg['n'] != 4 else {}
        kw['store_key_errors'] = cfg['ske']
        if cfg['del']:
            kw['delete_method'] = self.delete
        self.delays = {}
        cls = ExclusiveWritebackCache
        if cfg.get('met'):
            cls = MetrifiedExclusiveWritebackCache
            self.ms = [CounterMetric('m%d' % i, metric_level=MetricLevel.RUNTIME) for i in range(2)]
            self.wait = CallableMetric('w', metric_level=MetricLevel.RUNTIME)
            kw.update(cache_hits=self.ms[0], cache_miss=self.ms[1], entries_waiting=self.wait)
        self.c = cls(self.write, self.read, **kw)

    def pause(self, k):
        q = self.delays.get(k)
        d = q.pop(0) if q else 0
        if d:
            time.sleep(d / 1000)

    def write(self, k, v):
        self.pause(k)
        self.st[k] = v

    def delete(self, k):
        self.pause(k)
        self.st.pop(k, None)

    def read(self, k):
        self.reads += 1
        if self.rd:
            time.sleep(self.rd / 1000)
        return self.st[k]

    def op_get(self, k):
        return self.o(self.c[k])

    def op_set(self, k, v, d=0):
        self.delays.setdefault(k, []).append(d)
        self.c[k] = self.i(v)

    def op_del(self, k, d=0):
        self.delays.setdefault(k, []).append(d)
        try:
            del self.c[k]
        except TypeError:
            self.delays[k].pop()
            raise

    def op_sync(self, t):
        return self.c.sync() if t < 0 else self.c.sync(t / 1000)

    def op_storage(self):
        return [self.o(self.st[k]) if k in self.st else 0 for k in (1, 2, 3)]

    def op_reads(self):
        return self.reads

    def op_counts(self):
        return [int(sum(x.value for x in m.to_metric_data().values)) for m in self.ms]

    def op_waiting(self):
        return int(sum(x.value for x in self.wait.to_metric_data().values))

    def op_sleep(self, t):
        time.sleep(t / 1000)


ODD = {1: None, 2: 0, 3: '', 4: (), 5: False, 10: 0.0}


FIN = [O('storage'), O('sync', -1), O('storage'), O('reads'), O('get', 1), O('get', 2), O('get', 3)]


def gen_seq(w):
    cfgs = [dict(ske=True, n=4, **{'del': True}), dict(ske=False, n=4, **{'del': True}), dict(ske=True, n=4, **{'del': False})]
    w.replay_spec(Ad, cfgs, FIN, clock=True)
    r = w.rng
    for _ in range(w.n(300, 5000)):
        cfg = dict(ske=r.random() < 0.6, n=r.choice([1, 2, 4, 4, 8]), rd=r.choice([0, 0, 200]), met=r.random() < 0.4, odd=r.random() < 0.3, **{'del': r.random() < 0.8})
        ops, d = [], lambda: r.choice([0, 0, 100, 700, 3000])
        for _ in range(r.randint(4, 30)):
            k = r.randint(1, 3)
            ops.append(r.choice([lambda: O('get', k), lambda: O('get', k), lambda: O('set', k, r.choice([r.randint(1, 99), r.randint(1, 5)]), d()), lambda: O('set', k, r.randint(1, 99), d()), lambda: O('del', k, d()), lambda: O('storage'),
                                 lambda: O('sleep', r.choice([50, 400, 2000])), lambda: O('sync', r.choice([-1, -1, 500, 4000, 0])) if r.random() < 0.4 else O('reads')])())
            if cfg['met'] and r.random() < 0.3:
                ops.append(O(r.choice(['counts', 'waiting'])))
        w.seq(cfg, ops + FIN + [O('waiting')] * cfg['met'], Ad, clock=True)
    # what is remembered is forgotten from time to time
    for _ in range(w.n(6, 100)):
        cfg = dict(ske=r.random() < 0.7, n=4, **{'del': True})
        ops = []
        for _ in range(r.randint(110, 260)):
            k = r.randint(1, 3)
            ops.append(r.choice([lambda: O('get', k), lambda: O('get', k), lambda: O('get', k), lambda: O('set', k, r.randint(1, 99), d()), lambda: O('del', k, d())])())
        w.seq(cfg, ops + [O('sync', -1), O('storage'), O('get', 1)], Ad, clock=True)


def gen_conc(w):
    r = w.rng
    fixed = [[[O('set', 1, 5)], [O('set', 1, 6)]], [[O('get', 1), O('get', 1)], [O('set', 1, 6)]], [[O('get', 1)], [O('del', 1), O('get', 1)]], [[O('set', 1, 5), O('set', 1, 6)], [O('get', 1)]],
             [[O('del', 1), O('set', 1, 8)], [O('get', 1)]], [[O('get', 3)], [O('set', 3, 9), O('get', 3)]], [[O('set', 1, 5)], [O('set', 2, 6)], [O('get', 2)]], [[O('set', 1, 5), O('del', 1)], [O('get', 3)]]]
    fin = [O('sync', -1), O('storage'), O('get', 1), O('get', 2), O('get', 3)]
    n = 0
    for p in fixed:
        for ske in (True, False):
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(dict(ske=ske, n=4, **{'del': True}), p, Ad, final=fin, bound=1, budget=40 if w.quick() else 1000, rnd=20 if w.quick() else 400)
    for _ in range(w.n(24, 400)):
        p = [[r.choice([O('get', 1), O('get', 2), O('get', 3), O('set', 1, r.randint(1, 9)), O('set', 1, r.randint(11, 19)), O('set', 3, r.randint(1, 9)), O('del', 1), O('del', 3)]) for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
        w.lin(dict(ske=r.random() < 0.6, n=r.choice([2, 4]), **{'del': True}), p, Ad, final=fin, bound=1, budget=8 if w.quick() else 80, rnd=12 if w.quick() else 100)


PROP = dict(
    title='A write-back cache reads its own writes and the storage ends up with them',
    statement='Reading an ExclusiveWritebackCache gives, for every history of reads, writes and deletions by any number of threads, the value last written (KeyError if last deleted, or never there), whatever of it has reached the storage. '
              'The storage receives the operations on a key in the order in which they were made: after sync() it holds exactly what was written. sync(timeout) raises WouldWaitMore after the timeout only. A key that was read or written is answered '
              'without reading the storage again, and so are KeyErrors with store_key_errors. Without delete_method deleting is a TypeError that changes nothing. The metrified cache counts hits, misses and waiting entries truly.',
    over=['schedules', 'histories'], text='all histories up to a depth with fast and slow storage operations, sampled long ones (beyond the point where remembered misses are forgotten); interleavings with bounded preemptions',
    why='the order in which worker threads apply the operations is a matter of schedule and of how long each takes',
    files=['satella/coding/structures/dictionaries/writeback_cache.py', 'satella/instrumentation/metrics/structures/cache_dict.py'],
    mech=[('reading', 'writeback_cache.py __getitem__'), ('writing back', 'writeback_cache.py __setitem__, __delitem__'), ('synchronizing', 'writeback_cache.py sync'), ('metrics', 'metrics/structures/cache_dict.py MetrifiedExclusiveWritebackCache')],
    note='storage methods that raise anything but KeyError on reading are not covered')
