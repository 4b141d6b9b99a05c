import time

from vt import Part

PARTS = [
    Part('excl', 'Locks', 'M', mode='lin', depth=(2, 3), replay=False, shards=(3, 7)),
    Part('dataset', 'Locks', 'D', mode='lin', design=False, shards=(3, 7)),
    Part('dseq', 'Locks', 'D', depth=(4, 6), shards=(1, 2)),
    Part('mset', 'Locks', 'MS', mode='lin', design=False, shards=(1, 4)),
    Part('msetseq', 'Locks', 'MS', depth=(3, 5), shards=(1, 2)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Excl:
    def __init__(self, cfg):
        from satella.coding.concurrent import Monitor, RMonitor, MonitorList, MonitorDict, MonitorSet, LockedDataset, LockedStructure
        self.n = 0
        me = self
        k = cfg['kind']

        def work(boom=False):
            x = me.n
            time.sleep(0)
            me.n = x + 1
            time.sleep(0)
            if boom:
                raise ValueError()
            return x

        def manual(cm):
            def f(boom=False):
                with cm():
                    return work(boom)
            return f

        if k in ('monitor', 'rmonitor', 'list', 'dict', 'set'):
            base = dict(monitor=Monitor, rmonitor=RMonitor, list=MonitorList, dict=MonitorDict, set=MonitorSet)[k]

            class X(base):
                @Monitor.synchronized
                def sync(self, boom=False):
                    return work(boom)

                def partial(self, boom=False):
                    with self:
                        return work(boom)

                @Monitor.synchronized
                def releasing(self, cb):
                    work()
                    with Monitor.release(self):
                        cb()
                    work()

                @Monitor.synchronized
                def releasing_boom(self):
                    work()
                    try:
                        with Monitor.release(self):
                            raise ValueError()
                    except ValueError:
                        pass
                    work()

                @Monitor.synchronized
                def nested(self, boom=False):
                    with self:
                        return self.sync(boom)

            x = self.x = X()

            @Monitor.synchronize_on(x)
            def on(boom=False):
                return work(boom)

            class Holder:
                def __init__(self):
                    self.mon = x

                @Monitor.synchronize_on_attribute('mon')
                def attr(self, boom=False):
                    return work(boom)

            class Other(Monitor):
                # a monitor itself, but its methods are synchronized on x
                @Monitor.synchronize_on(x)
                def on(self, boom=False):
                    return work(boom)

                @Monitor.synchronize_on_attribute('mon')
                def attr(self, boom=False):
                    return work(boom)

                mon = x

            holder = Holder()
            self.turn = 0
            others = [on, Other().on, Other().on]
            attrs = [holder.attr, Other().attr, Holder().attr]

            def some(fs):
                def f(boom=False):
                    me.turn += 1
                    return fs[me.turn % len(fs)](boom)
                return f

            self.ways = [x.partial, manual(lambda: Monitor.acquire(x)), x.sync, some(others), some(attrs)]
            if k == 'rmonitor':
                self.ways[1] = x.nested
        elif k == 'dataset':
            class DS(LockedDataset):
                def __init__(self):
                    super().__init__()
                    with self:
                        self.d = 0

                @LockedDataset.locked()
                def lk(self, boom=False):
                    return self.wk(boom)

                @LockedDataset.locked(timeout=1000000)
                def lk2(self, boom=False):
                    return self.wk(boom)

                def wk(self, boom):
                    x = self.d
                    time.sleep(0)
                    self.d = x + 1
                    me.n = x + 1
                    time.sleep(0)
                    if boom:
                        raise ValueError()
                    return self.d - 1

            ds = DS()

            def a(boom=False):
                with ds as d:
                    return d.wk(boom)

            def b(boom=False):
                with ds(blocking=True, timeout=1000000) as d:
                    return d.wk(boom)

            self.ways = [a, b, ds.lk, ds.lk2, a]
        else:
            import threading
            lock = threading.Lock()
            # with a lock of its own, or with one that was given
            s = LockedStructure({'a': 0}, lock) if k == 'structure2' else LockedStructure({'a': 0})

            def st(boom=False):
                with s as q:
                    x = q['a']
                    time.sleep(0)
                    q['a'] = x + 1
                    me.n = x + 1
                    if boom:
                        raise ValueError()
                    return x

            def st2(boom=False):
                with s as q:
                    assert q is s
                    return st3(boom)

            def st3(boom):
                x = s['a']
                time.sleep(0)
                s['a'] = x + 1
                me.n = x + 1
                if boom:
                    raise ValueError()
                return x
            def st4(boom=False):
                # whoever gave the lock may use it to the same end
                with lock:
                    return st3(boom)

            self.ways = [st, st4, st2, st4, st] if k == 'structure2' else [st, st2, st, st2, st]

    def op_incr(self, k):
        return self.ways[k - 1]()

    def op_boom(self, k):
        return self.ways[k - 1](True)

    def op_bump(self, k, n):
        if k == 'release':
            other = {}
            import threading
            th = threading.Thread(target=lambda: other.update(r=self.ways[0]()), daemon=True)

            def cb():
                th.start()
                th.join()
            self.x.releasing(cb)
        elif k == 'release_boom':
            self.x.releasing_boom()
        elif k == 'copy':
            import copy
            with self.x:
                inner = [1]
                if isinstance(self.x.data, list):
                    self.x.append(inner)
                    k = 0
                else:
                    self.x[k] = inner
                c, d = copy.copy(self.x), copy.deepcopy(self.x)
                if c[k] is not inner or d[k] is inner or d[k] != [1] or type(d) is not type(c) or len(c) != 1:
                    return 'not-a-copy'
                c[k] = d[k] = 5
                if self.x[k] is not inner:
                    return 'the-original-changed'
                del self.x[k]
                c = copy.copy(self.x)
                d = copy.deepcopy(self.x)
                with c, d:
                    pass
                self.n += 1
        else:
            for _ in range(n):
                self.ways[k - 1]()

    def op_get(self):
        return self.n


class DSAd:
    def __init__(self, cfg):
        from satella.coding.concurrent import LockedDataset
        import threading

        class DS(LockedDataset):
            def __init__(self):
                super().__init__()
                with self:
                    self.d = 7

            @LockedDataset.locked(blocking=False)
            def mnb(self):
                return self.d

            @LockedDataset.locked()
            def mblock(self):
                return self.d

            @LockedDataset.locked(timeout=0)
            def m0(self):
                return self.d

            @LockedDataset.locked(True, timeout=1)
            def m1000(self):
                return self.d

        self.ds = DS()
        self.held = {}
        self.me = threading.get_ident

    def op_acq(self, t):
        if t == -1:
            cm = self.ds
        elif t == -2:
            cm = self.ds(blocking=False)
        else:
            cm = self.ds(timeout=t / 1000)
        r = cm.__enter__()
        self.held[self.me()] = cm
        if r is not self.ds:
            return 'not-the-dataset'

    def op_mget(self, t):
        return {-2: self.ds.mnb, -1: self.ds.mblock, 0: self.ds.m0, 1000: self.ds.m1000}[t]()

    def op_rel(self):
        cm = self.held.pop(self.me(), None)
        if cm is None:
            return 'idle'
        if cm.__exit__(None, None, None):
            return 'swallows'

    def op_get(self):
        return self.ds.d

    def op_set(self, v):
        self.ds.d = v

    def op_sleep(self, t):
        time.sleep(t / 1000)


class SetAd:
    def __init__(self, cfg):
        from satella.coding.concurrent import MonitorSet
        self.s = MonitorSet()

    def op_insert(self, x):
        return self.s.insert_and_check(x)

    def op_discard(self, x):
        return self.s.discard(x)

    def op_contains(self, x):
        return x in self.s

    def op_dump(self):
        return sorted(self.s)


KINDS = ['monitor', 'rmonitor', 'dataset', 'structure', 'structure2', 'list', 'dict', 'set']


def gen_excl(w):
    r = w.rng
    fin = [O('get')]
    jobs = []
    for k in KINDS:
        cfg = dict(kind=k)
        for a in range(1, 6):
            for b in range(a, 6):
                jobs.append((cfg, [[O('incr', a)], [O('incr', b)]]))
        jobs.append((cfg, [[O('boom', 1), O('incr', 3)], [O('incr', 2)]]))
        jobs.append((cfg, [[O('boom', 3)], [O('boom', 2)], [O('boom', 4), O('incr', 5)]]))
        jobs.append((cfg, [[O('boom', 5), O('boom', 1)], [O('incr', 1)], [O('incr', 4)]]))
        jobs.append((cfg, [[O('incr', 1), O('incr', 2)], [O('incr', 3), O('incr', 4)], [O('incr', 5)]]))
        if k in ('monitor', 'rmonitor', 'list', 'dict', 'set'):
            jobs.append((cfg, [[O('bump', 'release', 3)], [O('bump', 1, 1)]]))
            jobs.append((cfg, [[O('bump', 'release_boom', 2)], [O('bump', 1, 1)], [O('bump', 3, 1)]]))
        if k in ('list', 'dict'):
            jobs.append((cfg, [[O('bump', 'copy', 1)], [O('bump', 1, 1)]]))
    for k, (cfg, p) in enumerate(jobs):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(cfg, p, Excl, final=fin, padv=0, bound=2, budget=25 if w.quick() else 400, rnd=12 if w.quick() else 150)


DP = [
    [[O('acq', -1), O('set', 1), O('get'), O('rel')], [O('acq', -1), O('set', 2), O('get'), O('rel')]],
    [[O('acq', -2), O('rel'), O('acq', -1), O('get'), O('rel')], [O('acq', -1), O('get'), O('rel')]],
    [[O('acq', 1000), O('get'), O('rel')], [O('acq', -1), O('sleep', 500), O('rel')]],
    [[O('acq', 1000), O('get'), O('rel')], [O('acq', -1), O('sleep', 2000), O('rel')]],
    [[O('acq', 1000), O('rel'), O('acq', -1), O('get'), O('rel')], [O('acq', -1), O('sleep', 2000), O('rel')]],
    [[O('get')], [O('acq', -1), O('set', 3), O('rel')]],
    [[O('set', 5), O('acq', -1), O('get'), O('rel')], [O('acq', -1), O('set', 3), O('rel')], [O('acq', 0), O('get'), O('rel')]],
    [[O('acq', -1), O('set', 1), O('get'), O('rel'), O('get')], [O('acq', -1), O('set', 2), O('get'), O('rel'), O('set', 9)], [O('acq', 500), O('get'), O('rel')]],
]


# the clock moves only when everybody waits: nobody may wait longer than told to
SHARP = [
    [[O('mget', 0), O('mget', -2)], [O('acq', -1), O('sleep', 500), O('rel')]],
    [[O('mget', 1000)], [O('acq', -1), O('sleep', 500), O('rel'), O('acq', -1), O('sleep', 700), O('rel')]],
    [[O('mget', 1000), O('mget', -1)], [O('acq', -1), O('sleep', 1500), O('rel')]],
    [[O('acq', 0), O('rel'), O('acq', 1000), O('rel')], [O('acq', -1), O('sleep', 1500), O('rel')]],
]


def gen_dataset(w):
    r = w.rng
    fin = [O('acq', -1), O('get'), O('rel'), O('get')]
    for k, p in enumerate(DP):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(dict(z=0), p, DSAd, final=fin, clock=True, bound=2, budget=200 if w.quick() else 3000, rnd=60 if w.quick() else 800)
    for k, p in enumerate(SHARP):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(dict(z=1), p, DSAd, final=fin, clock=True, bound=1, budget=60 if w.quick() else 600, rnd=20 if w.quick() else 300, padv=0)
    for _ in range(w.n(12, 200)):
        prog = []
        for _ in range(r.choice([2, 3])):
            ops = []
            for _ in range(r.choice([1, 2])):
                ops += [O('acq', r.choice([-1, -1, -2, 0, 1000]))] + [r.choice([O('get'), O('set', r.randint(1, 9)), O('sleep', r.choice([500, 1500]))])
                                                                     for _ in range(r.randint(0, 2))] + [O('rel')]
            prog.append(ops)
        w.lin(dict(z=0), prog, DSAd, final=fin, clock=True, bound=1, budget=30 if w.quick() else 200, rnd=30 if w.quick() else 300)


def gen_dseq(w):
    w.replay_spec(DSAd, [dict(z=0)], [O('rel'), O('get'), O('acq', -1), O('get')], clock=True)


def gen_mset(w):
    for p in [[[O('insert', 1)], [O('insert', 1)]],
              [[O('insert', 1), O('insert', 2)], [O('insert', 2), O('insert', 1)]],
              [[O('insert', 1)], [O('insert', 1)], [O('insert', 1), O('discard', 1), O('insert', 1)]],
              [[O('insert', 1), O('contains', 1)], [O('discard', 1), O('insert', 1)]]]:
        w.lin(dict(z=0), p, SetAd, final=[O('dump')], bound=2, budget=200 if w.quick() else 3000, rnd=60 if w.quick() else 800)


def gen_msetseq(w):
    w.replay_spec(SetAd, [dict(z=0)], [O('dump')])

PROP = dict(
    title='Monitors and locked datasets give mutual exclusion and never leak the lock',
    statement='Regions protected by the same monitor - a synchronized method, the monitor or an acquisition of it as a context manager, a function '
              'synchronized on it or on an attribute holding it - and regions holding the same locked dataset or locked structure never overlap in '
              'different threads; the lock is released when the region ends, also by an exception, releasing it temporarily lets others in and takes it back, '
              'and insert-if-absent on a monitored set succeeds exactly once per item. A locked dataset lets its holder read and write its attributes '
              'and raises ResourceNotLocked when nobody holds it; an acquisition of it that is non-blocking or has a timeout raises WouldWaitMore iff it could not lock '
              'within that time, and such arguments affect only that acquisition.',
    over=['schedules', 'histories'], text='every interleaving of protected regions entered in every supported way by several threads, with exceptions and timeouts',
    why='the tests check a lock with one contending thread; overlap and leaks need an interleaving at a specific point',
    files=['satella/coding/concurrent/monitor.py', 'satella/coding/concurrent/locked_dataset.py', 'satella/coding/concurrent/locked_structure.py'],
    mech=[('monitor lock', 'monitor.py Monitor'), ('dataset lock and flag', 'locked_dataset.py LockedDataset'), ('atomic insert', 'monitor.py MonitorSet')],
    note='each region must be one atomic step of the specification; bounded-preemption schedules at opcode granularity with virtual time')
