import threading
import time

from vt import Part

PARTS = [
    Part('calls', 'Offload', 'K', design=False, shards=(1, 2)),
    Part('parallel', 'Offload', 'P', depth=(1, 1), shards=(1, 2), max_paths=(1000, 1000)),
    Part('sync', 'Offload', 'Y', depth=(7, 9), replay=False, shards=(3, 8)),
    Part('collection', 'Offload', 'L', design=False, shards=(1, 2)),
]


class Odd(Exception):
    pass


EXCS = dict(KeyError=KeyError, ValueError=ValueError, Odd=Odd)


def O(op, *a):
    return dict(op=op, a=list(a))


class Calls:
    def __init__(self, cfg):
        from concurrent.futures import CancelledError, ThreadPoolExecutor
        from satella.coding.concurrent import call_in_separate_thread, run_as_future
        from satella.coding.concurrent.futures import call_in_future
        self.known = (CancelledError,)
        self.log = []
        self.fs = []
        self.kind = cfg['kind']
        if cfg['kind'] == 'separate':
            kw = dict(delay=cfg['delay'] / 1000) if cfg['delay'] else {}
            self.f = call_in_separate_thread(daemon=True, **kw)(self.body)
        elif cfg['kind'] == 'future':
            self.f = run_as_future(self.body)
        else:
            ex = ThreadPoolExecutor(max_workers=20)
            self.f = lambda *a, **k: call_in_future(ex, self.body, *a, **k)(1, 2, x=3)

    def body(self, i, d, out='ok'):
        if d:
            time.sleep(d / 1000)
        self.log.append(i)
        if out != 'ok':
            raise EXCS[out]()
        return 100 + i

    def op_call(self, d, out):
        i = len(self.fs) + 1
        self.fs.append(self.f(i, d, out=out))
        return i

    def op_done(self, i):
        return self.fs[i - 1].done()

    def op_cancel(self, i):
        return self.fs[i - 1].cancel()

    def op_result(self, i):
        return self.fs[i - 1].result()

    def op_ran(self):
        return sorted(self.log)

    def op_links(self):
        return self.kind != 'separate' or all(f.thread.future is f for f in self.fs)

    def op_sleep(self, t):
        time.sleep(t / 1000)


def gen_calls(w):
    r = w.rng
    for _ in range(w.n(250, 3000)):
        cfg = r.choice([dict(kind='separate', delay=0), dict(kind='separate', delay=500), dict(kind='future', delay=0), dict(kind='executor', delay=0)])
        ops, n = [], 0
        for _ in range(r.randint(2, 12)):
            k = r.choice(['call', 'call', 'done', 'result', 'sleep', 'cancel'])
            if k == 'call' or (n == 0 and k != 'sleep'):
                ops.append(O('call', r.choice([0, 100, 300, 1000]), r.choice(['ok', 'ok', 'KeyError', 'Odd'])))
                n += 1
            elif k == 'sleep':
                ops.append(O('sleep', r.choice([50, 250, 700])))
            elif k == 'cancel' and cfg['kind'] == 'executor':
                continue
            else:
                ops.append(O(k, r.randint(1, n)))
        ops += [O('sleep', 3050), O('ran'), O('links')] + [O('result', i + 1) for i in range(n)] + [O('done', i + 1) for i in range(n)]
        w.seq(cfg, ops, Calls, clock=True)


class Parallel:
    known = (KeyError, ValueError)

    def __init__(self, cfg):
        self.n = cfg['n']

    @property
    def ex(self):
        from concurrent.futures import ThreadPoolExecutor
        return ThreadPoolExecutor(max_workers=self.n)

    def work(self, x, d, o):
        if d:
            time.sleep(d / 1000)
        if o == 'none':
            return None
        if o != 'ok':
            raise EXCS[o]()
        return x * 2

    def op_execute(self, q):
        from satella.coding.concurrent import parallel_execute, run_as_future
        args = [(c['x'], c['d']) for c in q]
        if len(q) % 2:
            return list(parallel_execute(run_as_future(self.work), args, [dict(o=c['o']) for c in q]))
        return list(parallel_execute(run_as_future(self.work), [(c['x'], c['d'], c['o']) for c in q]))

    def op_construct(self, q):
        from satella.coding.concurrent import parallel_construct
        return parallel_construct(iter(q), lambda c: self.work(c['x'], c['d'], c['o']), self.ex)

    def collect(self, it):
        out = []
        try:
            for x in it:
                out.append(x)
        except (KeyError, ValueError, Odd) as e:
            out.append(e)
        return out

    def op_cursor(self, single, queries, args):
        from satella.cassandra import parallel_for
        log = []

        class F:
            def result(self):
                return [100 + fs.index(self) + 1]
        fs = []

        class Cursor:
            def execute_async(self, query, *args):
                log.append([query, len(args[0]) if args else -1])
                fs.append(F())
                return fs[-1]
        qs = [str(q) for q in queries]
        for x in parallel_for(Cursor(), qs[0] if single else qs, iter([None if n < 0 else (0,) * n for n in args])):
            log.append(x)
        return [[int(y) for y in x] for x in log]

    def op_map(self, q):
        from satella.coding.concurrent.futures import ExecutorWrapper
        return self.collect(ExecutorWrapper(self.ex).map(lambda c: self.work(c['x'], c['d'], c['o']), q))

    def op_for(self, q):
        from satella.cassandra import parallel_for, wrap_future
        ad = self

        class Cursor:
            ex = ad.ex

            def execute_async(self, query, *args):
                c = dict(zip(('x', 'd', 'o'), (args[0] if args else query)))
                return wrap_future(self.ex.submit(ad.work, **c))
        t = [(c['x'], c['d'], c['o']) for c in q]
        if len(q) % 2:
            return self.collect(parallel_for(Cursor(), t, [None] * len(q)))
        return self.collect(parallel_for(Cursor(), 'query', t))


def gen_parallel(w):
    w.replay_spec(Parallel, [dict(n=2)], clock=True)
    r = w.rng
    for _ in range(w.n(200, 3000)):
        ops = []
        for _ in range(2):
            q = [dict(x=r.randint(0, 50), d=r.choice([0, 0, 100, 700]), o=r.choice(['ok', 'ok', 'ok', 'none', 'KeyError', 'Odd'])) for _ in range(r.randint(0, 7))]
            ops.append(O(r.choice(['execute', 'construct', 'map', 'for']), q))
        w.seq(dict(n=r.randint(1, 4)), ops, Parallel, clock=True)


def sync_scenario(sc):
    """sc: n workers, wrap, threads: [[('at', ms) | ('submit', job, dur, out) | ('sync', max_wait)]..]"""
    from drive import ev
    from concurrent.futures import ThreadPoolExecutor
    from satella.coding.concurrent import sync_threadpool
    from satella.coding.concurrent.futures import ExecutorWrapper

    def scenario(log):
        tpe = ThreadPoolExecutor(max_workers=sc['n'])
        use = ExecutorWrapper(tpe) if sc['wrap'] else tpe
        fs = []

        def job(j, d, out):
            log.append(ev('job_b', j))
            if d:
                time.sleep(d / 1000)
            log.append(ev('job_e', j))
            if out:
                raise ValueError()
        t0 = time.monotonic()
        for k, a in enumerate(sc['acts']):
            if a[0] == 'at':
                time.sleep(max(0, t0 + a[1] / 1000 - time.monotonic()))
            elif a[0] == 'down':
                log.append(ev('down_b', a[1]))
                use.shutdown(wait=a[1])
                log.append(ev('down_e', a[1]))
            elif a[0] == 'submit':
                log.append(ev('submit', a[1]))
                fs.append(use.submit(job, *a[1:]))
            else:
                log.append(ev('sync_b', k, a[1]))
                try:
                    if a[1] < 0:
                        sync_threadpool(use)
                    else:
                        sync_threadpool(use, max_wait=a[1] / 1000)
                    r = None
                except Exception as e:  # noqa
                    r = e
                log.append(ev('sync_e', k, r=r))
        for f in fs:
            f.exception()
        log.append(ev('end'))
    return scenario


def gen_sync(w):
    r = w.rng
    J = lambda j, d=0, out=False: ('submit', j, d, out)
    Y = lambda t=-1: ('sync', t)
    fixed = [dict(n=1, wrap=False, acts=[Y()]), dict(n=2, wrap=False, acts=[Y(), J(1), Y()]), dict(n=2, wrap=True, acts=[J(1), J(2, 700), Y(), J(3)]),
             dict(n=3, wrap=False, acts=[J(1, 500), J(2, 500), J(3, 500), J(4, 500), Y()]), dict(n=2, wrap=False, acts=[J(1, 5000), Y(1000), J(2, 100)]),
             dict(n=1, wrap=False, acts=[J(1, 5000), Y(1000), J(2, 100), Y()]), dict(n=2, wrap=False, acts=[J(1, 5000), J(2, 5000), J(3, 5000), Y(2000), J(4, 100), Y(20000)]),
             dict(n=2, wrap=False, acts=[J(1, 1000, True), Y(3000)]),
             dict(n=1, wrap=True, acts=[J(1, 1000), J(2, 200, True), ('down', True)]), dict(n=2, wrap=True, acts=[J(1, 500), J(2), ('down', False)])]
    for k, sc in enumerate(fixed):
        if k % w.nshards == w.shard or not w.quick():
            w.events(dict(z=0), sync_scenario(sc), bound=1, budget=120 if w.quick() else 2000, rnd=30 if w.quick() else 400, max_clock=200)
    for _ in range(w.n(60, 1200)):
        acts, j = [], 0
        for _ in range(r.randint(2, 9)):
            if r.random() < 0.65:
                j += 1
                acts.append(J(j, r.choice([0, 300, 1500, 4000]), r.random() < 0.2))
            else:
                acts.append(Y(r.choice([-1, -1, 500, 2000, 9000])))
            if r.random() < 0.2:
                acts.append(('at', r.choice([500, 1000, 5000])))
        if r.random() < 0.3:
            acts.append(('down', r.random() < 0.7))
        w.events(dict(z=0), sync_scenario(dict(n=r.randint(1, 4), wrap=r.random() < 0.3, acts=acts)), bound=1, budget=3 if w.quick() else 20,
                 rnd=4 if w.quick() else 30, max_clock=400)


class Coll:
    def __init__(self, cfg):
        from satella.coding.concurrent import ThreadCollection, TerminableThread
        from satella.exceptions import WouldWaitMore
        self.known = (WouldWaitMore,)
        self.tc = ThreadCollection()
        self.TC = ThreadCollection
        self.how = 0
        self.kept = None

        class T(TerminableThread):
            def __init__(self, d):
                super().__init__(daemon=True)
                self.left = d

            def loop(self):
                if not self.left:
                    self.terminate()
                    return
                time.sleep(0.1)
                self.left -= 100
                if not self.left:
                    self.terminate()

        class U(threading.Thread):
            def __init__(self, d):
                super().__init__(daemon=True)
                self.d = d

            def run(self):
                time.sleep(self.d / 1000)
        self.T, self.U = T, U

    def op_add(self, q):
        ts = [(self.T if x['t'] else self.U)(x['d']) for x in q]
        self.how += 1
        old = self.tc
        n = len(old)
        if len(ts) == 1 and self.how % 3 == 0:
            assert self.tc.add(ts[0]) is self.tc
        elif len(ts) == 1 and self.how % 3 == 1:
            self.tc += ts[0]
            assert self.tc is old
        elif len(ts) == 1:
            self.tc = self.tc + ts[0]
            assert len(old) == n
        elif self.how % 3 == 0:
            self.tc += ts
            assert self.tc is old
        elif self.how % 3 == 1:
            self.tc = self.tc + self.TC(ts)
            assert len(old) == n
        else:
            self.tc += self.TC(iter(ts))
        return len(list(self.tc))

    def _s(self, r):
        return 'self' if r is self.tc else 'other'

    def op_start(self):
        return self._s(self.tc.start())

    def op_terminate(self):
        return self._s(self.tc.terminate())

    def op_alive(self):
        return self.tc.is_alive()

    def op_join(self, t):
        return self._s(self.tc.join() if t < 0 else self.tc.join(t / 1000))

    def op_len(self):
        return len(self.tc)

    def op_daemon(self):
        return self.tc.daemon

    def op_sleep(self, t):
        time.sleep(t / 1000)


def gen_collection(w):
    r = w.rng
    for _ in range(w.n(300, 3000)):
        ops = [O('len'), O('alive')] if r.random() < 0.3 else []
        for _ in range(r.randint(0, 3)):
            ops.append(O('add', [dict(d=r.choice([100, 300, 1000, 2000]), t=r.random() < 0.5) for _ in range(r.choice([1, 1, 2, 3]))]))
        ops += [O('daemon'), O('alive')]
        if r.random() < 0.1:
            ops.append(O('terminate'))
        ops.append(O('start'))
        for _ in range(r.randint(1, 6)):
            ops.append(r.choice([lambda: O('sleep', r.choice([50, 150, 350, 1050])), lambda: O('alive'), lambda: O('join', r.choice([0, 250, 450, 1250])), lambda: O('terminate'),
                                 lambda: O('len')])())
        ops += [O('join', -1), O('alive')]
        w.seq(dict(z=0), ops, Coll, clock=True)


PROP = dict(
    title='Work given to other threads is done exactly once and its outcome comes back',
    statement='A call made through call_in_separate_thread (after the given delay), run_as_future or call_in_future is executed exactly once, unless it was cancelled before it began, and its future gives its result '
              'or its exception as soon as it is done. parallel_execute, parallel_construct, ExecutorWrapper.map and parallel_for give the outcomes in the order of their arguments (exceptions in their place or raised, None dropped by parallel_construct). '
              'When sync_threadpool returns, every job submitted to the pool before has been finished; it returns soon after that, raises WouldWaitMore only after max_wait, and the pool is usable afterwards in every case; ExecutorWrapper.shutdown waits for all jobs if told so. '
              'A ThreadCollection starts, terminates and joins all of its threads; join raises WouldWaitMore iff a thread is still alive after its timeout.',
    over=['schedules', 'inputs', 'histories'], text='all interleavings (bounded preemptions) of jobs, workers and the synchronizing thread; outcomes, durations and pool sizes from a small set',
    why='the tests run a few calls in real time; a wake-up that comes between two statements of the worker is a matter of schedule',
    files=['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/functions.py', 'satella/coding/concurrent/sync.py', 'satella/coding/concurrent/list_processor.py',
           'satella/coding/concurrent/thread_collection.py', 'satella/coding/concurrent/futures/wrapped_executor.py', 'satella/coding/concurrent/futures/call_in_future.py', 'satella/cassandra/parallel.py'],
    mech=[('separate threads', 'thread.py call_in_separate_thread; functions.py run_as_future'), ('parallel calls', 'functions.py parallel_execute; list_processor.py parallel_construct'),
          ('pool synchronization', 'sync.py sync_threadpool'), ('thread collection', 'thread_collection.py ThreadCollection')],
    note='pool synchronization is explored over schedules with a bounded number of preemptions; the rest over sampled and enumerated inputs on a virtual clock')
