import time

from vt import Part

PARTS = [
    Part('deferred', 'Futures', 'V', mode='lin', design=False, shards=(1, 4)),
    Part('deferredseq', 'Futures', 'V', depth=(4, 6), shards=(1, 1)),
    Part('future', 'Futures', 'F', mode='lin', design=False, shards=(3, 7)),
    Part('futureseq', 'Futures', 'F', depth=(3, 4), shards=(2, 4), max_paths=(4000, 60000)),
    Part('colls', 'Futures', 'L', depth=(3, 5), shards=(1, 2), max_paths=(6000, 40000)),
    Part('collection', 'Futures', 'C', depth=(4, 6), shards=(1, 2)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Deferred:
    def __init__(self, cfg):
        from satella.coding.concurrent import DeferredValue
        self.d = DeferredValue()

    def op_set(self, v):
        return self.d.set_value(v)

    def op_value(self, t):
        return self.d.value() if t < 0 else self.d.value(t / 1000)

    def op_result(self, t):
        return self.d.result() if t < 0 else self.d.result(timeout=t / 1000)

    def op_sleep(self, t):
        time.sleep(t / 1000)


class Fut:
    def __init__(self, cfg):
        from satella.coding.concurrent import Future, WrappingFuture
        from concurrent.futures import Future as PF
        from concurrent.futures import InvalidStateError, CancelledError
        self.known = (InvalidStateError, CancelledError, TimeoutError, KeyError, ValueError, RuntimeError)
        if cfg['kind'] == 'future':
            self.f = self.src = Future()
        else:
            self.src = PF()
            self.f = None
            if cfg['kind'] == 'wrap':
                self.f = WrappingFuture(self.src)
        self.log = []

    def op_wrap(self):
        from satella.coding.concurrent.futures import wrap_if
        self.f = wrap_if(self.src)

    def op_set(self, v):
        return self.src.set_result(v)

    def op_setexc(self):
        return self.src.set_exception(ValueError('x'))

    def op_run(self):
        return (self.f or self.src).set_running_or_notify_cancel()

    def op_cancel(self):
        return (self.f or self.src).cancel()

    def op_srccancel(self):
        return self.src.cancel()

    def op_result(self, t):
        return self.f.result() if t < 0 else self.f.result(t / 1000)

    def op_exception(self, t):
        return self.f.exception() if t < 0 else self.f.exception(t / 1000)

    def op_cfwait(self, t):
        from concurrent.futures import wait, as_completed
        done, rest = wait([self.f], None if t < 0 else t / 1000)
        if len(done) + len(rest) != 1 or (done | rest) != {self.f}:
            return 'wrong'
        if done and list(as_completed([self.f])) != [self.f]:
            return 'differ'
        return len(done) == 1

    def op_prenote(self, i):
        if not self.f.done():
            return 'skip'
        seen = []
        if self.f.add_pre_done_callback(lambda f: (seen.append(f), self.log.append(
                i * 1000 + (998 if f.cancelled() else 999 if f.exception() is not None else f.result())), f.set_result(77))) is not None:
            return 'other'
        return None if seen in ([self.f], []) else seen

    def op_done(self):
        return self.f.done()

    def op_cancelled(self):
        return self.f.cancelled()

    def op_running(self):
        return self.f.running()

    def op_pre(self, k):
        def inc(f):
            x = f.result()
            time.sleep(0)
            f.set_result(x + 1)
            time.sleep(0)

        def fail(f):
            f.set_exception(KeyError('y'))
            time.sleep(0)

        def mend(f):
            if f.exception() is not None:
                time.sleep(0)
                f.set_result(50)

        def boom(f):
            raise RuntimeError('boom')
        return self.f.add_pre_done_callback(dict(inc=inc, fail=fail, mend=mend, boom=boom)[k])

    def op_cb(self, k, i):
        def code(v):
            if isinstance(v, BaseException):
                v = 999
            self.log.append(i * 1000 + (997 if v is None else v))

        def done(f):
            if f is not self.f:
                self.log.append(-1)
            if f.cancelled():
                return code(998)
            e = f.exception()
            code(f.result() if e is None else e)

        def chain(v):
            if v is None:
                return
            code(v)

        f = self.f
        if k == 'done':
            return f.add_done_callback(done)
        r = dict(on_success=f.on_success, on_failure=f.on_failure, chain=f.chain)[k](chain if k == 'chain' else code)
        if r is not f:
            return 'not-self'

    def op_log(self):
        return sorted(self.log)

    def op_sleep(self, t):
        time.sleep(t / 1000)


class Coll:
    def __init__(self, cfg):
        from satella.coding.concurrent import FutureCollection, Future
        from concurrent.futures import Future as PF, CancelledError
        self.known = (CancelledError, ValueError)
        self.fs = [Future(), PF(), Future()]
        fc = FutureCollection(self.fs[:1]) + self.fs[1]
        fc += FutureCollection([self.fs[2]])
        self.c = fc
        assert len(fc) == 3 and fc[1] is self.fs[1]
        self.n = 0

        def cb(f):
            self.n += 1
        fc.add_done_callback(cb)

    def op_one(self, k, w):
        f = self.fs[k - 1]
        pend = not (f.done() or f.running())
        if w == 'run' and pend:
            return f.set_running_or_notify_cancel()
        if w == 'cancel' and pend:
            return f.cancel()
        if w == 'set' and not f.done():
            return f.set_result(7)
        if w == 'fail' and not f.done():
            return f.set_exception(ValueError())
        return 'skip'

    def op_cancel(self):
        return self.c.cancel()

    def op_run(self):
        if any(f.running() or (f.done() and not f.cancelled()) or f._state == 'CANCELLED_AND_NOTIFIED' for f in self.fs):
            return 'skip'
        return self.c.set_running_or_notify_cancel()

    def op_set(self):
        if any(f.done() for f in self.fs):
            return 'skip'
        return self.c.set_result(7)

    def op_fail(self):
        if any(f.done() for f in self.fs):
            return 'skip'
        return self.c.set_exception(ValueError())

    def op_result(self):
        return self.c.result(1)

    def op_exception(self):
        return self.c.exception(1)

    def op_states(self):
        return ['cancelled' if f.cancelled() else 'done' if f.done() else 'running' if f.running() else 'pending' for f in self.fs]

    def op_count(self):
        return self.n


Z = dict(z=0)


def gen_deferredseq(w):
    w.replay_spec(Deferred, [Z], [O('value', 0)], clock=True)


def gen_deferred(w):
    for p in [[[O('set', 1)], [O('set', 2)]],
              [[O('set', 1)], [O('set', 2)], [O('value', -1), O('value', -1)]],
              [[O('sleep', 500), O('set', 1)], [O('value', -1)], [O('result', -1)]],
              [[O('sleep', 500), O('set', 1)], [O('value', 1000)], [O('value', 300)]],
              [[O('set', 1), O('value', 0)], [O('set', 2), O('value', 0)], [O('set', 3), O('value', -1)]],
              [[O('value', 0), O('value', -1)], [O('set', 3)]]]:
        w.lin(Z, p, Deferred, final=[O('value', 0)], clock=True, bound=2, budget=200 if w.quick() else 3000, rnd=60 if w.quick() else 600)


    for p in [[[O('value', 500)], [O('result', 1000)], [O('sleep', 700), O('set', 1)]],
              [[O('value', 0)], [O('result', 0), O('value', 300)], [O('sleep', 700), O('set', 1)]],
              [[O('value', 1000), O('value', 1000)], [O('result', 3000)]]]:
        w.lin(dict(z=1), p, Deferred, final=[O('value', 0)], clock=True, bound=1, budget=60 if w.quick() else 600, rnd=30 if w.quick() else 200, padv=0)


class Building:
    def __init__(self, cfg):
        from satella.coding.concurrent import FutureCollection, Future
        self.FC, self.F = FutureCollection, Future
        self.fs = {k: Future() for k in range(1, 6)}
        self.a = FutureCollection([self.fs[k] for k in cfg['a']]) if cfg['a'] else FutureCollection()
        self.b = FutureCollection(())

    def make(self, how, q):
        q = [self.fs[k] for k in q]
        return self.FC(q) if how == 'coll' else q if how == 'list' else tuple(q) if how == 'tuple' else q[0]

    def op_plus(self, how, q):
        x = self.make(how, q)
        self.b = self.a + x

    def op_iplus(self, how, q):
        self.a += self.make(how, q)

    def op_plusb(self):
        self.a = self.a + self.b

    def op_iplusb(self):
        self.a += self.b

    def op_swap(self):
        self.a, self.b = self.b, self.a

    def op_add(self, k):
        return 'self' if self.a.add(self.fs[k]) is self.a else 'other'

    def num(self, f):
        return [k for k in self.fs if self.fs[k] is f][0]

    def op_items(self):
        return [[self.num(c[i]) for i in range(len(c))] for c in (self.a, self.b)] + [len(self.a), len(self.b)]

    def op_get(self, k):
        return self.num(self.a[k - 1])

    def fresh(self):
        """the same collection over fresh futures"""
        fs = {k: self.F() for k in self.fs}
        return fs, self.FC(fs[self.num(f)] for f in self.a.futures)

    def decide(self, fails, what):
        fs, c = self.fresh()
        for k, f in fs.items():
            f.set_running_or_notify_cancel()
            if k in fails:
                f.set_exception(ValueError(k))
            else:
                f.set_result(10 * k)
        try:
            r = getattr(c, what)()
        except ValueError as e:
            return -e.args[0] if what == 'result' else 'raised'
        return r if what == 'result' or r is None else -r.args[0]

    def op_result(self, fails):
        return self.decide(fails, 'result')

    def op_exception(self, fails):
        return self.decide(fails, 'exception')

    def op_cb(self, one):
        fs, c = self.fresh()
        n = []
        if one:
            c.add_done_callback(n.append, only_one=True)
        else:
            c.add_done_callback(n.append)
        for k, f in fs.items():
            f.set_running_or_notify_cancel()
            f.set_result(1)
        return len(n)


def gen_colls(w):
    fin = [O('items'), O('result', []), O('result', [3]), O('exception', [4, 1])]
    w.replay_spec(Building, [dict(a=[]), dict(a=[3, 1, 2])], fin)
    r = w.rng
    for _ in range(w.n(100, 2000)):
        ops = []
        for _ in range(r.randint(3, 10)):
            ops.append(r.choice([lambda: O(r.choice(['plus', 'iplus']), r.choice(['coll', 'list', 'tuple']), [r.randint(1, 5) for _ in range(r.randint(0, 4))]),
                                 lambda: O(r.choice(['plus', 'iplus']), 'one', [r.randint(1, 5)]), lambda: O('swap'), lambda: O('add', r.randint(1, 5)),
                                 lambda: O('items'), lambda: O('plusb'), lambda: O('cb', r.random() < 0.5), lambda: O('get', r.randint(1, 6))])())
        w.seq(dict(a=[r.randint(1, 5) for _ in range(r.randint(0, 3))]), ops + fin, Building)


def gen_futureseq(w):
    fin = [O('result', 0), O('exception', 0), O('cfwait', 0), O('log'), O('done')]
    w.replay_spec(Fut, [dict(kind='future'), dict(kind='wrap')], fin, clock=True)
    r = w.rng
    for _ in range(w.n(200, 4000)):
        ops = []
        n = 0
        for _ in range(r.randint(3, 14)):
            o = r.choice(['set', 'setexc', 'run', 'run', 'cancel', 'result', 'exception', 'done', 'cancelled', 'running', 'cfwait', 'prenote', 'pre', 'pre', 'pre', 'cb', 'cb', 'cb', 'log'])
            if o == 'set':
                ops.append(O('set', r.randint(1, 40)))
            elif o in ('result', 'exception', 'cfwait'):
                ops.append(O(o, r.choice([0, 1000])))
            elif o == 'prenote':
                n += 1
                ops.append(O('prenote', n))
            elif o == 'pre':
                ops.append(O('pre', r.choice(['inc', 'inc', 'fail', 'mend', 'boom'])))
            elif o == 'cb':
                n += 1
                ops.append(O('cb', r.choice(['done', 'on_success', 'on_failure', 'chain']), n))
            else:
                ops.append(O(o))
        w.seq(dict(kind=r.choice(['future', 'wrap'])), ops + fin, Fut, clock=True)


def gen_future(w):
    F, W = dict(kind='future'), dict(kind='wrap')
    jobs = []
    for cfg in (F, W):
        jobs += [(cfg, [O('run')], [[O('set', 1)], [O('result', -1)]]),
                 (cfg, [O('run'), O('pre', 'inc')], [[O('set', 1)], [O('result', -1)], [O('exception', -1)]]),
                 (cfg, [O('run'), O('pre', 'inc'), O('pre', 'fail')], [[O('set', 1)], [O('result', -1)]]),
                 (cfg, [O('run'), O('pre', 'mend')], [[O('setexc')], [O('result', -1)], [O('result', 0)]]),
                 (cfg, [], [[O('cancel')], [O('result', -1)]]),
                 (cfg, [O('cb', 'done', 1)], [[O('cancel')], [O('cb', 'done', 2)], [O('result', -1)]]),
                 (cfg, [O('run')], [[O('set', 1)], [O('cb', 'done', 1)], [O('cb', 'on_success', 2)]]),
                 (cfg, [O('run')], [[O('setexc')], [O('cb', 'on_failure', 1)], [O('cb', 'chain', 2)]]),
                 (cfg, [O('run'), O('cb', 'done', 1)], [[O('sleep', 500), O('set', 3)], [O('result', 1000)], [O('exception', 300)]])]
    jobs += [(F, [O('run'), O('pre', 'inc')], [[O('set', 1)], [O('set', 10)], [O('result', -1)]]),
             (F, [O('run'), O('pre', 'inc')], [[O('set', 1)], [O('setexc')]]),
             (F, [O('cb', 'done', 1)], [[O('cancel')], [O('set', 10)], [O('result', -1)]]),
             (F, [O('cb', 'done', 1)], [[O('cancel')], [O('run')], [O('done')]]),
             (F, [O('run')], [[O('set', 1)], [O('cfwait', -1)]]),
             (F, [O('run')], [[O('setexc')], [O('cfwait', -1)], [O('cfwait', 1000)]]),
             (W, [O('run')], [[O('setexc')], [O('cfwait', -1)]]),
             (W, [O('run')], [[O('set', 2)], [O('cfwait', -1)]]),
             (F, [], [[O('cancel'), O('run')], [O('cfwait', -1)]]),
             (W, [], [[O('cancel'), O('run')], [O('cfwait', -1)]]),
             (F, [O('run')], [[O('pre', 'inc')], [O('set', 10)], [O('result', -1)]]),
             (W, [O('cb', 'done', 1)], [[O('run')], [O('cancel')], [O('result', 2000)]])]
    for k, (cfg, setup, p) in enumerate(jobs):
        if k % w.nshards == w.shard or not w.quick():
            w.lin(cfg, p, Fut, setup=setup, final=[O('log'), O('result', 0)], clock=True, bound=2, budget=150 if w.quick() else 3000,
                  rnd=50 if w.quick() else 600)
    # nobody waits longer than the timeout
    if w.shard == 0 or not w.quick():
        for cfg in (F, W):
            cfg = dict(cfg, sharp=1)
            for p in [[[O('result', 500)], [O('exception', 1000)], [O('sleep', 700), O('set', 1)]],
                      [[O('result', 0)], [O('cfwait', 1000)], [O('sleep', 1700), O('setexc')]],
                      [[O('result', 1000)], [O('result', 300), O('result', 300)], [O('sleep', 400), O('cancel')]]]:
                w.lin(cfg, p, Fut, setup=[O('run')] if p[2][1]['op'] != 'cancel' else [], final=[O('log'), O('result', 0)], clock=True, bound=1,
                      budget=40 if w.quick() else 600, rnd=20 if w.quick() else 200, padv=0)
    # wrapping a future which is just being completed
    for p in [[O('run'), O('set', 1)], [O('run'), O('setexc')], [O('cancel')]]:
        race_wrap(w, p)


def race_wrap(w, ops):
    class A(Fut):
        # the wrapping happens concurrently; to the specification it is invisible
        def op_sleep(self, t):
            return self.op_wrap() if t == 1 else super().op_sleep(t)

        def op_set(self, v):
            return self.src.set_result(v)

        def op_run(self):
            return self.src.set_running_or_notify_cancel()

        def op_cancel(self):
            return self.src.cancel()

    w.lin(dict(kind='src'), [[o for o in ops], [O('sleep', 1), O('cb', 'done', 1), O('result', -1)]], A, final=[O('log'), O('result', 0)], clock=True,
          bound=2, budget=200 if w.quick() else 3000, rnd=80 if w.quick() else 600)


def gen_collection(w):
    w.replay_spec(Coll, [dict(f=['pending'] * 3)], [O('states'), O('count'), O('result'), O('exception')])


PROP = dict(
    title='Deferred values and futures: one outcome, decided once, seen by everybody',
    statement='A deferred value and a future (also one wrapping a plain Python future, and also when that one is just completing) get at most one outcome: of competing assignments exactly one succeeds and the others raise; '
              'every waiter is woken up and gets that outcome, and with a timeout a waiter gives up only after it elapsed. Pre-done callbacks run in '
              'order before anybody can see the outcome and can change it, in both directions between result and exception; each done, success, failure or chained callback runs '
              'exactly once, iff it applies, with the final outcome. Operations on a collection of futures apply to every one of its futures; adding to or combining collections loses, reorders and shares nothing.',
    over=['schedules', 'histories'], text='every interleaving of completing, cancelling, wrapping, waiting and callback registration',
    why='the tests complete futures from one thread; races between completion, callbacks, cancellation and waiting need specific schedules',
    files=['satella/coding/concurrent/value.py', 'satella/coding/concurrent/futures/futures.py', 'satella/coding/concurrent/futures/collection.py'],
    mech=[('single assignment', 'value.py DeferredValue.set_value'), ('completion and pre-done callbacks', 'futures/futures.py Future'),
          ('wrapping', 'futures/futures.py WrappingFuture'), ('collections', 'futures/collection.py')],
    note='linearizability against the specification with virtual time; all sequential histories up to a bound are replayed; bounded-preemption schedules')
