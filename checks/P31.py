import threading
import time

from vt import Part

PARTS = [
    Part('backoff', 'Backoff', 'E', depth=(4, 6), max_paths=(4000, 60000), shards=(2, 6)),
    Part('waiting', 'Backoff', 'W', depth=(4, 6), max_paths=(1, 1), shards=(2, 6)),
    Part('measure', 'Backoff', 'T', depth=(4, 5), max_paths=(5000, 60000), shards=(2, 6)),
    Part('sleeping', 'Backoff', 'P', depth=(1, 1), max_paths=(100000, 100000)),
]
Q = 0.25


def O(op, *a):
    return dict(op=op, a=list(a))


def q(x):
    return round(x / Q, 6)


class Bo:
    def __init__(self, cfg):
        from satella.time import ExponentialBackoff
        self.b = ExponentialBackoff(start=cfg['start'] * Q, limit=cfg['limit'] * Q, grace_amount=cfg['grace'])
        self.t = time.monotonic()

    def at(self, f, *a):
        import drive
        from satella.exceptions import WouldWaitMore
        r = drive.call(f, *a, known=(WouldWaitMore,))
        return [drive.Raw(*r), q(time.monotonic() - self.t)]

    def op_failed(self):
        return self.at(self.b.failed)

    def op_success(self):
        return self.at(self.b.success)

    def op_sleep(self):
        return self.at(self.b.sleep)

    def op_tick(self, n):
        return self.at(time.sleep, n * Q)

    def op_available(self):
        return self.at(lambda: self.b.available)

    def op_ready(self):
        return self.at(lambda: self.b.ready_for_next_check)

    def op_until(self):
        def f():
            t = self.b.time_until_next_check()
            return None if t is None or t == 0 else q(t)    # whether at the very end of the period it is 0 or None does not matter
        return self.at(f)

    def op_wait(self, t):
        return self.at(self.b.wait_until_available, None if t == -1 else t * Q)

    def op_launch(self, n):
        n0 = [n]
        imm = n == 4

        def f(*a, **k):
            assert (a, k) == (((1,), dict(x=2)) if not imm or done else ((), {}))
            if n0[0]:
                n0[0] -= 1
                raise (KeyError if n0[0] % 2 else IndexError)()
            return 7
        done = False
        if not imm:
            return self.at(lambda: self.b.launch(LookupError)(f)(1, x=2))

        def go():
            nonlocal done
            g = self.b.launch((KeyError, IndexError), immediate=True)(f)
            done = True
            return 7 if n0[0] == 0 and callable(g) else None
        return self.at(go)

    def op_launch_other(self):
        def f():
            raise KeyError()
        return self.at(self.b.launch(ValueError)(f))


CFGS = [dict(start=2, limit=12, grace=0), dict(start=4, limit=16, grace=2), dict(start=8, limit=4, grace=0)]


def gen_backoff(w):
    w.replay_spec(Bo, CFGS, final=[O('until'), O('available'), O('wait', -1)])
    for _ in range(w.n(200, 4000)):
        w.seq(w.rng.choice(CFGS), [w.rng.choice([O('failed'), O('failed'), O('failed'), O('success'), O('sleep'), O('tick', w.rng.randint(1, 9)), O('until'), O('ready'), O('available'), O('wait', w.rng.choice([-1, 1, 2, 5])),
                                                 O('launch', w.rng.randint(0, 3))]) for _ in range(w.rng.randint(5, 20))], Bo)


def gen_waiting(w):
    import drive
    from satella.exceptions import WouldWaitMore

    def scenario(moves, waits):
        def run(log):
            from satella.time import ExponentialBackoff
            b = ExponentialBackoff(start=1, limit=4)

            def waiter(i, after, timeout):
                if after:
                    time.sleep(after / 1000)
                log.append(drive.ev('wait_b', i, timeout))
                try:
                    b.wait_until_available(None if timeout == -1 else timeout / 1000)
                    r = 'ok'
                except WouldWaitMore:
                    r = 'WouldWaitMore'
                log.append(drive.ev('wait_e', i, r=r))
            ths = [threading.Thread(target=waiter, args=(i + 1,) + x) for i, x in enumerate(waits)]
            if moves and moves[0] == 'failed0':
                log.append(drive.ev('failed_b'))
                b.failed()
                log.append(drive.ev('failed_e'))
            for t in ths:
                t.start()
            for m in moves:
                if m == 'failed0':
                    continue
                if isinstance(m, int):
                    time.sleep(m / 1000)
                else:
                    log.append(drive.ev(m + '_b'))
                    getattr(b, m)()
                    log.append(drive.ev(m + '_e'))
            for t in ths:
                t.join()
            log.append(drive.ev('end'))
        return run

    F, S, F0 = 'failed', 'success', 'failed0'
    fixed = [
        ([F0, S], [(0, -1)]), ([F0, S], [(0, 3000)]), ([F0, 500, S], [(0, -1), (0, 500)]), ([F0, 500, F], [(0, -1)]), ([F0], [(0, 500)]), ([F0], [(0, 1000)]), ([F0, 500, F], [(0, 2000), (0, 3000)]),
        ([F, S, F], [(0, -1), (0, -1)]), ([F0, 1000, F], [(0, -1)]), ([F0, 500, S, F], [(0, -1), (500, 250)]), ([F0, 1500, F, S], [(1000, -1), (1500, 250)]), ([F0, 1000, F, 500, S], [(1000, -1)]),
    ]
    r = w.rng
    for k, (m, ws) in enumerate(fixed):
        if k % w.nshards == w.shard or not w.quick():
            w.events(dict(start=1000, limit=4000), scenario(m, ws), bound=2, budget=80 if w.quick() else 2000, rnd=20 if w.quick() else 500, max_clock=1000)
    for _ in range(w.n(40, 600)):
        m = [r.choice([F, F, S, 500, 1000, 250, F0]) for _ in range(r.randint(2, 6))]
        ws = [(r.choice([0, 0, 250, 500, 1000]), r.choice([-1, 250, 500, 1000, 2500])) for _ in range(r.randint(1, 3))]
        w.events(dict(start=1000, limit=4000), scenario(m, ws), bound=1, budget=20 if w.quick() else 200, rnd=10 if w.quick() else 100, max_clock=1000)


class Me:
    def __init__(self, cfg):
        from satella.exceptions import WouldWaitMore
        from satella.time import measure
        self.known = (WouldWaitMore,)
        k = dict(stop_on_stop=cfg['sos'], create_stopped=cfg['stopped'], adjust=cfg['adjust'] * Q, timeout=None if cfg['timeout'] == -1 else cfg['timeout'] * Q)
        if cfg['timeout'] == 3:
            k['time_getter_callable'] = lambda: time.time()
        self.m = measure(**k)

    def op_tick(self, n):
        time.sleep(n * Q)

    def op_elapsed(self):
        assert self.m() == self.m.get_time_elapsed()
        return q(self.m())

    def op_adjust(self, n):
        self.m.adjust(n * Q)

    def op_enter(self):
        assert self.m.__enter__() is self.m

    def op_exit(self):
        assert not self.m.__exit__(None, None, None)

    def op_exit_exc(self):
        assert not self.m.__exit__(KeyError, KeyError(), None)

    def op_stopped(self):
        return self.m.stopped

    def op_timeouted(self):
        return self.m.timeouted

    def op_remaining(self):
        r = self.m.time_remaining
        return None if r is None else q(r)

    def op_check(self):
        self.m.assert_not_timeouted()

    def op_exceeded(self, n):
        return self.m.has_exceeded(n * Q)

    def op_raise_if(self, n):
        if n % 2:
            self.m.raise_if_exceeded(n * Q)
        else:
            try:
                self.m.raise_if_exceeded(n * Q, KeyError)
            except KeyError:
                self.m.raise_if_exceeded(n * Q)
                return 'did not raise for the second time'

    def op_decorate(self, kind, n):
        seen, ms = [], []
        tick = lambda: time.sleep(Q)

        def read(m):
            ms.append(m)
            seen.append(q(m()))
        if kind == 'function':
            @self.m
            def f(m, n, *, x):
                tick()
                if n > 1:
                    assert f(n - 1, x=x) == (x, n - 1)
                tick()
                read(m)
                return x, n
            assert f(n, x='x') == ('x', n)
        elif kind == 'method':
            m_ = self.m

            class C:
                @m_
                def f(self, m, n):
                    assert isinstance(self, C)
                    tick()
                    if n > 1:
                        self.f(n - 1)
                    tick()
                    read(m)
                    return n
            assert C().f(n) == n
        else:
            @self.m
            def g(m, n):
                tick()
                yield n
                if n > 1:
                    yield from g(n - 1)
                tick()
                read(m)
            assert list(g(n)) == list(range(n, 0, -1))
        time.sleep(5 * Q)
        return [seen, [q(m()) for m in ms]]

    def op_ends(self, kind, n):
        '''what it decorates ends in some other way after some time'''
        ms, exc = [], dict(error=KeyError, interrupt=KeyboardInterrupt, exit=SystemExit, stop=StopIteration, throw=KeyError, thrown_exit=SystemExit, close=GeneratorExit)[kind]
        if kind in ('error', 'interrupt', 'exit', 'stop'):
            @self.m
            def f(m):
                ms.append(m)
                time.sleep(n * Q)
                raise exc()
            try:
                f()
                return 'nothing was raised'
            except exc:
                pass
        else:
            @self.m
            def g(m):
                ms.append(m)
                yield 1
                yield 2
            i = g()
            next(i)
            time.sleep(n * Q)
            if kind == 'close':
                i.close()
            else:
                try:
                    i.throw(exc())
                    return 'nothing was raised'
                except exc:
                    pass
        time.sleep(5 * Q)
        return q(ms[0]())

    def op_future(self, kind, n):
        from concurrent.futures import Future
        from satella.time import measure
        f = Future()
        m = measure(f)
        time.sleep(n * Q)
        if kind == 'cancel':
            f.cancel()
        else:
            f.set_running_or_notify_cancel()
            if kind == 'result':
                f.set_result(1)
            else:
                f.set_exception(KeyError())
        time.sleep(3 * Q)
        return q(m())


for o in ('start', 'stop', 'reset', 'reset_and_start', 'reset_and_stop', 'update'):
    def op(self, o=o):
        return getattr(self.m, o)()
    setattr(Me, 'op_' + o, op)
MCFGS = [dict(sos=True, stopped=False, adjust=0, timeout=-1), dict(sos=True, stopped=True, adjust=0, timeout=3), dict(sos=False, stopped=False, adjust=0, timeout=2), dict(sos=True, stopped=False, adjust=1, timeout=2)]


def gen_measure(w):
    w.replay_spec(Me, MCFGS, final=[O('tick', 1), O('elapsed'), O('stopped')])
    for _ in range(w.n(300, 6000)):
        w.seq(w.rng.choice(MCFGS), [w.rng.choice([O('tick', w.rng.randint(1, 3)), O('start'), O('stop'), O('reset'), O('reset_and_start'), O('reset_and_stop'), O('elapsed'), O('timeouted'), O('remaining'), O('check'), O('enter'), O('exit'),
                                                  O('elapsed'), O('stopped')]) for _ in range(w.rng.randint(5, 20))], Me)


class Sl:
    def __init__(self, cfg):
        pass

    def op_parse(self, n, u, sp):
        from satella.time import parse_time_string
        return parse_time_string('%d%s%s' % (n, ' ' if sp else '', u))

    def op_number(self, n, k):
        from satella.time import parse_time_string
        return parse_time_string(n if k == 'int' else float(n))

    def op_fraction(self, n, u):
        from satella.time import parse_time_string
        return q(parse_time_string('%s%s' % (n * Q, u)))

    def op_clock(self, n):
        from satella.time import time_as_int, time_ms, time_us
        base = int(time.time()) + 1
        time.sleep(base + n * Q - time.time())
        return [time_as_int() - base, time_ms() - base * 1000, time_us() - base * 1000000]

    def op_garbage(self, s):
        from satella.time import parse_time_string
        return parse_time_string(s)

    def op_sleep(self, n, abort, hits):
        import detsched
        from satella.time import sleep
        hits = list(hits)

        def hook(d):
            if hits and hits[0] * Q < d:
                return hits.pop(0) * Q, KeyboardInterrupt()
            if hits:
                hits[0] -= d / Q
            return d, None
        t = time.monotonic()
        detsched.SLEEP_HOOK = hook
        try:
            s = n * Q
            r = sleep(('%ss' % s if n % 2 else str(s)) if n in (5, 8) else s, *([True] if abort else []))
        finally:
            detsched.SLEEP_HOOK = None
        return [r, q(time.monotonic() - t)]

    def op_sleep_tick(self, n):
        import detsched
        from satella.time import sleep
        t = time.monotonic()
        detsched.TICK = 0.125
        try:
            return sleep(n * 0.0625) and time.monotonic() - t >= n * 0.0625
        finally:
            detsched.TICK = 0.0


def gen_sleeping(w):
    w.replay_spec(Sl, [dict(x=0)])


PROP = dict(
    title='Backoff, time measurement and sleeping obey the clock',
    statement='ExponentialBackoff: after failed() beyond the grace amount, the delay is start, then doubles up to the limit, which it never exceeds; it is not ready for the next check exactly until the delay has elapsed since the last failure; success() resets it. wait_until_available returns as soon as it is ready or success() is called from another thread, in any interleaving, and raises WouldWaitMore at the timeout and not later; '
              'launch() retries with these delays. measure() counts exactly the time it was running, stop() and start() resuming it, reset() setting it to zero; timeouts follow from what has elapsed; each call of a decorated function, method or generator has its own measurement, and one of a future stops with the future. sleep() takes exactly its time, in spite of interruptions unless told otherwise. Time strings are the number times the unit.',
    over=['inputs', 'schedules', 'histories'], text='all the histories of 4 (6) operations on 3 backoffs and 4 measurements, 12 programs of waiting threads with all the schedules of up to 2 preemptions (and random ones), 152 time strings, 60 interrupted sleeps', why='waiters, successes and failures race with each other and with the clock; the history of a measurement decides what it shows',
    files=['satella/time/backoff.py', 'satella/time/measure.py', 'satella/time/misc.py', 'satella/time/parse.py'],
    mech=[('backoff', 'backoff.py ExponentialBackoff'), ('measure', 'measure.py measure'), ('sleep', 'misc.py sleep'), ('strings', 'parse.py parse_time_string')], note='one thread calls success() and failed(), as it is documented; adjust() of a stopped measurement is not specified')
