"""helpers used by the drivers inside a worker process"""
import copy
import ctypes
import enum
import json
import random
import threading
import time

import detsched
from detsched import Sched, Default, explore, _real_monotonic


# ------------------------------------------------------------------ encoding of answers
def enc(v):
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, enum.Enum):
        return ['str', v.name]
    if isinstance(v, int):
        return ['int', v] if abs(v) < 2 ** 30 else ['big', str(v)]
    if isinstance(v, float):
        if v == int(v) and abs(v) < 2 ** 30:
            return ['int', int(v)]
        return ['float', repr(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, (bytes, bytearray)):
        return ['bytes'] + [['int', x] for x in v]
    if isinstance(v, (list, tuple)):
        return ['seq'] + [enc(x) for x in v]
    if isinstance(v, BaseException):
        return exc(v)
    if isinstance(v, Raw):
        return v.v
    return ['obj', type(v).__name__]


class Raw:
    """an already encoded answer"""

    def __init__(self, *v):
        self.v = list(v)


def exc(e, known=()):
    for k in known:
        if isinstance(e, k):
            return ['exc', k.__name__]
    return ['exc', type(e).__name__]


def call(fn, *a, known=(), **k):
    """the encoded answer of a call"""
    try:
        return enc(fn(*a, **k))
    except detsched.SchedAbort:
        raise
    except BaseException as e:  # noqa
        return exc(e, known)


FOREVER = 10 ** 9


def now_ms():
    """the virtual clock, in ms since the start of the execution"""
    return int(round((detsched._v_clock() - detsched.BASE_TIME) * 1000))


class Hang(BaseException):
    pass


class VSched(Sched):
    """Sched with a watchdog in real time: code that never reaches a cooperative point is interrupted"""
    REAL_LIMIT = 20

    def run(self, main):
        self.hung = False
        return super().run(main)


def _async_raise(ident, exc_type):
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(exc_type))


class EnoughHangs(BaseException):
    """each one takes long: what has been seen is enough"""


class Worker:
    hangs = 0

    def __init__(self, prop, part, tier, seed, shard, nshards, seqfile, out):
        self.prop, self.part, self.tier, self.seed, self.shard, self.nshards = prop, part, tier, seed, shard, nshards
        import importlib
        self.f = open(out, 'w')
        self.rng = random.Random('%s/%s/%d/%d' % (prop, part, seed, shard))
        self.seqs = []
        self.count = 0
        self.executions = 0
        self.info = {}
        self.seen = set()
        if seqfile != '-':
            with open(seqfile) as f:
                self.seqs = json.load(f)[shard::nshards]
        import sys
        sys.path.insert(0, '/verif')
        self._partobj = None

    def quick(self):
        return self.tier == 'quick'

    def n(self, q, t):
        """this shard's share of a total amount of work"""
        v = q if self.quick() else t
        return max(1, v // self.nshards)

    def emit(self, cfg, ev, n=None, meta=None):
        t = {'cfg': cfg, 'ev': ev}
        if n is not None:
            t['n'] = n
        h = json.dumps(t, sort_keys=True)
        self.executions += 1
        if h in self.seen:
            return
        self.seen.add(h)
        if meta is not None:
            t['meta'] = meta
        self.f.write(json.dumps(t) + '\n')
        self.count += 1
        if self.hangs >= 3:
            raise EnoughHangs()

    def add(self, k, v=1):
        self.info[k] = self.info.get(k, 0) + v

    def boom(self, text):
        self.f.write(json.dumps({'boom': text}) + '\n')

    def close(self):
        self.f.write(json.dumps({'done': True, 'executions': self.executions, 'info': self.info}) + '\n')
        self.f.flush()
        self.f.close()

    # -------------------------------------------------------------- controlled execution
    def execute(self, main, strategy=None, trace=False, **kw):
        """run main() as the first controlled thread; returns (outcome, sched)"""
        s = Sched(strategy, trace=trace, **kw)
        wd = _Watchdog(s)
        try:
            o = s.run(main)
        finally:
            wd.stop()
        if wd.fired:
            o = 'hang'
            self.hangs += 1
        return o, s

    def seq(self, cfg, ops, adapter, meta=None, clock=False):
        """drive adapter(cfg) through ops [{'op','a'}..] in one controlled thread, record the answers"""
        ev = []
        cur = [None]

        def main():
            try:
                ad = adapter(copy.deepcopy(cfg))  # the code under test cannot spoil what is recorded
            except detsched.SchedAbort:
                raise
            except Hang:
                raise
            except Exception as e:  # noqa
                ev.append(dict(op='create', a=[], r=exc(e)))
                return
            for o in ops:
                e = dict(o)
                cur[0] = e
                if clock:
                    e['c'] = now_ms()
                a = copy.deepcopy(e.get('a', []))
                try:
                    r = getattr(ad, 'op_' + e['op'])(*a)
                    r = enc(r)
                except (detsched.SchedAbort, Hang):
                    raise
                except BaseException as x:  # noqa
                    r = exc(x, getattr(ad, 'known', ()))
                e['r'] = r
                if clock:
                    e['rc'] = now_ms()
                ev.append(e)
                cur[0] = None
            fin = getattr(ad, 'finish', None)
            if fin:
                fin()

        o, s = self.execute(main, max_points=500000)
        if o != 'ok' or s.main_exc is not None:
            if cur[0] is not None:
                e = dict(cur[0])
                e['r'] = ['stuck'] if o == 'stuck' else [o]
                if clock:
                    e['rc'] = FOREVER
                ev.append(e)
            elif s.main_exc is not None:
                raise s.main_exc
        self.emit(cfg, ev, meta=meta)
        return ev

    def replay_spec(self, adapter, cfgs, final=(), clock=False):
        """replay the behaviours derived from the design model"""
        for k, q in self.seqs:
            self.seq(cfgs[k - 1], q + list(final), adapter, clock=clock)
            self.add('spec_behaviours_replayed')

    def lin(self, cfg, prog, make, trace=True, bound=1, budget=None, rnd=None, setup=(), final=(), seed=None, max_points=20000,
            time_limit=None, padv=0.02, max_clock=5000, clock=False):
        """
        explore the interleavings of prog = [[op, ..] per thread]; make(cfg) -> adapter with op_<name>(*a).
        thread ids in the history: 1 = main (setup and final operations), 2.. = program threads.
        """
        budget = budget or (150 if self.quick() else 3000)
        rnd = (60 if self.quick() else 1500) if rnd is None else rnd
        state = {}

        def run(strategy):
            hist = []
            state['hist'] = hist

            def do(ad, t, o):
                hist.append(dict(o, k='inv', t=t))
                pos = len(hist) - 1
                if clock:
                    hist[pos]['c'] = now_ms()
                    hist[pos]['rc'] = FOREVER
                try:
                    r = enc(getattr(ad, 'op_' + o['op'])(*copy.deepcopy(o.get('a', []))))
                except (detsched.SchedAbort, Hang):
                    raise
                except BaseException as x:  # noqa
                    r = exc(x, getattr(ad, 'known', ()))
                hist[pos]['r'] = r
                if clock:
                    hist[pos]['rc'] = now_ms()
                hist.append(dict(k='ret', t=t, op=o['op']))

            def main():
                with detsched.quiet():
                    ad = make(copy.deepcopy(cfg))
                    for o in setup:
                        do(ad, 1, o)
                ths = []
                gate = detsched.CoopLock()  # nobody starts before everybody has been started
                for n, ops in enumerate(prog):
                    def body(n=n, ops=ops):
                        with detsched.quiet():
                            gate.acquire()
                            gate.release()
                        for o in ops:
                            do(ad, n + 2, o)
                    ths.append(threading.Thread(target=body, daemon=True))
                with detsched.quiet():
                    gate.acquire()
                    for th in ths:
                        th.start()
                gate.release()
                for th in ths:
                    th.join()
                with detsched.quiet():
                    for o in final:
                        do(ad, 1, o)
                    fin = getattr(ad, 'finish', None)
                    if fin:
                        fin()

            o, s = self.execute(main, strategy, trace=trace, max_points=max_points, max_clock=max_clock)
            if s.main_exc is not None:
                raise s.main_exc
            h = list(hist)
            for e in h:
                if e['k'] == 'inv' and 'r' not in e:
                    e['r'] = ['pending']
            h.append({'k': 'end' if o == 'ok' else ('stuck' if o == 'stuck' else o)})
            return h

        n = 0
        for st, h in explore(run, bound=bound, budget=budget, rnd=rnd, seed=(seed or self.seed) * 31 + self.shard,
                             time_limit=time_limit, padv=padv, trace=trace):
            self.emit(cfg, h, n=len(prog) + 1, meta={'schedule': repr(st)[:300]})
            n += 1
        self.add('schedules', n)


    def events(self, cfg, scenario, trace=True, bound=1, budget=None, rnd=None, max_points=40000, padv=0.0, max_clock=None, tick0=0.0, seed=None,
               time_limit=None):
        """
        explore the schedules of scenario(log): it appends the observed events (ev()) to log in the order in which they happen;
        the log, as it is when the execution ends, is validated like a sequential trace
        """
        budget = (150 if self.quick() else 3000) if budget is None else budget
        rnd = (60 if self.quick() else 1500) if rnd is None else rnd

        def run(strategy):
            log = Log()
            o, s = self.execute(lambda: scenario(log), strategy, trace=trace, max_points=max_points, max_clock=max_clock, tick0=tick0)
            log = list(log)
            if s.main_exc is not None:
                if not from_repo(s.main_exc):
                    raise s.main_exc
                # the code under test raised where the scenario does not expect it
                log.append(dict(op='raised', a=[type(s.main_exc).__name__], c=int(round((s.clock - detsched.BASE_TIME) * 1000)), r=['none']))
            elif o != 'ok':
                log.append(dict(op=o, a=[], c=int(round((s.clock - detsched.BASE_TIME) * 1000)), r=['none']))
            return log

        n = 0
        for st, log in explore(run, bound=bound, budget=budget, rnd=rnd, seed=(seed or self.seed) * 31 + self.shard,
                               time_limit=time_limit, padv=padv, trace=trace):
            self.emit(cfg, log, meta={'schedule': repr(st)[:300]})
            n += 1
        self.add('schedules', n)


def from_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(detsched.TRACE_DIRS):
            return True
        tb = tb.tb_next
    return False


class Log(list):
    """ignores what the unwinding of an aborted execution does"""

    def append(self, e):
        s = detsched.CUR
        if s is not None and not s.aborting and not s.ended:
            super().append(e)


def ev(op, *a, r=None):
    """an observed event, stamped with the virtual clock"""
    return dict(op=op, a=list(a), c=now_ms(), r=enc(r))


class _Watchdog:
    """interrupts code under test that spins without ever reaching a cooperative point"""

    def __init__(self, s, limit=25):
        self.s = s
        self.fired = False
        self.done = False
        self.limit = limit
        _WD.watch(self)

    def stop(self):
        self.done = True
        _WD.cur = None

    def fire(self):
        self.fired = True
        for t in self.s.threads:
            if t.status == 'ready' and t.ident is not None:
                _async_raise(t.ident, Hang)
        self.s._end('hang')


class _WDThread:
    def __init__(self):
        self.cur = None
        self.since = 0
        self.started = False

    def watch(self, wd):
        self.cur = wd
        self.since = _real_monotonic()
        if not self.started:
            self.started = True
            detsched._real_start(self.loop, ())

    def loop(self):
        while True:
            detsched._real_sleep(1)
            c = self.cur
            if c is not None and not c.done and _real_monotonic() - self.since > c.limit:
                c.fire()
                self.cur = None


_WD = _WDThread()


class Lane:
    """a thread doing what it is told"""

    def __init__(self):
        import queue
        self.q, self.out = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.out.put((True, f()))
            except Exception as e:
                self.out.put((False, e))

    def __call__(self, f):
        self.q.put(f)
        ok, v = self.out.get()
        if not ok:
            raise v
        return v

    def close(self):
        self.q.put(None)
        self.t.join()
