"""
detsched - a deterministic cooperative scheduler for real Python threads.

install() replaces the primitives of `threading`, `queue` and `time` by cooperative versions before
the code under test is imported.  Inside `Sched(...).run(main)` exactly one controlled thread runs at
a time; control moves only at cooperative points (lock operations, sleeps, thread ends and - when
tracing is on - before every opcode in the code under test that can touch shared state).  Which thread
runs next is decided by a strategy, so an execution is a pure function of its decisions.  Time is
virtual: it advances to the earliest deadline when no thread can run (or, if the strategy asks for it,
earlier).  No thread runnable and no deadline pending = the execution is `stuck`.

Nothing here reads the source text of the code under test.
"""
import _thread
import dis
import gc
import os
import random
import sys
import threading
import time

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_time = time.time

CUR = None  # type: Sched
_by_ident = {}
_installed = False
BASE_TIME = 1000  # virtual clock starts here (seconds)
_free_clock = [float(BASE_TIME)]  # clock outside of an execution


class SchedAbort(BaseException):
    pass


class TS:
    __slots__ = ('id', 'baton', 'status', 'deadline', 'on', 'sentinel', 'aborts', 'dead', 'ident', 'fn',
                 'timed_out', 'run_len', 'tag', 'nopreempt')

    def __init__(self, id_):
        self.id = id_
        self.baton = _real_alloc()
        self.baton.acquire()
        self.status = 'ready'
        self.deadline = None
        self.on = None
        self.sentinel = None
        self.aborts = 0
        self.dead = _real_alloc()
        self.dead.acquire()
        self.ident = None
        self.timed_out = False
        self.run_len = 0
        self.tag = None
        self.nopreempt = False


def _me():
    s = CUR
    if s is None:
        return None, None
    return s, _by_ident.get(_real_ident())


class CoopLock:
    """cooperative replacement of _thread.lock"""
    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s, me = _me()
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is None:
            raise TypeError('timeout must be a number')
        if timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        if me is None:
            if not self._locked:
                self._locked = True
                return True
            if not blocking or timeout >= 0:
                if timeout > 0:
                    _free_clock[0] += timeout
                return False
            raise RuntimeError('detsched: blocking acquire of a held lock outside of an execution')
        s.check_abort(me)
        s.point(me)
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout < 0 else s.clock + timeout
        while self._locked:
            if deadline is not None and s.clock >= deadline:
                return False
            self._waiters.append(me)
            s.block(me, self, deadline)
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        s, me = _me()
        if not self._locked:
            if s is not None and me is not None and s.aborting:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if self._waiters:
            w, self._waiters = self._waiters, []
            for t in w:
                if t.status == 'blocked' and t.on is self:
                    t.status = 'ready'
                    t.on = None
        if me is not None and not s.aborting:
            s.point(me)

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return '<%s CoopLock>' % ('locked' if self._locked else 'unlocked')


SLEEP_HOOK = None  # called with how long; gives for how long to sleep instead and the exception to raise then, if any
TICK = 0.0         # how much time passes between two readings of the clock


def _v_sleep(d):
    hook = SLEEP_HOOK
    if hook is not None and d >= 0:
        part, exc = hook(d)
        _v_sleep_for(part)
        if exc is not None:
            raise exc
        return
    _v_sleep_for(d)


def _v_sleep_for(d):
    s, me = _me()
    if d < 0:
        raise ValueError('sleep length must be non-negative')
    if me is None:
        _free_clock[0] += d
        if s is not None:
            s.clock += d
        return
    s.check_abort(me)
    s.point(me)
    if d == 0:
        s.clock += s.tick0
        return
    deadline = s.clock + d
    while s.clock < deadline:
        s.block(me, None, deadline)


def _v_clock():
    s = CUR
    if TICK and s is not None:
        s.clock += TICK
    return float(s.clock) if s is not None else _free_clock[0]


def _v_time():
    return _v_clock() + 500000.0


def _v_time_ns():
    return int(_v_time() * 1e9)


def _v_monotonic_ns():
    return int(_v_clock() * 1e9)


def _v_start(fn, args, kwargs=None):
    s, me = _me()
    if me is None:
        if s is not None and s.aborting:
            raise SchedAbort()
        raise RuntimeError('detsched: thread start outside of an execution')
    t = s.spawn(lambda: fn(*args, **(kwargs or {})))
    s.point(me)
    return t.ident


def _v_set_sentinel():
    s, me = _me()
    lock = CoopLock()
    if me is not None:
        me.sentinel = lock
    return lock


def install():
    """patch; call before importing the code under test (and before queue / concurrent.futures)"""
    global _installed
    if _installed:
        return
    _installed = True
    _thread.stack_size(4 * 1024 * 1024) if hasattr(_thread, 'stack_size') else None
    threading._start_new_thread = _v_start
    threading._allocate_lock = CoopLock
    threading.Lock = CoopLock
    threading._CRLock = None
    threading.RLock = lambda *a, **k: threading._PyRLock(*a, **k)
    threading._set_sentinel = _v_set_sentinel
    _thread.allocate_lock = CoopLock
    _thread.RLock = threading._PyRLock
    _thread.start_new_thread = _v_start
    time.sleep = _v_sleep
    time.monotonic = _v_clock
    time.time = _v_time
    time.perf_counter = _v_clock
    time.time_ns = _v_time_ns
    time.monotonic_ns = _v_monotonic_ns
    threading._time = _v_clock
    threading.excepthook = lambda args: None
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _v_clock
    import concurrent.futures  # noqa
    import concurrent.futures.thread  # noqa
    import concurrent.futures._base as b
    b.time = time


# ------------------------------------------------------------------ preemption points by opcode
TRACE_DIRS = ()
_ops = {'LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'CALL',
        'CALL_FUNCTION_EX', 'STORE_GLOBAL', 'LOAD_GLOBAL', 'STORE_DEREF', 'FOR_ITER', 'BINARY_OP', 'COMPARE_OP',
        'CONTAINS_OP', 'BEFORE_WITH', 'LOAD_DEREF', 'SEND', 'UNPACK_SEQUENCE', 'LOAD_SUPER_ATTR'}
_opsnums = {dis.opmap[o] for o in _ops if o in dis.opmap}
_code_cache = {}
_SKIP_NAMES = {'<module>'}


def _interesting(code):
    r = _code_cache.get(code)
    if r is None:
        fn = code.co_filename
        if code.co_name in _SKIP_NAMES or not fn.startswith(TRACE_DIRS):
            r = False
        else:
            r = frozenset(i.offset for i in dis.get_instructions(code) if i.opcode in _opsnums)
        _code_cache[code] = r
    return r


def _tracer(frame, event, arg):
    r = _interesting(frame.f_code)
    if r is False:
        return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    s = CUR
    me = _by_ident.get(_real_ident())

    def local(frame, event, arg):
        if event == 'opcode' and frame.f_lasti in r and not s.aborting and me is not None and not me.nopreempt:
            try:
                s.point(me)
            except BaseException:
                # an exception ends the tracing of this thread; CPython 3.12 would then call a null pointer for the frames still traced by opcode
                f = frame
                while f is not None:
                    if f.f_trace_opcodes:
                        f.f_trace_opcodes = False
                    f = f.f_back
                raise
        return local

    return local


# ------------------------------------------------------------------ strategies
class Default:
    """run the current thread as long as it can run; `dev` = {decision index: thread id} deviations"""
    advance = False

    def __init__(self, dev=()):
        self.dev = dict(dev)
        self.log = []  # (index, tuple(options), chosen, preemptive)

    def pick(self, s, me, ready, preempt):
        n = len(self.log)
        want = self.dev.get(n)
        ids = [t.id for t in ready]
        if want is not None and want in ids:
            c = ids.index(want)
        elif preempt and me in ready and me.run_len < s.fair:
            c = ready.index(me)
        elif preempt and me in ready:
            c = (ready.index(me) + 1) % len(ready)
        else:
            c = 0
        self.log.append((tuple(ids), ids[c], preempt))
        return ready[c]


class Rand:
    def __init__(self, seed, p=0.1, padv=0.0):
        self.r = random.Random(seed)
        self.p = p
        self.padv = padv
        self.advance = padv > 0
        self.log = None

    def want_advance(self):
        return self.r.random() < self.padv

    def pick(self, s, me, ready, preempt):
        if preempt:
            if self.r.random() >= self.p and me.run_len < s.fair:
                return me
            if len(ready) > 1:
                o = [t for t in ready if t is not me]
                return o[self.r.randrange(len(o))]
            return me
        return ready[self.r.randrange(len(ready))]


class PCT:
    """priority based: k priority change points spread over an estimated run length"""
    advance = False

    def __init__(self, seed, k, length):
        self.r = random.Random(seed)
        self.n = 0
        self.prio = {}
        self.change = set(self.r.randrange(max(1, length)) for _ in range(k))
        self.low = 0
        self.log = None

    def pick(self, s, me, ready, preempt):
        for t in ready:
            if t.id not in self.prio:
                self.prio[t.id] = self.r.random() + 1
        if preempt:
            if self.n in self.change or me.run_len >= s.fair:
                self.low -= 1
                self.prio[me.id] = self.low
        self.n += 1
        return max(ready, key=lambda t: self.prio[t.id])


class Sched:
    def __init__(self, strategy=None, trace=False, max_points=60000, max_clock=None, fair=3000, tick0=0.0):
        self.strategy = strategy or Default()
        self.trace = trace
        self.threads = []
        self.clock = float(BASE_TIME)
        self.points = 0
        self.max_points = max_points
        self.max_clock = None if max_clock is None else BASE_TIME + max_clock
        self.fair = fair
        self.tick0 = tick0  # how long a sleep(0) takes
        self.aborting = False
        self.ended = False
        self.outcome = None  # 'ok' | 'stuck' | 'limit'
        self.end_lock = _real_alloc()
        self.stuck_ids = []
        self.main_exc = None
        self.switches = 0

    # -- called by controlled threads
    def check_abort(self, me):
        if self.aborting:
            me.aborts += 1
            if me.aborts > 200:
                me.dead.release()
                _real_alloc_forever()
            raise SchedAbort()

    def spawn(self, fn, tag=None):
        t = TS(len(self.threads))
        t.tag = tag
        self.threads.append(t)
        started = _real_alloc()
        started.acquire()

        def boot():
            t.ident = _real_ident()
            _by_ident[t.ident] = t
            started.release()
            t.baton.acquire()
            try:
                if not self.aborting:
                    if self.trace:
                        sys.settrace(_tracer)
                    fn()
            except SchedAbort:
                pass
            except BaseException as e:  # noqa
                if t.id == 0 and not self.aborting and not self.ended:
                    self.main_exc = e
            finally:
                sys.settrace(None)
                self._finish(t)

        _real_start(boot, ())
        started.acquire()
        return t

    def _finish(self, t):
        t.status = 'done'
        if t.sentinel is not None:
            st, t.sentinel = t.sentinel, None
            st._locked = False
            for w in st._waiters:
                if w.status == 'blocked' and w.on is st:
                    w.status = 'ready'
                    w.on = None
            st._waiters = []
        if self.aborting:
            _by_ident.pop(t.ident, None)
            t.dead.release()
            return
        _by_ident.pop(t.ident, None)
        t.dead.release()
        if t.id == 0:
            self._end('ok')
            return
        nxt = self._choose(t, False)
        if nxt is not None:
            self._hand(nxt)

    def _end(self, outcome):
        if not self.ended:
            self.ended = True
            self.outcome = outcome
            self.end_lock.release()

    def point(self, me):
        """possible preemption"""
        if self.aborting or self.ended:
            self.check_abort(me)
            return
        if me.nopreempt:
            return
        self.points += 1
        if self.points > self.max_points:
            self._end('limit')
            self._park(me)
            return
        st = self.strategy
        if st.advance and st.want_advance():
            self._advance()
        ready = [t for t in self.threads if t.status == 'ready']
        if len(ready) == 1 and ready[0] is me:
            return
        nxt = st.pick(self, me, ready, True)
        if nxt is me:
            me.run_len += 1
            return
        me.run_len = 0
        self._hand(nxt)
        self._park(me)

    def _advance(self):
        ds = [t.deadline for t in self.threads if t.status == 'blocked' and t.deadline is not None]
        if not ds:
            return False
        d = min(ds)
        if d > self.clock:
            self.clock = d
        if self.max_clock is not None and self.clock > self.max_clock:
            return False
        for t in self.threads:
            if t.status == 'blocked' and t.deadline is not None and t.deadline <= self.clock:
                t.status = 'ready'
                t.deadline = None
                if t.on is not None:
                    try:
                        t.on._waiters.remove(t)
                    except ValueError:
                        pass
                    t.on = None
        return True

    def _choose(self, me, preempt):
        ready = [t for t in self.threads if t.status == 'ready']
        while not ready:
            if not self._advance():
                self.stuck_ids = [t.id for t in self.threads if t.status == 'blocked']
                limit = self.max_clock is not None and self.clock > self.max_clock
                self._end('limit' if limit else 'stuck')
                return None
            ready = [t for t in self.threads if t.status == 'ready']
        if len(ready) == 1:
            return ready[0]
        return self.strategy.pick(self, me, ready, preempt)

    def _hand(self, t):
        self.switches += 1
        t.baton.release()

    def _park(self, me):
        me.baton.acquire()
        self.check_abort(me)

    def block(self, me, on, deadline):
        if self.aborting or self.ended:
            self.check_abort(me)
        me.status = 'blocked'
        me.on = on
        me.deadline = deadline
        me.run_len = 0
        nxt = self._choose(me, False)
        if nxt is me:
            me.deadline = None
            return
        if nxt is not None:
            self._hand(nxt)
        self._park(me)
        me.deadline = None

    def advance_to(self, t):
        """set the clock (only meaningful from a controlled thread that is alone)"""
        self.clock = float(t)

    # -- called from outside
    def run(self, main):
        global CUR
        assert CUR is None
        gc_was = gc.isenabled()
        gc.disable()
        CUR = self
        try:
            self.end_lock.acquire()
            t0 = self.spawn(main)
            t0.baton.release()
            self.end_lock.acquire()
            # let the finishing thread get out of the way, then abort the rest
            self.aborting = True
            for t in self.threads:
                if t.status != 'done':
                    t.baton.release()
                if not t.dead.acquire(True, 5):
                    pass
        finally:
            CUR = None
            _free_clock[0] = max(_free_clock[0], self.clock)
            if gc_was:
                gc.enable()
        return self.outcome


def _real_alloc_forever():
    l = _real_alloc()
    l.acquire()
    l.acquire()


class quiet:
    """no preemption inside: for harness bookkeeping"""

    def __enter__(self):
        s, me = _me()
        self.me = me
        if me is not None:
            self.old = me.nopreempt
            me.nopreempt = True

    def __exit__(self, *a):
        if self.me is not None:
            self.me.nopreempt = self.old


# ------------------------------------------------------------------ exploration
def explore(make_run, bound=1, budget=500, rnd=100, seed=1, time_limit=None, padv=0.02, pct=True, trace=True):
    """
    make_run(strategy) -> history (hashable/serialisable), runs one execution.
    First: bounded-preemption DFS (all schedules with <= bound preemptions, sampled when above the budget),
    then `rnd` random/PCT schedules.  Yields (strategy description, history).
    """
    t0 = _real_monotonic()
    rng = random.Random(seed)
    seen = set()
    n = 0
    frontier = [((), 0)]
    level = 0
    est = 100

    def over():
        return time_limit is not None and _real_monotonic() - t0 > time_limit

    while frontier and n < budget and not over():
        nxt = []
        if len(frontier) > budget - n:
            rng.shuffle(frontier)
        for dev, pre in frontier:
            if n >= budget or over():
                break
            st = Default(dev)
            h = make_run(st)
            n += 1
            yield ('dfs', dev), h
            if len(st.log) > est:
                est = len(st.log)
            last = max((d[0] for d in dev), default=-1)
            for i in range(last + 1, len(st.log)):
                ids, chosen, preempt = st.log[i]
                if preempt and pre >= bound:
                    continue
                if not preempt and len(dev) >= bound + 2:
                    continue
                for o in ids:
                    if o != chosen:
                        d2 = dev + ((i, o),)
                        if d2 not in seen:
                            seen.add(d2)
                            nxt.append((d2, pre + (1 if preempt else 0)))
        frontier = nxt
        level += 1
    for k in range(rnd):
        if over():
            break
        if pct and k % 3 == 0:
            st = PCT(seed * 100003 + k, 1 + k % 4, est * 2)
        else:
            st = Rand(seed * 100003 + k, p=(0.02, 0.1, 0.3)[k % 3], padv=padv if k % 2 else 0.0)
        yield ('rnd', k), make_run(st)
