import threading
import time

from vt import Part

PARTS = [
    Part('life', 'Threads', 'T', depth=(9, 12), shards=(3, 8), max_paths=(1500, 12000)),
    Part('single', 'Threads', 'U', mode='lin', depth=(3, 4), replay=False, shards=(1, 2)),
    Part('bogus', 'Threads', 'B', depth=(4, 6), shards=(1, 1)),
    Part('bogusc', 'Threads', 'B', mode='lin', design=False, shards=(1, 1)),
    Part('cond', 'Threads', 'C', design=False, shards=(1, 4)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class SubError(ValueError):
    pass


RAISE = dict(exit=SystemExit, ve=ValueError, sub=SubError, ke=KeyError)


def thread_scenario(cfg, sc):
    """sc: prep=(dur, out), loops=[dict(dur, out, term, sleep, wait)], over=dur, acts=[(at ms, what)], ctx, twice"""
    from drive import ev, enc, exc
    from satella.coding.concurrent import TerminableThread, IntervalTerminableThread, Condition
    from satella.exceptions import WouldWaitMore

    def scenario(log):
        def note(*a, **k):
            log.append(ev(*a, **k))
        base = IntervalTerminableThread if cfg['iv'] >= 0 else TerminableThread
        cond = Condition()

        def hook(args):
            log.append(ev('crash', args.exc_type.__name__))
        old = threading.excepthook
        threading.excepthook = hook

        def terminate(t):
            note('term_b')
            r = t.terminate()
            note('term_e', r=None if r is t else 'other')

        class T(base):
            n = 0

            def prepare(self):
                note('prep_b')
                d, o = sc['prep']
                if d:
                    time.sleep(d / 1000)
                note('prep_e', o)
                if o != 'ok':
                    raise RAISE[o]()

            def loop(self):
                note('loop_b')
                l = sc['loops'][self.n] if self.n < len(sc['loops']) else dict(dur=500, out='ok')
                self.n += 1
                out = l['out']
                if l['dur']:
                    time.sleep(l['dur'] / 1000)
                if l.get('sleep'):
                    i, w = l['sleep']
                    t0 = ev('x')['c']
                    try:
                        if l.get('kw'):
                            self.safe_sleep(i / 1000, wake_up_each=w / 1000)
                        else:
                            w = 2000
                            self.safe_sleep(i / 1000)
                        r = None
                    except SystemExit:
                        r = SystemExit()
                        out = 'exit'
                    note('slept', i, w, t0, r=r)
                if l.get('wait'):
                    i, w, dr = l['wait']
                    t0 = ev('x')['c']
                    try:
                        self.safe_wait_condition(cond, i / 1000 if i % 1000 else '%ss' % (i // 1000), w / 1000, dont_raise=dr)
                        r = None
                    except SystemExit as e:
                        r = e
                        out = 'exit'
                    except WouldWaitMore as e:
                        r = e
                    note('waited', i, w, t0, dr, r=r)
                if l.get('term'):
                    terminate(self)
                note('loop_e', out)
                if out != 'ok':
                    raise RAISE[out]()

            def on_overrun(self, taken):
                note('over_b', int(round(taken * 1000)))
                if sc.get('over'):
                    time.sleep(sc['over'] / 1000)
                note('over_e')

            def cleanup(self):
                note('clean')

        kw = dict(terminate_on=sc.get('on', ValueError)) if cfg['on'] else {}
        iv = cfg['iv']
        args = ((iv / 1000 if iv % 1000 else '%ss' % (iv // 1000)),) if iv >= 0 else ()
        t = T(*args, daemon=True, **kw)
        t0 = time.monotonic()
        note('alive', r=t.is_alive())
        if sc.get('before'):
            terminate(t)

        def until(ms):
            d = t0 + ms / 1000 - time.monotonic()
            if d > 0:
                time.sleep(d)
        try:
            if 'ctx' in sc:
                # the context starts the thread, leaving it terminates and joins it
                note('start')
                try:
                    with t as tt:
                        assert tt is t
                        until(sc['ctx'])
                        note('term_b')
                        if sc.get('ctxraise'):
                            raise LookupError()
                except LookupError:
                    if not sc.get('ctxraise'):
                        raise
                else:
                    if sc.get('ctxraise'):
                        note('swallowed')
                note('ended')
            else:
                try:
                    log.append(None)
                    k = len(log) - 1
                    log[k] = ev('start')
                    r = t.start()
                    if r is not t:
                        log[k]['r'] = ['other']
                except RuntimeError as e:
                    log[k]['r'] = exc(e)
                for at, what in sc['acts']:
                    until(at)
                    if what == 'term':
                        terminate(t)
                    elif what == 'alive':
                        note('alive', r=t.is_alive())
                    elif what == 'notify':
                        note('notify')
                        cond.notify_all()
                    elif what == 'start':
                        try:
                            t.start()
                            note('start')
                        except RuntimeError as e:
                            note('start', r=e)
                t.join()
                note('ended')
            note('alive', r=t.is_alive())
            note('terminating', r=t.terminating)
        finally:
            threading.excepthook = old
    return scenario


def from_path(q):
    """the environment's choices in a behaviour of the specification"""
    sc = dict(prep=(0, 'ok'), loops=[], acts=[])
    b = 0
    started = False
    first = None
    for e in q:
        o, c = e['op'], e['c']
        if o == 'start':
            started = True
        elif o in ('prep_b', 'loop_b', 'over_b'):
            b = c
        elif o == 'prep_e':
            sc['prep'] = (c - b, e['a'][0])
        elif o == 'loop_e':
            sc['loops'].append(dict(dur=c - b, out=e['a'][0]))
        elif o == 'term_b':
            if not started:
                sc['before'] = True
            else:
                first = c
    for l in sc['loops']:
        if not l['dur'] and l['out'] == 'ok':
            l['dur'] = 0
    if first is not None or all(o == 'ok' for o in [sc['prep'][1]] + [l['out'] for l in sc['loops']]):
        sc['acts'] = [(first if first is not None else 4000, 'term')]
    return sc


TC = [dict(iv=-1, on=True), dict(iv=1000, on=True), dict(iv=-1, on=False), dict(iv=1000, on=False)]


def gen_life(w):
    r = w.rng
    done = set()
    for k, q in w.seqs:
        sc = from_path(q)
        key = (k, repr(sc))
        if key in done:
            continue
        done.add(key)
        w.events(TC[k - 1], thread_scenario(TC[k - 1], sc), bound=0, budget=1, rnd=1, max_clock=60)
        w.add('spec_behaviours_replayed')
    fixed = [dict(prep=(0, 'ok'), loops=[dict(dur=0, out='ok')] * 3, acts=[(0, 'term')]),
             dict(prep=(500, 'ok'), loops=[], acts=[(0, 'term')]),
             dict(prep=(0, 've'), loops=[], acts=[(0, 'term')]),
             dict(prep=(0, 'ok'), loops=[dict(dur=0, out='ok'), dict(dur=0, out='ok', term=True)], acts=[(9000, 'alive'), (9000, 'start')]),
             dict(prep=(0, 'ok'), loops=[dict(dur=0, out='ok', sleep=(1000, 2000))] * 2, acts=[(500, 'term')], ),
             dict(prep=(0, 'ok'), loops=[dict(dur=0, out='ok')], acts=[(0, 'start'), (500, 'term')])]
    for k, sc in enumerate(fixed):
        for c in TC:
            if (k % w.nshards) == w.shard or not w.quick():
                w.events(c, thread_scenario(c, sc), bound=2, budget=60 if w.quick() else 1500, rnd=20 if w.quick() else 300, max_clock=60)
    for _ in range(w.n(120, 2000)):
        cfg = dict(iv=r.choice([-1, -1, 500, 1000, 3000, 5000]), on=r.random() < 0.6)
        sc = dict(prep=(r.choice([0, 0, 500, 2500]), r.choice(['ok'] * 6 + ['ve', 'sub', 'exit', 'ke'])), loops=[], over=r.choice([0, 0, 250]),
                  acts=[], before=r.random() < 0.05)
        if cfg['on'] and r.random() < 0.3:
            sc['on'] = (OSError, ValueError)
        for _ in range(r.randint(0, 6)):
            l = dict(dur=r.choice([0, 250, 500, 1000, 2500, 3250]), out=r.choice(['ok'] * 12 + ['ve', 'sub', 'exit', 'ke']), term=r.random() < 0.05)
            x = r.random()
            if x < 0.25:
                l['sleep'] = (r.choice([-500, 0, 250, 1500, 3000, 7000]), r.choice([250, 1000, 2000]))
                l['kw'] = r.random() < 0.6
            elif x < 0.5:
                l['wait'] = (r.choice([0, 250, 1500, 3000, 6000]), r.choice([250, 1000, 2000]), r.random() < 0.5)
            if not l['dur'] and x >= 0.5 and r.random() < 0.8:
                l['dur'] = 250
            sc['loops'].append(l)
        if r.random() < 0.15 and not sc['before']:
            sc['ctx'] = r.choice([0, 250, 1100, 4100])
            sc['ctxraise'] = r.random() < 0.5
        else:
            at = 0
            for _ in range(r.randint(0, 3)):
                at += r.choice([0, 250, 300, 600, 1100, 2600])
                sc['acts'].append((at, r.choice(['alive', 'notify', 'notify', 'term'])))
            at += r.choice([0, 250, 300, 1100, 4100, 9300])
            # some threads end on their own
            if not any(o['out'] != 'ok' for o in sc['loops']) or r.random() < 0.5:
                sc['acts'].append((at, 'term'))
            if r.random() < 0.2:
                sc['acts'].append((at + 30000, 'start'))
                sc['acts'].append((at + 30000, 'alive'))
        w.events(cfg, thread_scenario(cfg, sc), bound=1, budget=4 if w.quick() else 40, rnd=4 if w.quick() else 40, max_clock=200, trace=r.random() < 0.5)


class Single:
    known = (RuntimeError,)

    def __init__(self, cfg):
        from satella.coding.concurrent import SingleStartThread
        self.n = 0
        self.t = SingleStartThread(target=self.f, daemon=True)

    def f(self):
        self.n += 1

    def op_start(self):
        return 'self' if self.t.start() is self.t else 'other'

    def op_runs(self):
        time.sleep(1)
        return self.n


def gen_single(w):
    for p in ([['start'], ['start']], [['start', 'start'], ['start']], [['start'], ['start'], ['start']]):
        w.lin(dict(z=0), [[O(x) for x in q] for q in p], Single, final=[O('runs')], bound=2, rnd=40)


class Bogus:
    def __init__(self, cfg):
        from satella.coding.concurrent import BogusTerminableThread
        self.t = BogusTerminableThread()

    def op_start(self):
        self.t.start()

    def op_terminate(self):
        self.t.terminate()

    def op_alive(self):
        return self.t.is_alive()

    def op_join(self, t):
        return self.t.join() if t < 0 else self.t.join(t / 1000)

    def op_sleep(self, t):
        time.sleep(t / 1000)


def gen_bogus(w):
    w.replay_spec(Bogus, [dict(z=0)], [O('alive'), O('terminate'), O('join', -1), O('alive')])


def gen_bogusc(w):
    for p in ([[O('join', -1)], [O('sleep', 1500), O('terminate')]], [[O('join', 5000)], [O('sleep', 1500), O('terminate')]],
              [[O('join', 1000)], [O('sleep', 3500), O('terminate')]], [[O('join', -1)], [O('join', 2500)], [O('sleep', 1500), O('terminate')]]):
        s = [O('start')] if p[0][0]['op'] == 'join' else []
        w.lin(dict(z=0), p, Bogus, setup=s, final=[O('alive'), O('terminate'), O('join', -1)], clock=True, padv=0, bound=1, budget=20, rnd=10)


def cond_scenario(prog):
    from drive import ev
    from satella.coding.concurrent import Condition
    from satella.exceptions import WouldWaitMore, ResourceLocked

    def scenario(log):
        c = Condition()

        def body(i, acts):
            t0 = time.monotonic()
            for a in acts:
                k = a[0]
                if k == 'at':
                    time.sleep(max(0, t0 + a[1] / 1000 - time.monotonic()))
                elif k == 'wait':
                    log.append(ev('wait_b', i, a[1], a[2]))
                    try:
                        kw = dict(dont_raise=True) if a[2] else {}
                        c.wait(**kw) if a[1] < 0 else c.wait(a[3] if len(a) > 3 else a[1] / 1000, **kw)
                        r = None
                    except (WouldWaitMore, ResourceLocked) as e:
                        r = e
                    log.append(ev('wait_e', i, r=r))
                elif k == 'notify':
                    log.append(ev('notify', a[1]))
                    if a[1] == 1 and len(a) > 2:
                        c.notify()
                    elif a[1] < 0:
                        c.notify_all()
                    else:
                        c.notify(a[1])
                elif k == 'hold':
                    log.append(ev('hold', a[1]))
                    with c:
                        time.sleep(a[1] / 1000)
        ts = [threading.Thread(target=body, args=(i + 1, p), daemon=True) for i, p in enumerate(prog)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        log.append(ev('end'))
    return scenario


def gen_cond(w):
    r = w.rng
    W = lambda t, q=False, *x: ('wait', t, q) + x
    A = lambda t: ('at', t)
    N = lambda n, *x: ('notify', n) + x
    progs = [[[W(-1)], [A(500), N(1)]], [[W(-1)], [W(-1)], [A(500), N(1, 0)]], [[W(-1)], [W(-1)], [W(-1)], [A(500), N(-1)]],
             [[W(-1)], [W(-1)], [W(-1)], [A(500), N(2)], [A(900), N(1)]], [[W(1000)], [A(500), N(1)]], [[W(1000)]], [[W(1000, True)]],
             [[W(0)]], [[W(-1)], [N(1)]], [[W(300)], [A(500), N(1)], [W(-1)]], [[W(1000, False, '1s')], [W(60000, False, '1m')], [A(2000), N(1)]],
             [[('hold', 1000)], [A(100), W(500)], [A(100), W(3000)], [A(1500), N(-1)]], [[('hold', 1000)], [A(100), W(1500)]],
             [[W(1000), W(1000)], [A(700), N(1)], [A(1400), N(1)]]]
    for p in progs:
        w.events(dict(z=0), cond_scenario(p), bound=1, budget=25 if w.quick() else 400, rnd=10 if w.quick() else 200, max_clock=100)
    for _ in range(w.n(60, 1500)):
        prog = []
        for _ in range(r.randint(1, 4)):
            p = []
            at = 0
            for _ in range(r.randint(1, 2)):
                at += 200 * r.randint(0, 5)
                p += [A(at), W(r.choice([-1, 300, 500, 900, 1100]), r.random() < 0.3)]
            prog.append(p)
        at = 50
        p = []
        for _ in range(r.randint(1, 4)):
            at += 200 * r.randint(0, 4)
            p += [A(at), N(r.choice([1, 1, 2, 3, -1]))]
        prog.append(p)
        w.events(dict(z=0), cond_scenario(prog), bound=1, budget=3 if w.quick() else 30, rnd=3 if w.quick() else 30, max_clock=100)


PROP = dict(
    title='Terminable threads: loops until told to stop, then exactly one cleanup',
    statement='A started terminable thread calls prepare() once, then loop() again and again, and when it ends calls cleanup() exactly once, last, in the same thread - whether it ends because of '
              'terminate(), a SystemExit, an exception listed in terminate_on (which is swallowed and marks the thread as terminating) or another exception (which is propagated). After terminate() no further loop() begins, '
              'also when called before start, during prepare() or inside a loop; leaving the context of a thread terminates and joins it. An interval-based thread begins its loops at a distance of exactly the interval, '
              'or immediately after a longer loop, having called on_overrun with the time taken. safe_sleep and safe_wait_condition take exactly as long as asked unless notified, and notice termination '
              'within the wake-up period. A SingleStartThread runs once however often and from wherever it is started; joining a bogus thread waits for its termination. A Condition wakes up to n of its waiters per notify, '
              'and waits exactly for the timeout otherwise.',
    over=['schedules', 'histories', 'inputs'], text='all interleavings (bounded preemptions) of a thread and its controllers, all outcomes and durations of its methods from a small set',
    why='the tests run threads in real time for a few loops; the moment at which terminate() comes and what the methods raise are not varied',
    files=['satella/coding/concurrent/thread.py'],
    mech=[('loop and termination', 'thread.py TerminableThread.run, terminate, safe_sleep, safe_wait_condition'), ('intervals', 'thread.py IntervalTerminableThread.run'),
          ('single start', 'thread.py SingleStartThread.start'), ('pseudo-thread', 'thread.py BogusTerminableThread'), ('condition', 'thread.py Condition')],
    note='the life cycle is explored exhaustively to a bounded number of events and its environment choices are replayed; forced termination is not modelled (it injects an exception asynchronously into the interpreter)')
