import importlib
import threading
import time

from vt import Part

PARTS = [
    Part('timer', 'Timers', 'M', depth=(5, 8), shards=(3, 8), max_paths=(600, 6000)),
]


def timer_scenario(prog, wait):
    """prog: per thread [('at', ms) | ('start', i) | ('cancel', i)], timers: i -> (interval, sep, dur, raises)"""
    from drive import ev
    timers, threads = prog

    def scenario(log):
        import satella.coding.concurrent.timer as tm
        tm = importlib.reload(tm)  # a fresh background thread
        obs = {}

        def fun(i, k=0):
            dur, bad = timers[i][2:4]
            log.append(ev('fire_b', i, r=i * 10 + k))
            if dur:
                time.sleep(dur / 1000)
            log.append(ev('fire_e', i))
            if bad:
                raise ValueError()
        for i, x in timers.items():
            iv = x[0] / 1000 if x[0] % 1000 else '%ds' % (x[0] // 1000)
            if x[1]:
                obs[i] = tm.Timer(iv, fun, args=(i,), kwargs={'k': 7}, spawn_separate=True)
            else:
                obs[i] = tm.Timer(iv, fun, (i,), {'k': 7})

        def body(acts, t0):
            for a in acts:
                if a[0] == 'at':
                    time.sleep(max(0, t0 + a[1] / 1000 - time.monotonic()))
                elif a[0] == 'start':
                    i = a[1]
                    log.append(ev('start_b', i, timers[i][0], timers[i][1]))
                    try:
                        obs[i].start()
                        r = None
                    except Exception as e:  # noqa
                        r = e
                    log.append(ev('start_e', i, r=r))
                else:
                    log.append(ev('cancel_b', a[1]))
                    obs[a[1]].cancel()
                    log.append(ev('cancel_e', a[1]))
        t0 = time.monotonic()
        ts = [threading.Thread(target=body, args=(p, t0), daemon=True) for p in threads]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        time.sleep(wait)
        log.append(ev('end'))
    return scenario


def from_path(q):
    timers, acts, b = {}, [], {}
    for e in q:
        i = e['a'][0] if e['a'] else None
        if e['op'] == 'start_b':
            timers[i] = [e['a'][1], e['a'][2], 0, False]
            acts += [('at', e['c']), ('start', i)]
        elif e['op'] == 'cancel_b':
            if i in timers:
                acts += [('at', e['c']), ('cancel', i)]
        elif e['op'] == 'fire_b':
            b[i] = e['c']
        elif e['op'] == 'fire_e':
            timers[i][2] = e['c'] - b[i]
    return (timers, [acts])


def gen_timer(w):
    r = w.rng
    done = set()
    for k, q in w.seqs:
        p = from_path(q)
        if repr(p) in done or not p[0]:
            continue
        done.add(repr(p))
        w.events(dict(z=0), timer_scenario(p, 6), bound=0, budget=1, rnd=1, max_clock=60, tick0=1e-5)
        w.add('spec_behaviours_replayed')
    S, C, A = (lambda i: ('start', i)), (lambda i: ('cancel', i)), (lambda t: ('at', t))
    fixed = [({1: (0, False, 0, False), 2: (0, False, 0, False)}, [[S(1)], [S(2)]]),
             ({1: (500, False, 0, False), 2: (500, False, 0, False)}, [[S(1), S(2)]]),
             ({1: (500, True, 0, False), 2: (500, True, 0, True), 3: (500, False, 0, True), 4: (500, False, 0, False)}, [[S(1), S(2), S(3), S(4)]]),
             ({1: (500, False, 0, False)}, [[S(1), A(500), C(1)]]),
             ({1: (1500, False, 0, False), 2: (250, False, 0, False)}, [[S(1), A(700), S(2)]]),
             ({1: (0, False, 3000, True), 2: (1000, False, 0, False), 3: (500, True, 0, False)}, [[S(1), S(2)], [A(100), S(3)]]),
             ({1: (5000, False, 0, False), 2: (2000, False, 0, False), 3: (1000, False, 0, False)}, [[S(1), C(1)], [S(2)], [S(3)]]),
             ({1: (500, False, 0, False), 2: (750, False, 0, False)}, [[S(1), S(2), A(250), C(1)]])]
    for k, p in enumerate(fixed):
        if k % w.nshards == w.shard or not w.quick():
            w.events(dict(z=0), timer_scenario(p, 9), bound=1, budget=120 if w.quick() else 1500, rnd=40 if w.quick() else 500, max_clock=60, tick0=1e-5)
    for _ in range(w.n(150, 2500)):
        n = r.randint(1, 6)
        timers = {i: (r.choice([0, 250, 250, 500, 1000, 1250, 2000, 3500]), r.random() < 0.3, r.choice([0] * 4 + [300, 1500]), r.random() < 0.25) for i in range(1, n + 1)}
        threads = []
        ids = list(timers)
        r.shuffle(ids)
        nt = r.randint(1, 2)
        for k in range(nt):
            acts, at = [], 0
            for i in ids[k::nt]:
                at += r.choice([0, 0, 250, 500, 1100])
                acts += [A(at), S(i)]
                if r.random() < 0.3:
                    at += r.choice([0, 100, 250, 700])
                    acts += [A(at), C(i)]
            threads.append(acts)
        w.events(dict(z=0), timer_scenario((timers, threads), 15), bound=1, budget=3 if w.quick() else 30, rnd=3 if w.quick() else 30, max_clock=100, tick0=1e-5)


PROP = dict(
    title='Timers fire exactly once, not early, at most a second late, never if cancelled',
    statement='Every started timer whose cancel() did not come first calls its function exactly once, with the given arguments, no earlier than its interval after start() and no later than a second after that - '
              'or as soon as the functions executed before it in the background thread are done. Timers executed by the background thread run one at a time in the order of their times; a function that raises, '
              'timers falling on the same instant, and timers started from several threads at once do not prevent the others from firing. After cancel() returned the function is not called.',
    over=['schedules', 'histories', 'inputs'], text='all interleavings (bounded preemptions) of starting and cancelling timers from several threads, intervals and durations from a small set, on a virtual clock',
    why='the tests start one or two timers in real time',
    files=['satella/coding/concurrent/timer.py', 'satella/coding/structures/heaps/time.py', 'satella/coding/structures/singleton.py'],
    mech=[('background thread', 'timer.py TimerBackgroundThread.run'), ('starting and cancelling', 'timer.py Timer.start, Timer.cancel')],
    note='the life of two timers is explored exhaustively to a bounded number of events and replayed; up to six timers with sampled times and schedules beyond that')
