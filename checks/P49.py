import collections
import sys
import threading
import time
import types

from vt import Part

PARTS = [
    Part('occupancy', 'CpuTime', 'O', depth=(2, 3), max_paths=(6000, 40000), shards=(2, 8)),
    Part('profile', 'CpuTime', 'R', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('thread', 'CpuTime', 'T', depth=(1, 1), shards=(2, 6), replay=False),
    Part('together', 'CpuTime', 'K', depth=(1, 1), shards=(2, 6), replay=False),
]
FIELDS = dict(linux='user nice system idle iowait irq softirq steal guest guest_nice', old='user nice system idle iowait irq softirq', unix='user nice system idle', windows='user system idle interrupt dpc')
USED = dict(linux=['user', 'system', 'irq', 'softirq', 'steal', 'nice'], old=['user', 'nice', 'system', 'irq', 'softirq'], unix=['user', 'nice', 'system'], windows=['user', 'system', 'interrupt', 'dpc'])


def O(op, *a):
    return dict(op=op, a=list(a))


class Machine:
    """four processors, of which a given number is busy at a time"""

    def __init__(self, os='linux', background=True):
        import multiprocessing
        import psutil
        self.t, self.load, self.cum, self.rate = time.monotonic(), 0, 0.0, 0
        self.pattern = None
        tup = collections.namedtuple('scputimes', FIELDS[os])
        used = USED[os]

        def cpu_times(*a, **k):
            c = self.work()
            d = {f: 0.0 for f in tup._fields}
            for i, f in enumerate(used):
                d[f] = c * (i + 1) / (len(used) * (len(used) + 1) / 2) if i else 0
            d[used[0]] = c - sum(d.values())
            d['idle'] = 12345.0
            return tup(**d)
        psutil.cpu_times = cpu_times
        own = collections.namedtuple('pcputimes', 'user system children_user children_system iowait')
        self.processes = 0
        t0 = time.monotonic()

        def process(pid=None):
            self.processes += 1
            return types.SimpleNamespace(cpu_times=lambda: own(self.rate * (time.monotonic() - t0) / 4, 0.0, 0.0, 0.0, 0.0), pid=1)
        psutil.Process = process
        multiprocessing.cpu_count = lambda: 4
        for m in ('satella.instrumentation.cpu_time', 'satella.instrumentation.cpu_time.collector', 'satella.instrumentation.cpu_time.concurrency'):
            sys.modules.pop(m, None)
        import importlib
        self.started, self.start = 0, threading.Thread.start

        def start(this):
            if 'profile' in (this.name or ''):
                self.started += 1
                if not background:
                    return
            return self.start(this)
        threading.Thread.start = start
        try:
            self.cpu = importlib.import_module('satella.instrumentation.cpu_time')
        except BaseException:
            self.close()
            raise

    def close(self):
        threading.Thread.start = self.start

    def work(self):
        """seconds of work done until now"""
        now = time.monotonic()
        while self.t < now - 1e-9:
            if self.pattern is None:
                self.cum += (now - self.t) * self.load
                self.t = now
            else:
                t0, q, repeat = self.pattern
                k = int(self.t - t0 + 1e-6)
                end = min(now, t0 + k + 1)
                self.cum += (end - self.t) * (q[k % len(q)] if repeat else q[min(k, len(q) - 1)])
                self.t = end
        return self.cum

    def steady(self, load):
        self.work()
        self.load, self.pattern = load, None

    def follow(self, q, repeat=False):
        self.work()
        self.pattern = time.monotonic(), q, repeat


class Occupancy:
    def __init__(self, cfg):
        self.m = Machine(cfg['os'], background=False)
        self.last = None

    def finish(self):
        self.m.close()

    def op_tick(self, n):
        time.sleep(n / 10)

    def op_load(self, n):
        self.m.steady(n)

    def op_of(self):
        t = time.monotonic()
        prev = self.last if self.last is not None else t
        of = self.m.cpu.calculate_occupancy_factor()
        self.last = time.monotonic()
        d = self.last - prev
        w = of * 4 * d * 10
        assert abs(w - round(w)) < 1e-4, of
        return [round(w), round(d * 10)]

    def op_sleep(self, s, below, above, loads):
        self.m.follow(loads)
        t = time.monotonic()
        kw = {}
        if below != -1:
            kw['of_below'] = below / 8
        if above != -1:
            kw['of_above'] = above / 8
        r = self.m.cpu.sleep_cpu_aware(s / 10 if s % 10 else '%ds' % (s / 10), **kw)
        d = time.monotonic() - t
        if kw:
            self.last = time.monotonic()
        self.m.steady(loads[-1])
        return [r, round(d * 10)]


def gen_occupancy(w):
    cfgs = [dict(os=x) for x in ('linux', 'old', 'unix', 'windows')]
    w.replay_spec(Occupancy, cfgs, final=[O('tick', 10), O('of')])
    r = w.rng
    for _ in range(w.n(200, 6000)):
        ops = []
        for _ in range(r.randint(3, 12)):
            ops.append(r.choice([O('tick', r.randint(1, 30)), O('load', r.randint(0, 4)), O('of'), O('of'),
                                 O('sleep', r.choice([5, 10, 15, 20, 35, 50]), r.choice([-1, 1, 3, 5]), r.choice([-1, 3, 5, 7]), [r.randint(0, 4) for _ in range(r.randint(1, 5))])]))
        w.seq(r.choice(cfgs), ops, Occupancy)


class Profile:
    def __init__(self, cfg):
        self.m = Machine()

    def finish(self):
        self.m.close()

    def op_steady(self, window, refresh, q, ps, u, n):
        C = self.m.cpu.CPUTimeManager
        self.m.rate = u
        self.m.follow(q, True)
        C.set_window_size(window)
        C.set_refresh_each(refresh if refresh % 2 else '%ds' % refresh)
        time.sleep(45 + n * (window + refresh + 1))
        own = self.m.cpu.get_own_cpu_usage()
        return [[round(C.percentile(p / 100) * 4) for p in ps], round(own.user * 4), self.m.started]

    def op_early(self):
        self.m.steady(2)
        return [self.m.cpu.CPUTimeManager.percentile(.5), self.m.cpu.get_own_cpu_usage()]


def gen_profile(w):
    for k, q in w.seqs:
        for o in q:
            w.seq(dict(x=0), [o], Profile)
            w.add('spec_behaviours_replayed')
    r = w.rng
    for _ in range(w.n(40, 1000)):
        # whichever second the window begins at, it has all of the pattern
        n = r.randint(1, 4)
        w.seq(dict(x=0), [O('steady', n * r.randint(1, 4) if n > 2 else 12, r.choice([1, 5, 9]), [r.randint(0, 4) for _ in range(n)], [r.choice([0, 0, 100, 30, 90]) for _ in range(3)], r.randint(0, 4), r.randint(1, 3))], Profile)


def thread_scenario(cfg):
    def scenario(log):
        from drive import ev
        m = Machine()
        try:
            base = m.cpu.CPUTimeAwareIntervalTerminableThread
            m.steady(3)
            m.cpu.CPUTimeManager.percentile(.5)
            time.sleep(30)
            durations = list(cfg['d'])

            class T(base):
                def loop(self):
                    log.append(ev('begin'))
                    d = durations.pop(0) if durations else 0
                    time.sleep(abs(d) / 1000)
                    if d < 0:
                        log.append(ev('failed'))
                        raise ValueError()
                    log.append(ev('end'))

                def on_overrun(self, x):
                    log.append(ev('overrun', int(round(x * 1000))))

                def cleanup(self):
                    log.append(ev('cleanup'))
            m.steady(0 if cfg['idle'] == 'idle' else 3)
            kw = dict(terminate_on=ValueError)
            if cfg['given']:
                kw['max_sooner'] = cfg['m'] / 1000
            if cfg['w'] != 3000:
                kw['wakeup_interval'] = cfg['w'] / 1000
            t = T('%ss' % (cfg['p'] // 1000) if cfg['str'] else cfg['p'] / 1000, **kw)
            log.append(ev('start'))
            t.start()
            if cfg['idle'] == 'changing':
                for _ in range(4):
                    time.sleep(cfg['at'] / 5000)
                    m.steady(0 if m.load else 3)
                time.sleep(cfg['at'] / 5000)
            else:
                time.sleep(cfg['at'] / 1000)
            log.append(ev('terminate'))
            t.terminate()
            t.join()
            log.append(ev('over'))
        finally:
            m.close()
    return scenario


def gen_thread(w):
    r = w.rng
    for _ in range(w.n(60, 1500)):
        p = r.choice([3000, 5000, 8000])
        given = r.random() < .6
        cfg = dict(p=p, m=r.choice([1000, 2000, p]) if given else p // 10, given=given, w=r.choice([3000, 1000, 2000]), idle=r.choice(['idle', 'busy', 'changing']), str=r.random() < .4,
                   d=[r.choice([0, 0, 300, 1000, p - 500, p + 700, -200]) if r.random() < .6 else 0 for _ in range(4)], at=r.choice([500, 5000, 12300, 20100, 33000]))
        w.events(cfg, thread_scenario(cfg), bound=0, budget=1, rnd=1, max_clock=400)


def together_scenario(cfg):
    def scenario(log):
        from drive import ev
        m = Machine()
        try:
            C = m.cpu.CPUTimeManager
            m.steady(cfg['l'])
            if cfg['short']:
                C.set_window_size(1)

            class T(m.cpu.CPUTimeAwareIntervalTerminableThread):
                def loop(self):
                    pass

            def body(k, p, t):
                if t:
                    # at the very moment the first window ends
                    time.sleep(.1)
                    time.sleep(1)
                if k == 1:
                    T(5, percentile=p)
                for _ in range(2):
                    try:
                        r = round(C.percentile(p) * 4)
                    except Exception as e:  # noqa
                        r = e
                    log.append(ev('percentile', r=r))
                    time.sleep(k)
            ts = [threading.Thread(target=body, args=(k, p, t)) for k, p, t in cfg['threads']]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            log.append(ev('builders', r=m.started))
            time.sleep(60)
            for k, p, t in cfg['threads']:
                log.append(ev('settled', r=round(C.percentile(p) * 4)))
        finally:
            m.close()
    return scenario


def gen_together(w):
    for th in ([[0, .5, 0], [0, .3, 0]], [[0, .5, 0], [1, .3, 0]], [[1, .3, 1]], [[1, .3, 1], [1, .2, 1]]):
        cfg = dict(l=2, threads=th, short=th[0][2] > 0)
        w.events(cfg, together_scenario(cfg), bound=1, budget=(400 if cfg['short'] else 60) if w.quick() else 2500, rnd=60 if w.quick() else 1500, max_clock=400)


PROP = dict(
    title='How busy processors are is measured right, and sleeping and threads go by it',
    statement='The occupancy factor is the work done by all the processors since the previous call, divided by their number and by the time that passed; a sleep that minds the processor lasts for as long as '
              'asked, or until the first look at which occupancy is below or above what was given, and tells which of it. A profile of a window has its percentiles, whoever asks, and own usage is that '
              'divided by the time. A thread that is called sooner when processors are idle is called each period if they are not, never sooner than allowed, immediately after a loop that took too '
              'long, and finishes soon when terminated, or at an exception it is to finish upon, always cleaning up.',
    over=['histories', 'schedules', 'inputs'],
    text='All the histories of two (thorough: three) operations for four kinds of system, with changing load, and long random ones; loads repeating with period of up to four; threads of three periods with loops '
         'short, too long and failing, upon idle, busy and changing processors; up to three threads asking for the profile first, at once',
    why='the tests measure whatever the machine happens to do, so that they can hardly check any value',
    files=['satella/instrumentation/cpu_time/collector.py', 'satella/instrumentation/cpu_time/concurrency.py', 'satella/instrumentation/cpu_time/__init__.py'],
    mech=[('measure', 'collector.py calculate_occupancy_factor'), ('sleep', 'collector.py sleep_cpu_aware'), ('profile', 'collector.py _CPUProfileBuilderThread'), ('thread', 'concurrency.py')],
    note='time that guests take is zero, and the tenths of a second spent waiting for a measure are tolerated in threads',
    design='psutil and the clock are replaced by a machine of four processors in virtual time.',
)
