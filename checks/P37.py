import gc
import inspect
import io
import threading
import time

from vt import Part

PARTS = [
    Part('use', 'MUse', 'X', depth=(3, 4), max_paths=(4000, 60000), shards=(2, 6)),
    Part('pool', 'MUse', 'P', depth=(7, 9), replay=False, shards=(3, 8)),
]
U = 0.25


def O(op, *a):
    return dict(op=op, a=list(a))


class BodyError(Exception):
    pass


class Sock:
    def __init__(self, text):
        self.text = text
        self.out = b''

    def makefile(self, *a, **k):
        return io.BytesIO(self.text)

    def sendall(self, b):
        self.out += b


class Use:
    known = BodyError, KeyboardInterrupt

    def __init__(self, cfg):
        from concurrent.futures import Future
        from satella.instrumentation.metrics import getMetric, MetricLevel, AggregateMetric, LabeledMetric
        from satella.instrumentation.metrics.metric_types import register_metric
        from satella.instrumentation.metrics.metric_types.base import LeafMetric
        from satella.instrumentation.metrics.metric_types.measurable_mixin import MeasurableMixin
        from satella.instrumentation.metrics.exporters import PrometheusHTTPExporterThread
        ad = self
        self.got = []

        @register_metric
        class Rec(LeafMetric, MeasurableMixin):
            CLASS_NAME = 'rec'

            def _handle(self, v, **labels):
                v = v / (U if not isinstance(v, int) else 1)
                ad.got.append([int(self.name[1:]), round(v, 6), labels.pop('k', '') + labels.pop('l', '')])
                assert not labels
        getMetric('').reset()
        time.sleep(0.3)
        lv = MetricLevel[cfg['level']]
        a, b = getMetric('m1', 'rec', lv), getMetric('m2', 'rec', lv)
        self.who = dict(one=a, both=AggregateMetric(a, b), labeled=LabeledMetric(a, k='own'))
        self.level = MetricLevel
        self.t0 = time.monotonic()
        self.future = Future()
        self.units = lambda n=0: round((time.monotonic() - self.t0) / U) + n
        self.callable = getMetric('c', 'callable', labels=dict(i=9), value_getter=lambda: self.units())
        for i in (1, 2):
            LabeledMetric(self.callable, i=i, callable=lambda i=i: self.units(i))
        self.uptime = getMetric('u', 'uptime')
        self.hidden = getMetric('hidden', 'int', internal=True)
        self.exporter = PrometheusHTTPExporterThread('localhost', 0, extra_labels=dict(extra='x"y'), enable_metric=True)

    def lab(self, x):
        return dict(k=x) if x == 'K' else dict(l=x) if x else {}

    def op_measure(self, form, who, level, lab, include, how, n):
        m = self.who[who].measure(include_exceptions=include, logging_level=self.level[level], **self.lab(lab)) if (level, include) != ('RUNTIME', True) else self.who[who].measure(**self.lab(lab))

        def body(x, *, y):
            """doc"""
            assert (x, y) == (1, 2)
            time.sleep(n * U)
            if how != 'ok':
                raise BodyError() if how == 'fails' else KeyboardInterrupt()
            return 'returned'

        def gen(x, *, y):
            """doc"""
            yield 1
            r = body(x, y=y)
            yield 2
            return r
        if form == 'context':
            with m:
                body(1, y=2)
            return None
        f = gen if form == 'generator' else body
        g = m(f)
        assert g.__name__ == f.__name__ and g.__doc__ == 'doc' and inspect.isgeneratorfunction(g) == (form == 'generator')
        if form == 'function':
            return g(1, y=2)
        q = []
        it = g(1, y=2)
        while True:
            try:
                q.append(next(it))
            except StopIteration as e:
                return [q, e.value]

    def op_again(self, form, who, n):
        '''the same thing is used twice'''
        m = self.who[who].measure()
        f = m(lambda: time.sleep(n * U))
        for _ in range(2):
            if form == 'context':
                with m:
                    time.sleep(n * U)
            else:
                f()
            time.sleep(2 * U)

    def op_handle(self, who, level, lab, v):
        if level == 'RUNTIME':
            self.who[who].runtime(v, **self.lab(lab))
        else:
            self.who[who].handle(self.level[level], v, **self.lab(lab))

    def op_future(self, who, level, lab):
        self.who[who].measure_future(self.future, self.level[level], **self.lab(lab))

    def op_complete(self, how):
        from concurrent.futures import Future
        f, self.future = self.future, Future()
        if how == 'ok':
            f.set_result(1)
        elif how == 'fails':
            f.set_exception(BodyError())
        else:
            f.cancel()

    def op_tick(self, n):
        time.sleep(n * U)

    def op_got(self):
        return self.got

    def op_callable(self):
        r = {x.labels.get('i', 0): x.value for x in self.callable.to_metric_data().values}
        return [r.get(9), r.get(1), r.get(2), len(r)]

    def op_uptime(self):
        x, = self.uptime.to_metric_data().values
        return round(x.value / U, 6)

    def op_http(self, path):
        import re
        h = self.exporter.httpd
        s = Sock(('GET %s HTTP/1.0\r\n\r\n' % path).encode())

        class Quiet(h.RequestHandlerClass):
            def log_message(self, *a):
                pass
        Quiet(s, ('127.0.0.1', 1), h)
        head, _, body = s.out.partition(b'\r\n\r\n')
        status = int(head.split()[1])
        if status != 200:
            return [status, False]
        rows = {}
        for x in body.decode('utf8').split('\n'):
            if x and not x.startswith('#'):
                name, labels, v, ts = re.fullmatch(r'([a-zA-Z_:][a-zA-Z0-9_:]*)\{(.*)\} (\S+)( \d+)?', x).groups()
                labels = {k: q.replace('\\"', '"') for k, q in re.findall(r'(\w+)="((?:[^"\\]|\\.)*)"', labels)}
                v = None if v == 'None' else float(v)
                assert labels.pop('extra') == 'x"y'
                rows[name, tuple(sorted(labels.items()))] = v
        good = not any(n == 'hidden' for n, _ in rows) and rows.get(('c', (('i', '9'),))) == self.units() and rows.get(('c', (('i', '1'),))) == self.units(1) and any(n == 'u' for n, _ in rows)
        return [status, good]

    def op_exports(self):
        from satella.instrumentation.metrics import getMetric
        r = {x.labels['period']: x.value for x in getMetric('prometheus.exports_per_time', 'cps').to_metric_data().values}
        m = getMetric('prometheus.exports_per_time', 'cps')
        assert m.time_unit_vectors == [1, 20, 60]
        n = len(m.last_clicks) if self.units() < 200 else 0
        return [n, r[20] if self.units() < 60 else n, r[60] if self.units() < 200 else n]

    def op_stop(self, how):
        import socket
        from satella.instrumentation.metrics.exporters import PrometheusHTTPExporterThread
        if how == 'unstarted':
            assert PrometheusHTTPExporterThread('localhost', 0, enable_metric=True).terminate() is not None
            return
        s = socket.socket()
        threading.excepthook, old = lambda *a: None, threading.excepthook
        try:
            s.bind(('127.0.0.1', 0))
            s.listen(1)
            t = PrometheusHTTPExporterThread('127.0.0.1', s.getsockname()[1], enable_metric=True)
            t.httpd.allow_reuse_address = False
            t.start()
            t.terminate().join()
            assert not t.is_alive() and t.httpd.socket.fileno() == -1, 'still there'
        finally:
            s.close()
            threading.excepthook = old


def gen_use(w):
    import satella.instrumentation.metrics.exporters
    cfgs = [dict(level=x) for x in ('RUNTIME', 'DEBUG', 'DISABLED')]
    w.replay_spec(Use, cfgs, final=[O('got'), O('exports')])
    r = w.rng
    for _ in range(w.n(150, 4000)):
        q = []
        for _ in range(r.randint(2, 12)):
            who, lev, lab = r.choice(['one', 'both', 'labeled']), r.choice(['RUNTIME', 'DEBUG']), r.choice(['', 'a', 'b', 'K'])
            o = r.choice(['measure', 'measure', 'future', 'complete', 'tick', 'handle', 'got', 'callable', 'http'])
            q.append(dict(measure=lambda: O('measure', r.choice(['function', 'generator', 'context']), who, lev, lab, r.random() < 0.5, r.choice(['ok', 'fails', 'interrupted']), r.randint(0, 5)), future=lambda: O('future', who, lev, lab), complete=lambda: O('complete', r.choice(['ok', 'fails', 'cancel'])),
                          tick=lambda: O('tick', r.randint(1, 4)), handle=lambda: O('handle', who, lev, lab, r.randint(0, 9)), got=lambda: O('got'), callable=lambda: O('callable'), http=lambda: O('http', '/metrics'))[o]())
        w.seq(r.choice(cfgs), q + [O('complete', 'ok'), O('got'), O('exports')], Use)


def pool(cfg, tasks, finish, delays):
    """tasks: [units, outcome]; finish: how the pool ends, before the results are waited for or after"""
    import detsched
    import drive
    from satella.instrumentation.metrics.structures import MetrifiedThreadPoolExecutor
    from satella.instrumentation.metrics.metric_types.base import LeafMetric
    from satella.instrumentation.metrics.metric_types import CallableMetric, MetricLevel

    def run(log):
        import concurrent.futures.thread as ct
        t0 = time.monotonic()
        now = lambda: round((time.monotonic() - t0) / U, 3)
        rec = dict(w=[], x=[])

        class Rec(LeafMetric):
            def _handle(self, v):
                rec[self.name].append(round(v / U, 3))

        def init(x):
            assert x == 7
            log.append(drive.ev('init'))
            if cfg['bad']:
                raise BodyError()

        def body(i, n, out):
            log.append(drive.ev('start', i, now(), threading.current_thread().name.startswith('prefix')))
            time.sleep(n * U)
            log.append(drive.ev('end', i, now(), out))
            if out == 'fails':
                raise BodyError()
            return i
        with detsched.quiet():
            q = CallableMetric('q')
            kw = dict(initializer=init, initargs=(7,)) if cfg['init'] else {}
            ex = MetrifiedThreadPoolExecutor(cfg['workers'], 'prefix', time_spent_waiting=Rec('w', None, MetricLevel.RUNTIME), time_spent_executing=Rec('x', None, MetricLevel.RUNTIME), waiting_tasks=q, **kw)
        fs = []
        lost = False
        for i, (n, out) in enumerate(tasks, 1):
            log.append(drive.ev('submit', i, now()))
            try:
                fs.append(ex.submit(body, i, n, out))
            except RuntimeError:
                log.pop() if log[-1]['op'] == 'submit' else None
                lost = True
                break
            if delays:
                time.sleep(delays * U)
        if not lost and finish != 'gc':
            for x in q.to_metric_data().values:
                pass
        if finish == 'gc':
            del ex, q
            gc.collect()
        elif finish == 'early':
            log.append(drive.ev('shutdown'))
            ex.shutdown(wait=False)
        for i, f in enumerate(fs, 1):
            try:
                r = 'ok' if f.result() == i else 'wrong'
            except BodyError:
                r = 'fails'
            except RuntimeError as e:
                r = 'BrokenThreadPool' if isinstance(e, ct.BrokenThreadPool) else type(e).__name__
            log.append(drive.ev('result', i, r))
        if finish in ('late', 'early'):
            if finish == 'late':
                log.append(drive.ev('shutdown'))
            ex.shutdown()
            try:
                ex.submit(body, 9, 1, 'ok')
            except RuntimeError:
                log.append(drive.ev('refused'))
            else:
                log.append(drive.ev('not refused'))
            if not cfg['bad']:
                log.append(drive.ev('metrics', r=[sorted(rec['w']), sorted(rec['x'])]))
        log.append(drive.ev('over'))
    return run


def gen_pool(w):
    import satella.instrumentation.metrics.structures
    r = w.rng
    C = lambda workers=2, init=False, bad=False: dict(workers=workers, init=init, bad=bad)
    ps = [(C(), [[1, 'ok'], [2, 'fails'], [1, 'ok']], 'late', 0), (C(1, True), [[1, 'ok'], [0, 'ok'], [2, 'ok']], 'early', 0), (C(1), [[2, 'ok'], [1, 'fails'], [1, 'ok']], 'gc', 0), (C(2, True), [[2, 'ok'], [1, 'ok'], [1, 'ok'], [0, 'ok']], 'late', 1),
          (C(1, True, True), [[1, 'ok']], 'late', 0), (C(2), [[1, 'ok'], [1, 'ok'], [1, 'ok']], 'gc', 0)]
    for cfg, tasks, fin, d in ps:
        w.events(cfg, pool(cfg, tasks, fin, d), budget=w.n(60, 2500), rnd=w.n(60, 2500), max_clock=500)
    for _ in range(w.n(40, 1500)):
        cfg = C(r.randint(1, 3), r.random() < 0.5)
        w.events(cfg, pool(cfg, [[r.randint(0, 3), r.choice(['ok', 'ok', 'fails'])] for _ in range(r.randint(1, 6))], r.choice(['late', 'early', 'gc']), r.randint(0, 1)), budget=3, rnd=5, max_clock=500)


PROP = dict(
    title='Measuring, wrapping and exporting metrics; the thread pool with metrics',
    statement='measure() reports the difference of the value getter over each call of a function, generator or block exactly once, at the given level and labels, also if it raised unless told not to, and changes neither arguments, results nor exceptions; measure_future does it when that future completes, in whatever way and whoever else measures it. AggregateMetric passes each value to all of its metrics, LabeledMetric adds its labels; a callable metric gives the current value, of each of the labels. '
              'The HTTP exporter answers /metrics with all that is not internal, extra labels added, and can be terminated at any time. MetrifiedThreadPoolExecutor executes each task once, with at most the given number at a time, in initialized workers, also when shut down or garbage collected, and reports the time each spent waiting and executing.',
    over=['histories', 'schedules'], text='histories of 3 (4) operations at 3 levels, random ones of 12; 6 uses of the pool in hundreds of schedules each and random ones', why='tests measure a single second once, and never look at exceptions, schedules or shutdown',
    files=['satella/instrumentation/metrics/metric_types/measurable_mixin.py', 'satella/instrumentation/metrics/metric_types/callable.py', 'satella/instrumentation/metrics/metric_types/uptime.py', 'satella/instrumentation/metrics/metric_types/empty.py', 'satella/instrumentation/metrics/aggregate.py', 'satella/instrumentation/metrics/labeled.py', 'satella/instrumentation/metrics/exporters/prometheus.py', 'satella/instrumentation/metrics/structures/threadpool.py'],
    mech=[('measure', 'measurable_mixin.py'), ('wrappers', 'aggregate.py, labeled.py, callable.py'), ('HTTP', 'exporters/prometheus.py'), ('pool', 'structures/threadpool.py')], note='a measured generator that is closed early is unspecified; what is reported after the pool was garbage collected is not')
