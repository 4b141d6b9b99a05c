import time

from vt import Part

PARTS = [
    Part('types', 'MTypes', 'M', depth=(3, 4), max_paths=(6000, 60000), shards=(3, 8)),
    Part('threads', 'MTypes', 'M', mode='lin', shards=(3, 8), design=False),
]
U = 0.25
C0 = dict(type='int', ts=False, int=False, agg=True, count=True, n=3, b=[1, 3], on=2, off=2)


def C(**k):
    return dict(C0, **k)


CFGS = [C0, C(ts=True, int=True), C(type='counter'), C(type='counter', agg=False, ts=True), C(type='counter', count=False, int=True), C(type='summary'), C(type='summary', n=2, agg=False, ts=True), C(type='summary', count=False, int=True),
        C(type='histogram'), C(type='histogram', ts=True, agg=False), C(type='histogram', int=True), C(type='cps'), C(type='cps', agg=False, ts=True), C(type='cps', int=True), C(type='linkfail'), C(type='linkfail', off=1, ts=True), C(type='linkfail', on=1, int=True)]


def O(op, *a):
    return dict(op=op, a=list(a))


class Ad:
    def __init__(self, cfg):
        from satella.instrumentation.metrics import getMetric
        self.cfg = cfg
        self.cb = []
        t = cfg['type']
        k = dict(counter=dict(sum_children=cfg['agg'], count_calls=cfg['count']), summary=dict(last_calls=cfg['n'], quantiles=(0, 0.25, 0.5, 1), aggregate_children=cfg['agg'], count_calls=cfg['count']),
                 histogram=dict(buckets=cfg['b'], aggregate_children=cfg['agg']), cps=dict(time_unit_vectors=[2, 1], aggregate_children=cfg['agg']),
                 linkfail=dict(consecutive_failures_to_offline=cfg['off'], consecutive_successes_to_online=cfg['on'], callback_on_online=lambda *a: self.called('on', *a), callback_on_offline=lambda *a: self.called('off', *a))).get(t, {})
        if cfg['ts']:
            k['enable_timestamp'] = True
        if cfg['int']:
            k['internal'] = True
        getMetric('').reset()
        self.t0 = time.time()
        self.m = getMetric('up.name', t, **k)

    def called(self, how, address, labels):
        assert set(labels) <= {'l'}
        self.cb.append([how, address, labels.get('l', 'no')])

    def op_handle(self, v, lab, address):
        t = self.cfg['type']
        a = () if t == 'cps' else (v > 0,) if t == 'linkfail' else (v,)
        k = dict(address=address) if address else {}
        if lab != 'no':
            k['l'] = lab
        self.m.runtime(*a, **k)

    def op_tick(self, n):
        time.sleep(n * U)

    def rows(self, data):
        rows = {}
        t = self.cfg['type']
        for x in data.values:
            assert x.name.startswith('name') and x.internal is self.cfg['int'], (x.name, x.internal)
            lab = dict(x.labels)
            l = lab.pop('l', 'no')
            ex = -1
            if t == 'summary' and 'quantile' in lab:
                ex = round(4 * lab.pop('quantile'))
            elif t == 'histogram' and 'le' in lab:
                ex = [0.0, *self.cfg['b']].index(lab['le']) + 1
                assert lab['ge'] == (self.cfg['b'] + [float('inf')])[ex - 1]
                del lab['le'], lab['ge']
            elif t == 'cps' and 'period' in lab:
                ex = round(lab.pop('period') / U)
            elif t == 'linkfail' and 'address' in lab:
                ex = lab.pop('address')
            assert not lab
            key = (x.name[4:], l, ex)
            assert key not in rows, 'twice'
            v = x.value
            if t == 'summary' and key[0] in ('', '.total'):
                v = round(4 * v, 6)
            rows[key] = [v, None if x.timestamp is None else round((x.timestamp - self.t0) / U, 6)]
        return rows

    def report(self, f, keys, lab=None):
        time.sleep(U / 2)
        try:
            rows = self.rows(f())
        finally:
            time.sleep(U / 2)
        return [rows.get((s, l if lab is None else lab, x)) for s, l, x in keys] + ([len(rows)] if lab is None else [])

    def op_report(self, keys):
        return self.report(self.m.to_metric_data, keys)

    def op_label(self, lab, keys):
        return self.report(lambda: self.m.get_specific_metric_data(dict(l=lab)), keys, lab)

    def op_callbacks(self):
        return self.cb

    def op_peek(self):
        self.m.to_metric_data()


def extra(cfg):
    return dict(summary=[0, 1, 2, 4], histogram=[1, 2, 3], cps=[4, 8], linkfail=[-1, 0, 5, 7]).get(cfg['type'], [-1])


def keys(cfg, labs):
    s = dict(linkfail=['.status', '.consecutive_failures', '.consecutive_successes']).get(cfg['type'], [''])
    q = [[x, l, e] for x in s for l in labs for e in extra(cfg)]
    if cfg['type'] != 'linkfail':
        q += [['.total', 'no', e] for e in extra(cfg)]
        q += [[x, l, -1] for x in ('.sum', '.count') for l in labs] + [['.total.sum', 'no', -1], ['.total.count', 'no', -1]]
    return q


def gen_types(w):
    w.replay_spec(Ad, CFGS)
    r = w.rng
    for _ in range(w.n(240, 8000)):
        cfg = r.choice(CFGS)
        labs = r.choice([['no'], ['a', 'b', 'c'], ['no', 'a', 'b', 'c']])
        cfg = dict(cfg, n=r.randint(1, 5), b=r.choice([[1, 3], [2, 5], [4, 8]]), on=r.randint(1, 3), off=r.randint(1, 3))
        q = []
        for _ in range(r.randint(3, 25)):
            o = r.choice(['handle'] * 7 + ['tick', 'report', 'label'])
            if o == 'handle':
                q.append(O('handle', r.choice([0, 1]) if cfg['type'] == 'linkfail' else 1 if cfg['type'] == 'cps' else r.randint(-2, 9), r.choice(labs), r.choice([0, 5, 7]) if cfg['type'] == 'linkfail' else 0))
            elif o == 'tick':
                q.append(O('tick', r.randint(1, 6)))
            elif o == 'report':
                q.append(O('report', keys(cfg, ['no', 'a', 'b', 'c'])))
            else:
                q.append(O('label', r.choice('abc'), keys(cfg, ['a'])))
        w.seq(cfg, q + [O('report', keys(cfg, ['no', 'a', 'b', 'c'])), O('callbacks')], Ad)


def gen_threads(w):
    r = w.rng
    fin = lambda cfg: [O('report', keys(cfg, ['no', 'a', 'b', 'c']))]
    H = lambda l, v=2: O('handle', v, l, 0)
    progs = [(C(type='counter'), [[H('a'), H('a')], [H('a'), H('b')]], []), (C0, [[H('a', 1)], [H('b', 2)], [H('a', 1)]], []), (C(type='summary', n=2), [[H('no'), H('no')], [H('no'), H('no')]], [H('no')]), (C(type='summary', n=1), [[H('a')], [H('a'), O('peek')]], []),
             (C(type='cps'), [[H('no', 1), H('no', 1)], [O('peek'), O('peek')]], [H('no', 1), H('no', 1)]), (C(type='cps'), [[H('a', 1)], [H('a', 1), H('b', 1)], [O('peek')]], []), (C(type='histogram'), [[H('a')], [H('a', 4), H('a', 0)]], []),
             (C(type='linkfail', off=3), [[H('a', 0)], [H('a', 1)]], []), (C(type='counter', ts=True), [[H('a'), O('peek')], [H('a'), H('c')]], [H('b')])]
    mine = [p for i, p in enumerate(progs) if i % w.nshards == w.shard]
    for cfg, prog, setup in mine:
        w.lin(cfg, prog, Ad, setup=setup, final=fin(cfg), bound=2, budget=w.n(80, 2500) * w.nshards // len(mine), rnd=w.n(60, 2000) * w.nshards // len(mine), padv=0.0)


PROP = dict(
    title='What the types of metrics report',
    statement='int and float report the last value, counter the sum (and the number of calls), summary the quantiles of exactly the last N values with the total count and sum, histogram the number of values in each bucket with count and sum, cps how many calls there were in each of the last periods, linkfail the failures and successes in a row and the status of each address, which changes exactly at the given number in a row, when the callback is called once with the address and labels. '
              'Values with labels are counted for these labels alone, and in the totals asked for; every row is internal exactly if the metric is, and has the time of the last update if asked for. Values reported by several threads at once, and read meanwhile, are all counted, once; windows never grow.',
    over=['histories', 'schedules'], text='7 types in 17 configurations, histories of 3 (4) operations and random ones of 25 with 3 labels; 9 concurrent programs', why='tests give one or two values in one thread, and read them at once',
    files=['satella/instrumentation/metrics/metric_types/' + x for x in ('base.py', 'counter.py', 'simple.py', 'summary.py', 'histogram.py', 'cps.py', 'linkfail.py')] + ['satella/coding/transforms/percentile.py'],
    mech=[('labels', 'base.py EmbeddedSubmetrics'), ('windows', 'summary.py, cps.py'), ('links', 'linkfail.py')], note='what happens with values without labels of a metric that has labels is as it was found in the code; interpretation of a click exactly at the border of a period is free')
