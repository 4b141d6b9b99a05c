import time

from vt import Part

PARTS = [
    Part('group', 'Callbacks', 'G', depth=(4, 5), shards=(2, 4), max_paths=(6000, 40000)),
    Part('rate', 'Callbacks', 'R', depth=(5, 7), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Group:
    known = (ValueError,)

    def __init__(self, cfg):
        from satella.coding.concurrent import CallableGroup
        self.g = CallableGroup(gather=cfg['gather'], swallow_exceptions=cfg['swallow'])
        self.h = {}
        self.log = []
        self.n = 0
        self.direct = False

    def op_add(self, kind, one):
        self.n += 1
        i = self.n

        def f(x, sink=None):
            self.log.append(i)
            if kind == 'raise':
                raise ValueError()
            if kind == 'adder' and not self.direct:
                self.op_add('ok', False)
            if kind == 'cnext' and not self.direct and i + 1 in self.h:
                self.h[i + 1].cancel()
            return 10 * i + x
        self.h[i] = self.g.add(f, one_shot=one) if one else self.g.add(f)
        return i

    def op_again(self, i, one):
        if i not in self.h:
            return 'none'
        if (self.g.add(self.h[i], one) if one else self.g.add(self.h[i])) is not self.h[i]:
            return 'other'

    def op_cancel(self, i):
        if i in self.h:
            self.h[i].cancel()

    def op_has_cancelled(self):
        return self.g.has_cancelled_callbacks

    def op_remove_cancelled(self):
        return self.g.remove_cancelled()

    def op_truth(self, i):
        return bool(self.h[i])

    def op_call(self, x):
        return self.g(x)

    def op_log(self):
        r, self.log = self.log, []
        return r

    def op_direct(self, i):
        if i not in self.h:
            return 'none'
        old = list(self.log)
        self.direct = True
        try:
            r = self.h[i](0)
        except ValueError:
            r = 1
        self.log = old
        self.direct = False
        return None if r is None else 'called'


class Rate:
    def __init__(self, cfg):
        from satella.coding.concurrent import CallNoOftenThan
        self.n = 0
        self.c = CallNoOftenThan(cfg['iv'] / 1000, self.f)

    def f(self, x, d=0):
        self.n += 1
        time.sleep(d / 1000)
        return x * 2

    def op_call(self, x, d):
        return self.c(x, d=d)

    def op_tick(self, d):
        time.sleep(d / 1000)

    def op_count(self):
        return self.n


GC = [dict(gather=True, swallow=False), dict(gather=True, swallow=True), dict(gather=False, swallow=False), dict(gather=False, swallow=True)]


def gen_group(w):
    fin = [O('log'), O('call', 2), O('log'), O('call', 3), O('log'), O('has_cancelled')]
    w.replay_spec(Group, GC, fin)
    r = w.rng
    for _ in range(w.n(300, 5000)):
        ops = []
        for _ in range(r.randint(4, 16)):
            ops.append(r.choice([lambda: O('add', r.choice(['ok', 'ok', 'raise', 'adder', 'cnext']), r.random() < 0.4), lambda: O('cancel', r.randint(1, 6)),
                                 lambda: O('call', r.randint(0, 9)), lambda: O('has_cancelled'), lambda: O('remove_cancelled'), lambda: O('log'),
                                 lambda: O('direct', r.randint(1, 6)), lambda: O('again', r.randint(1, 5), r.random() < 0.5)])())
        w.seq(r.choice(GC), ops + fin, Group)
    for c in GC:
        w.seq(c, [O('add', 'ok', False), O('again', 1, True), O('call', 1), O('again', 1, False), O('call', 1), O('log')], Group)


def gen_rate(w):
    w.replay_spec(Rate, [dict(iv=1000), dict(iv=2500), dict(iv=10000000)], [O('count')])


PROP = dict(
    title='Callable groups call every live callback once per call, and lose none',
    statement='Calling a callable group calls, in order of registration and with the given arguments, every registered callback that was not cancelled; afterwards '
              'exactly the cancelled ones and the one-shots that were called are unregistered, also when a callback raises (the exception is propagated, or takes its place among the results if swallowing) '
              'or registers further callbacks. A cancelled callback is never called, is false in a boolean context and is reported as cancelled by the group. A rate-limited callable calls through iff its interval '
              'has elapsed since the end of the previous call, giving back the result, and gives None otherwise.',
    over=['histories', 'configurations'], text='all histories of add (plain, one-shot, raising, registering more), cancel, call, cleanup, for every gather/swallow setting',
    why='the tests call groups once or twice in one configuration; the state left behind by a raising or one-shot callback in longer histories is not covered',
    files=['satella/coding/concurrent/callablegroup.py'],
    mech=[('calling and unregistering', 'callablegroup.py CallableGroup.__call__'), ('cancelling', 'callablegroup.py CancellableCallback'),
          ('rate limit', 'callablegroup.py CallNoOftenThan')],
    note='all histories up to a bound over up to three callbacks are explored and replayed, longer ones sampled')
