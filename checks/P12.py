import importlib
import time
import weakref

from vt import Part

PARTS = [
    Part('expiring', 'Expiring', 'E', depth=(4, 5), shards=(2, 6), max_paths=(2500, 20000)),
    Part('shared', 'Expiring', 'F', mode='lin', design=False, shards=(2, 6)),
    Part('cleaning', 'Expiring', 'D', depth=(4, 5), shards=(2, 4), max_paths=(1500, 20000)),
]
KEYS = [None, 0, 'a', (1, 2), 2.5]


def O(op, *a):
    return dict(op=op, a=list(a))


def module():
    import satella.coding.structures.dictionaries.expiring as ex
    return importlib.reload(ex)  # a fresh background thread


class V:
    def __init__(self, n):
        self.n = n


class Ed:
    def __init__(self, cfg):
        ex = module()
        kw = {}
        t0 = time.monotonic()
        self.tg = time.monotonic
        self.t0 = t0
        if cfg.get('zero'):
            self.t0 = 0
            self.tg = kw['time_getter'] = lambda: round(time.monotonic() - t0, 4)
        if cfg.get('ext'):
            kw['external_cleanup'] = True
        self.ex = ex
        # there are others being cleaned in background; the first one ceases to exist
        others = [ex.ExpiringEntryDict(1, external_cleanup=True) for _ in range(2 if cfg.get('ext') else 0)]
        self.w = {}
        init = {KEYS[k]: self.v(k, 10 + k) for k in range(1, cfg.get('init', 0) + 1)}
        self.d = ex.ExpiringEntryDict(cfg['to'] / 1000, *([init] if init else []), **kw)
        self.others = others[1:]

    def v(self, k, n):
        x = V(n)
        self.w.setdefault(k, []).append(weakref.ref(x))
        return x

    def op_set(self, k, v):
        self.d[KEYS[k]] = self.v(k, v)

    def op_get(self, k):
        return self.d[KEYS[k]].n

    def op_getd(self, k):
        r = self.d.get(KEYS[k], -5)
        return r if r == -5 else r.n

    def op_in(self, k):
        return KEYS[k] in self.d

    def op_del(self, k):
        del self.d[KEYS[k]]

    def op_len(self):
        return len(self.d)

    def op_keys(self):
        return sorted(KEYS.index(x) for x in self.d)

    def op_items(self):
        return sorted([KEYS.index(x), v.n] for x, v in list(self.d.items()))

    def op_pop(self, k):
        return self.d.pop(KEYS[k]).n

    def op_popd(self, k):
        r = self.d.pop(KEYS[k], -6)
        return r if r == -6 else r.n

    def op_setdefault(self, k, v):
        return self.d.setdefault(KEYS[k], self.v(k, v)).n

    def op_update(self, q):
        self.d.update({KEYS[k]: self.v(k, v) for k, v in q})

    def op_clear(self):
        return self.d.clear()

    def op_ts(self, k):
        return int(round((self.d.get_timestamp(KEYS[k]) - self.t0) * 1000))

    def op_held(self):
        return sorted(k for k, q in self.w.items() if any(r() is not None for r in q))

    def op_sleep(self, t):
        time.sleep(t / 1000)


def gen_expiring(w):
    cfgs = [dict(to=1025, zero=False, ext=False), dict(to=1025, zero=True, ext=True)]
    w.replay_spec(Ed, cfgs, [O('items'), O('held'), O('sleep', 5100), O('held'), O('in', 1), O('len')], clock=True)
    r = w.rng
    for _ in range(w.n(500, 8000)):
        cfg = dict(to=r.choice([525, 1025, 6025]), zero=r.random() < 0.5, ext=r.random() < 0.4, init=r.choice([0, 0, 1, 4]))
        ops = []
        for _ in range(r.randint(4, 25)):
            k = r.randint(1, 4)
            ops.append(r.choice([lambda: O('set', k, r.randint(1, 9)), lambda: O('set', k, r.randint(1, 9)), lambda: O('get', k), lambda: O('getd', k), lambda: O('in', k), lambda: O('del', k), lambda: O('len'),
                                 lambda: O('keys'), lambda: O('items'), lambda: O('pop', k), lambda: O('popd', k), lambda: O('setdefault', k, r.randint(1, 9)),
                                 lambda: O('update', [[j, r.randint(1, 9)] for j in r.sample([1, 2, 3, 4], r.randint(0, 3))]), lambda: O('clear') if r.random() < 0.3 else O('ts', k),
                                 lambda: O('ts', k), lambda: O('held'), lambda: O('sleep', r.choice([50, 300, 600, 1200, 5100])), lambda: O('sleep', r.choice([50, 300, 600]))])())
        w.seq(cfg, ops + [O('held'), O('items'), O('len')], Ed, clock=True)


class Sh(Ed):
    def op_more(self):
        self.e = self.ex.ExpiringEntryDict(0.1, external_cleanup=True)
        self.e['a'] = self.v(1, 5)
        self.w = {7: self.w[1][-1:]}

    def op_moreheld(self):
        return sorted(k for k, q in self.w.items() if any(r() is not None for r in q))

    def finish(self):
        self.d = self.others = self.e = None


def gen_shared(w):
    r = w.rng
    progs = [[[O('get', 1)], [O('len')]], [[O('in', 1)], [O('len')]], [[O('in', 1)], [O('get', 1)]], [[O('set', 1, 7), O('get', 1)], [O('len'), O('in', 1)]], [[O('del', 1)], [O('in', 1), O('set', 1, 4)]],
             [[O('set', 1, 5)], [O('set', 2, 6)], [O('len')]], [[O('in', 1)], [O('set', 1, 7), O('get', 1)]], [[O('get', 1)], [O('set', 1, 7), O('in', 1)]], [[O('in', 1)], [O('in', 1)], [O('in', 2)]]]
    su = [O('set', 1, 3), O('set', 2, 4)]
    n = 0
    for p in progs:
        for exp in (False, True):
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(dict(to=1025, exp=False), p, Sh, setup=su + ([O('sleep', 1100)] if exp else []), final=[O('len'), O('get', 1)], bound=1, budget=60 if w.quick() else 1500, rnd=20 if w.quick() else 500,
                      padv=0)
    # a dictionary comes when the background thread is just cleaning
    if w.shard == 0:
        w.lin(dict(to=1025, exp=False, ext=True), [[O('sleep', 5000), O('more'), O('sleep', 11000)]], Sh, final=[O('moreheld')], bound=2, budget=150 if w.quick() else 2000,
              rnd=30 if w.quick() else 500, padv=0)
    for _ in range(w.n(16, 400)):
        exp = r.random() < 0.5
        p = [[r.choice([O('get', 1), O('in', 1), O('in', 2), O('set', 1, 3), O('del', 1), O('len')] + [O('sleep', 1100)] * exp) for _ in range(r.randint(1, 3))] for _ in range(2)]
        w.lin(dict(to=1025 if exp else 10 ** 7, exp=exp, ext=exp), p, Sh, setup=su, final=[O('len')], bound=1, budget=10 if w.quick() else 100, rnd=15 if w.quick() else 150, padv=0.02 if exp else 0)


class L(list):
    pass


class Sc:
    known = (IndexError,)

    def __init__(self, cfg):
        ex = module()
        self.cfg = cfg
        self.w = {}
        n = cfg.get('init', 0)
        init = {k: self.t(k, L([1] * (n - k))) for k in range(1, n + 1)}
        if cfg.get('kwl'):
            init = list(init.items())
        self.d = ex.SelfCleaningDefaultDict(L, cfg['bg'], *([init] if init else []))

    def t(self, k, x):
        if all(y() is not x for y in self.w.setdefault(k, [])):
            self.w[k].append(weakref.ref(x))
        return x

    def op_get(self, k):
        return len(self.t(k, self.d[k]))

    def op_app(self, k):
        self.t(k, self.d[k]).append(1)

    def op_cut(self, k):
        self.t(k, self.d[k]).pop()

    def op_set(self, k, n):
        self.d[k] = self.t(k, L([1] * n))

    def op_del(self, k):
        del self.d[k]

    def op_in(self, k):
        return k in self.d

    def op_len(self):
        return len(self.d)

    def op_items(self):
        with self.d:
            return sorted([k, len(self.d[k])] for k in list(self.d))

    op_held = Ed.op_held
    op_sleep = Ed.op_sleep


def gen_cleaning(w):
    cfgs = [dict(bg=False), dict(bg=True)]
    w.replay_spec(Sc, cfgs, [O('held'), O('sleep', 5100), O('held'), O('items'), O('get', 1), O('len')], clock=True)
    r = w.rng
    for _ in range(w.n(300, 6000)):
        ops = []
        for _ in range(r.randint(4, 20)):
            k = r.randint(1, 3)
            ops.append(r.choice([lambda: O('get', k), lambda: O('app', k), lambda: O('cut', k), lambda: O('set', k, r.randint(0, 3)), lambda: O('set', k, r.randint(1, 3)), lambda: O('del', k), lambda: O('in', k),
                                 lambda: O('len'), lambda: O('items'), lambda: O('held'), lambda: O('sleep', r.choice([100, 2000, 5100]))])())
        w.seq(dict(r.choice(cfgs), init=r.choice([0, 0, 2, 3]), kwl=r.random() < 0.5), ops + [O('held'), O('items'), O('len')], Sc, clock=True)


PROP = dict(
    title='Expiring and self-cleaning dictionaries show exactly the valid entries',
    statement='An ExpiringEntryDict behaves as a dict whose entries vanish expiration_timeout after they were last set (by time_getter): get, in, len, iteration, del, pop, setdefault, update, clear and get_timestamp never show an expired entry nor hide a valid one, '
              'raise nothing but KeyError, in any order of calls and from many threads. With external_cleanup the memory of expired entries is released within 5 seconds. A SelfCleaningDefaultDict gives a default for missing keys, stores it only without background '
              'maintenance, and never shows, by len, in or iteration, an entry that equals the default; all other entries stay, and background maintenance drops the default ones within 5 seconds.',
    over=['histories', 'schedules', 'inputs'], text='all histories up to a depth with passage of time, sampled long ones; interleavings of threads with bounded preemptions',
    why='what is visible depends on the order of expirations and removals through different methods; tests sample two sleeps',
    files=['satella/coding/structures/dictionaries/expiring.py'],
    mech=[('expiration', 'expiring.py ExpiringEntryDict.__getitem__, __contains__, cleanup'), ('self-cleaning', 'expiring.py SelfCleaningDefaultDict'), ('background thread', 'expiring.py ExpiringEntryDictThread')],
    note='behaviour exactly at the instant of expiration, and a None key, are not checked')
