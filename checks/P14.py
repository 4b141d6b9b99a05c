from vt import Part

PARTS = [
    Part('twoway', 'Dicts', 'T', depth=(4, 5), shards=(1, 4), max_paths=(4000, 40000)),
    Part('dirty', 'Dicts', 'Y', depth=(4, 6), shards=(1, 2)),
    Part('keyaware', 'Dicts', 'K', depth=(4, 6), shards=(1, 1)),
    Part('default', 'Dicts', 'D', depth=(4, 6), shards=(1, 1)),
    Part('counting', 'Dicts', 'N', depth=(4, 6), shards=(1, 1)),
    Part('view', 'Dicts', 'V', depth=(3, 5), shards=(1, 4), max_paths=(4000, 40000)),
    Part('object', 'Dicts', 'J', depth=(4, 6), shards=(1, 2)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


ODD = {1: None, 2: 0, 3: '', 4: (), 5: 0.5}
BACK = {v: k for k, v in ODD.items()}


def odd(x):
    return ODD.get(x, x)


def back(x):
    return BACK.get(x, x)


def oitems(d):
    return sorted([back(k), back(v)] for k, v in d.items())


def items(d):
    return sorted([k, v] for k, v in d.items())


class Twd:
    def __init__(self, cfg):
        from satella.coding.structures import TwoWayDictionary
        self.C = TwoWayDictionary
        self.d = self.C()

    def side(self, s):
        return self.d if s == 'f' else self.d.reverse

    def op_new(self, q):
        self.d = self.C([tuple(x) for x in q])

    def op_get(self, s, k):
        return self.side(s)[k]

    def op_in(self, s, k):
        return k in self.side(s)

    def op_set(self, s, k, v):
        self.side(s)[k] = v

    def op_del(self, s, k):
        del self.side(s)[k]

    def op_pop(self, s, k):
        return self.side(s).pop(k)

    def op_sdef(self, s, k, v):
        return self.side(s).setdefault(k, v)

    def op_upd(self, s, q):
        self.side(s).update([tuple(x) for x in q])

    def op_clear(self, s):
        self.side(s).clear()

    def op_items(self, s):
        assert self.d.reverse.reverse is self.d
        assert [k for k in self.side(s)] == list(self.side(s).keys())
        return items(self.side(s))

    def op_len(self, s):
        return len(self.side(s))

    def op_done(self):
        """the dictionaries do not keep each other alive any more"""
        import gc
        import weakref
        with self.d as d:
            r = [list(d.data), list(d.reverse_data)]
        gc.disable()
        try:
            class W(dict):
                pass
            d.data = W(d.data)
            x = weakref.ref(d.data)
            del d
            self.d = None
            return x() is None
        finally:
            gc.enable()


class OTwd(Twd):
    def op_new(self, q):
        super().op_new([[odd(a), odd(b)] for a, b in q])

    def op_get(self, s, k):
        return back(super().op_get(s, odd(k)))

    def op_in(self, s, k):
        return super().op_in(s, odd(k))

    def op_set(self, s, k, v):
        return super().op_set(s, odd(k), odd(v))

    def op_del(self, s, k):
        return super().op_del(s, odd(k))

    def op_pop(self, s, k):
        return back(super().op_pop(s, odd(k)))

    def op_sdef(self, s, k, v):
        return back(super().op_sdef(s, odd(k), odd(v)))

    def op_upd(self, s, q):
        return super().op_upd(s, [[odd(a), odd(b)] for a, b in q])

    def op_items(self, s):
        return oitems(self.side(s))


TFIN = [O('items', 'f'), O('items', 'r'), O('len', 'f'), O('len', 'r')]


def gen_twoway(w):
    for k, q in w.seqs:
        done = any(o['op'] == 'done' for o in q)
        w.seq(dict(z=0), q + ([] if done else TFIN), Twd)
        w.add('spec_behaviours_replayed')
    r = w.rng
    for _ in range(w.n(400, 8000)):
        ops = []
        for _ in range(r.randint(3, 25)):
            s, k, v = r.choice('fr'), r.randint(1, 5), r.randint(1, 5)
            ops.append(r.choice([lambda: O('set', s, k, v), lambda: O('set', s, k, v), lambda: O('set', s, k, v), lambda: O('get', s, k), lambda: O('in', s, k), lambda: O('del', s, k), lambda: O('pop', s, k), lambda: O('sdef', s, k, v),
                                 lambda: O('upd', s, [[r.randint(1, 5), r.randint(1, 5)] for _ in range(r.randint(0, 3))]), lambda: O('items', s), lambda: O('len', s),
                                 lambda: O('clear', s) if r.random() < 0.2 else O('len', s), lambda: O('new', [[r.randint(1, 5), r.randint(1, 9)] for _ in range(r.randint(0, 4))]) if r.random() < 0.2 else O('items', s)])())
        w.seq(dict(z=0), ops + TFIN + ([O('done')] if r.random() < 0.2 else []), r.choice([Twd, Twd, OTwd]))


class Dd:
    def __init__(self, cfg):
        from satella.coding.structures import DirtyDict
        self.C = DirtyDict
        self.d = DirtyDict()
        self.keep = []

    def op_new(self, v):
        self.d = self.C({1: v})

    def op_set(self, k, v):
        self.d[k] = v

    def op_del(self, k):
        del self.d[k]

    def op_pop(self, k):
        return self.d.pop(k)

    def op_popd(self, k):
        return self.d.pop(k, -1)

    def op_sdef(self, k, v):
        return self.d.setdefault(k, v)

    def op_upd(self, k, v, k2, v2):
        self.d.update([(k, v), (k2, v2)])

    def op_get(self, k):
        return self.d[k]

    def op_in(self, k):
        return k in self.d

    def op_dirty(self, z=0):
        return self.d.dirty

    def op_items(self, z=0):
        return items(self.d)

    def op_len(self, z=0):
        return len(self.d)

    def op_bool(self, z=0):
        return bool(self.d)

    def op_clean(self, z=0):
        return self.d.clear_dirty()

    def op_clear(self, z=0):
        return self.d.clear()

    def op_swap(self, z=0):
        x = self.d.swap_and_clear_dirty()
        assert type(x) is dict
        r = items(x)
        x[99] = 99
        return r

    def op_cclean(self, z=0):
        x = self.d.copy_and_clear_dirty()
        assert type(x) is dict
        r = items(x)
        x[99] = 99
        x.pop(1, None)
        return r

    def op_copy(self, z=0):
        import copy
        o = self.d
        self.d = copy.copy(o)
        o[98] = 1
        o.dirty = not o.dirty


class ODd(Dd):
    def op_new(self, v):
        self.d = self.C({odd(1): odd(v)})

    def op_set(self, k, v):
        self.d[odd(k)] = odd(v)

    def op_del(self, k):
        del self.d[odd(k)]

    def op_pop(self, k):
        return back(self.d.pop(odd(k)))

    def op_popd(self, k):
        return back(self.d.pop(odd(k), -1))

    def op_sdef(self, k, v):
        return back(self.d.setdefault(odd(k), odd(v)))

    def op_upd(self, k, v, k2, v2):
        self.d.update([(odd(k), odd(v)), (odd(k2), odd(v2))])

    def op_get(self, k):
        return back(self.d[odd(k)])

    def op_in(self, k):
        return odd(k) in self.d

    def op_items(self, z=0):
        return oitems(self.d)

    def op_swap(self, z=0):
        return oitems(self.d.swap_and_clear_dirty())

    def op_cclean(self, z=0):
        return oitems(self.d.copy_and_clear_dirty())


DFIN = [O('dirty'), O('items'), O('len'), O('bool')]
DFIN = [dict(o, a=[0]) for o in DFIN]


def gen_dirty(w):
    w.replay_spec(Dd, [dict(z=0)], DFIN)
    r = w.rng
    for _ in range(w.n(300, 6000)):
        ops = []
        for _ in range(r.randint(3, 25)):
            k, v = r.randint(1, 3), r.randint(1, 2)
            ops.append(r.choice([O('set', k, v), O('set', k, v), O('set', k, v), O('del', k), O('pop', k), O('popd', k), O('sdef', k, v), O('upd', k, v, r.randint(1, 3), r.randint(1, 2)), O('get', k), O('in', k), O('dirty', 0), O('dirty', 0),
                                 O('items', 0), O('clean', 0), O('clean', 0), O('clear', 0), O('swap', 0), O('cclean', 0), O('copy', 0)]))
        w.seq(dict(z=0), ops + DFIN, r.choice([Dd, Dd, ODd]))


class Ka:
    def __init__(self, cfg):
        self.b = {10: None, 20: 0} if cfg.get('odd') else {}
        from satella.coding.structures import KeyAwareDefaultDict
        self.n = 0

        def f(k):
            self.n += 1
            if k == 3:
                raise ValueError()
            return self.b.get(10 * k, 10 * k)
        self.d = KeyAwareDefaultDict(f)

    def out(self, v):
        return next((a for a, x in self.b.items() if x is v), v)

    def op_get(self, k):
        return self.out(self.d[k])

    def op_set(self, k, v):
        self.d[k] = v

    def op_del(self, k):
        del self.d[k]

    def op_in(self, k):
        return k in self.d

    def op_items(self, z=0):
        return sorted([k, self.out(v)] for k, v in self.d.items())

    def op_len(self, z=0):
        return len(self.d)

    def op_calls(self, z=0):
        return self.n


KFIN = [O('items', 0), O('len', 0), O('calls', 0), O('in', 1), O('in', 3), O('items', 0), O('calls', 0)]


def gen_keyaware(w):
    w.replay_spec(Ka, [dict(z=0)], KFIN)
    r = w.rng
    for _ in range(w.n(150, 2000)):
        ops = [r.choice([O('get', k), O('get', k), O('set', k, r.randint(1, 4)), O('del', k), O('in', k), O('items', 0), O('calls', 0)]) for k in [r.randint(1, 4) for _ in range(r.randint(3, 20))]]
        w.seq(dict(odd=r.random() < 0.4), ops + KFIN, Ka)


class De:
    def __init__(self, cfg):
        from satella.coding.structures import DefaultDict
        self.n = 0

        def f():
            self.n += 1
            return []
        self.d = DefaultDict(f)

    def op_get(self, k):
        return len(self.d[k])

    def op_app(self, k):
        self.d[k].append(1)

    def op_set(self, k, v):
        self.d[k] = [1] * v

    def op_del(self, k):
        del self.d[k]

    def op_in(self, k):
        return k in self.d

    def op_items(self, z=0):
        return sorted([k, len(v)] for k, v in self.d.items())

    def op_len(self, z=0):
        return len(self.d)

    def op_calls(self, z=0):
        return self.n


def gen_default(w):
    w.replay_spec(De, [dict(z=0)], KFIN)
    r = w.rng
    for _ in range(w.n(150, 2000)):
        ops = [r.choice([O('get', k), O('get', k), O('app', k), O('set', k, r.randint(0, 4)), O('del', k), O('in', k), O('items', 0), O('calls', 0)]) for k in [r.randint(1, 4) for _ in range(r.randint(3, 20))]]
        w.seq(dict(z=0), ops + KFIN, De)


class Cd:
    def __init__(self, cfg):
        from satella.coding.structures import CountingDict
        self.C = CountingDict
        self.d = CountingDict()

    def op_new(self, q):
        self.d = self.C(q)

    def op_count(self, k):
        return self.d.count(k)

    def op_countn(self, k, n):
        return self.d.count(k, n)

    def op_clear(self):
        return self.d.clear()

    def op_get(self, k):
        return self.d[k]

    def op_items(self):
        return items(self.d)

    def op_keys(self):
        assert sorted(self.d) == sorted(self.d.keys())
        return sorted(self.d.keys())

    def op_vals(self):
        return sorted(self.d.values())

    def op_in(self, k):
        return k in self.d

    def op_len(self):
        return len(self.d)

    def op_bool(self):
        return bool(self.d)


NFIN = [O('items'), O('keys'), O('vals'), O('len'), O('bool'), O('in', 1), O('get', 2), O('get', 1)]


def gen_counting(w):
    w.replay_spec(Cd, [dict(z=0)], NFIN)
    r = w.rng
    for _ in range(w.n(150, 2000)):
        ops = []
        for _ in range(r.randint(2, 15)):
            k = r.randint(1, 4)
            ops.append(r.choice([lambda: O('count', k), lambda: O('countn', k, r.randint(-3, 9)), lambda: O('get', k), lambda: O('in', k), lambda: O('items'), lambda: O('new', [r.randint(1, 4) for _ in range(r.randint(0, 6))]),
                                 lambda: O('clear') if r.random() < 0.3 else O('len')])())
        w.seq(dict(z=0), ops + NFIN, Cd)


class Vw:
    def __init__(self, cfg):
        import warnings
        from satella.coding.structures import DictionaryView
        warnings.simplefilter('ignore')
        self.ds = [{1: 11, 2: 12}, {2: 22, 3: 23}, {3: 33, 1: 31, 4: 34}]
        self.v = DictionaryView(*self.ds, propagate_deletes=cfg['prop'], assign_to_same_dict=cfg['same'])
        self.o = None

    def op_get(self, k):
        return self.v[k]

    def op_in(self, k):
        return k in self.v

    def op_set(self, k, v):
        self.v[k] = v

    def op_del(self, k):
        del self.v[k]

    def op_iter(self, z=0):
        return list(self.v)

    def op_len(self, z=0):
        return len(self.v)

    def op_under(self, z=0):
        return [list(x.items()) for x in self.ds]

    def op_copy(self, z=0):
        import copy
        self.v = copy.copy(self.v)

    def op_deep(self, z=0):
        import copy
        self.o = self.ds
        self.v = copy.deepcopy(self.v)
        self.ds = self.v.dictionaries

    def op_orig(self, z=0):
        return self.o and [list(x.items()) for x in self.o]


VFIN = [O('under', 0), O('orig', 0), O('iter', 0), O('len', 0), O('get', 1), O('get', 3), O('in', 2), O('in', 9)]


def gen_view(w):
    cfgs = [dict(prop=a, same=b) for b in (True, False) for a in (True, False)]
    w.replay_spec(Vw, cfgs, VFIN)
    r = w.rng
    for _ in range(w.n(200, 4000)):
        ops = [r.choice([O('get', k), O('in', k), O('set', k, r.randint(1, 9)), O('set', k, r.randint(1, 9)), O('del', k), O('del', k), O('iter', 0), O('len', 0), O('under', 0), O('copy', 0), O('deep', 0), O('orig', 0)])
               for k in [r.randint(1, 6) for _ in range(r.randint(3, 20))]]
        w.seq(r.choice(cfgs), ops + VFIN, Vw)


class Ob:
    def __init__(self, cfg):
        from satella.coding.structures import DictObject
        self.C = DictObject
        self.d = DictObject()
        self.o = DictObject()

    def op_sat(self, k, n):
        setattr(self.d, k, [1] * n)

    def op_sit(self, k, n):
        self.d[k] = [1] * n

    def op_gat(self, k):
        return len(getattr(self.d, k))

    def op_git(self, k):
        return len(self.d[k])

    def op_hat(self, k):
        assert hasattr(self.d, k) == (k in self.d)
        return hasattr(self.d, k)

    def op_dat(self, k):
        delattr(self.d, k)

    def op_dit(self, k):
        del self.d[k]

    def op_mut(self, k):
        getattr(self.d, k).append(1)

    def its(self, d):
        return sorted([k, len(v)] for k, v in d.items())

    def op_items(self, z=0):
        return self.its(self.d)

    def op_orig(self, z=0):
        return self.its(self.o)

    def op_copy(self, z=0):
        import copy
        self.o = self.d
        self.d = copy.copy(self.o)
        return type(self.d) is self.C and self.d is not self.o and self.d == self.o

    def op_deep(self, z=0):
        import copy
        self.o = self.d
        self.d = copy.deepcopy(self.o)
        return type(self.d) is self.C and self.d is not self.o and self.d == self.o

    def op_apply(self, k, x):
        """every dictionary in the structure, and in its lists, becomes a DictObject"""
        from satella.coding.structures import apply_dict_object

        def make(x):
            return {k: make(v) for k, v in x[1]} if x[0] == 'd' else [make(v) for v in x[1]] if x[0] == 'l' else x[1]

        def tell(x):
            if isinstance(x, dict):
                return ['D' if type(x) is self.C else 'd', [[k, tell(x[k])] for k in sorted(x)]]
            return ['l', [tell(v) for v in x]] if type(x) is list else ['i', x]
        m = make(x)
        y = apply_dict_object(m)
        assert tell(m) == tell(make(x))
        return tell(y)

    def op_wrap(self, z=0):
        return self.C(self.d) is self.d


def gen_object(w):
    fin = [O('items', ''), O('orig', ''), O('gat', 'a'), O('git', 'b'), O('hat', 'b')]
    w.replay_spec(Ob, [dict(z=0)], fin)
    r = w.rng

    def st(n):
        k = r.choice('dl' if n == 3 else 'ddlli') if n else 'i'
        return ['i', r.randint(0, 9)] if k == 'i' else ['l', [st(n - 1) for _ in range(r.randint(0, 3))]] if k == 'l' else ['d', [[x, st(n - 1)] for x in sorted(r.sample('abc', r.randint(0, 2)))]]
    for _ in range(w.n(30, 600)):
        w.seq(dict(z=0), [O('apply', '', st(3)) for _ in range(4)], Ob)
    for _ in range(w.n(200, 3000)):
        ops = [r.choice([O('sat', k, r.randint(0, 4)), O('sit', k, r.randint(0, 4)), O('gat', k), O('git', k), O('hat', k), O('dat', k), O('dit', k), O('mut', k), O('mut', k), O('items', ''), O('orig', ''), O('copy', ''), O('deep', ''), O('wrap', '')])
               for k in [r.choice(['a', 'b', 'items_', 'keys_']) for _ in range(r.randint(3, 20))]]
        w.seq(dict(z=0), ops + fin, Ob)


PROP = dict(
    title='Dictionary variants keep their mapping laws over every history of calls',
    statement='TwoWayDictionary keeps key to value one to one and .reverse is its inverse at every moment, whichever side is written: a write that would give one value two keys raises ValueError and changes nothing, writing a pair already there is allowed, and done() breaks the reference cycle. '
              'DirtyDict is dirty iff its contents changed since the flag was cleared; swap/copy_and_clear_dirty answer the contents as an independent plain dict; copies keep contents and flag. KeyAwareDefaultDict computes and stores a default only when a missing key is read; '
              'DefaultDict never stores the defaults it generates. CountingDict counts. DictionaryView reads the first dictionary that has the key, writes and deletes where assign_to_same_dict and propagate_deletes say, iterates each key once, and copies keep these settings. '
              'DictObject is a dict whose string keys are also attributes (missing: AttributeError), copy is shallow and deepcopy deep.',
    over=['histories', 'inputs'], text='all histories of operations up to a depth over small keys and values; sampled long ones',
    why='the invariants must hold after every sequence of writes through either side; tests sample a few',
    files=['satella/coding/structures/dictionaries/objects.py', 'satella/coding/structures/dictionaries/counting.py', 'satella/coding/structures/dictionaries/default.py', 'satella/coding/structures/dictionaries/dict_object.py'],
    mech=[('two way', 'objects.py TwoWayDictionary'), ('dirty flag', 'objects.py DirtyDict'), ('views', 'objects.py DictionaryView'), ('attributes', 'dict_object.py DictObject'), ('defaults', 'objects.py KeyAwareDefaultDict; default.py; counting.py')],
    note='KeyAwareDefaultDict.get/pop/setdefault of a missing key are not checked; non-injective update() keeps the pairs written before the offending one')
