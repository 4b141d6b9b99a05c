import bisect
import math
import time
import warnings

from vt import Part

PARTS = [
    Part('series', 'Series', 'D', depth=(5, 7), shards=(2, 6)),
    Part('shared', 'Series', 'D', mode='lin', design=False, shards=(2, 6)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


def storage():
    from satella.coding.structures import DBStorage

    class It:
        def __init__(self, db, q):
            self.db, self.q, self.open = db, iter(q), True
            db.opened += 1

        def __iter__(self):
            return self

        def __next__(self):
            time.sleep(0)
            return next(self.q)

        def close(self):
            if self.open:
                self.open = False
                self.db.opened -= 1

    class Db(DBStorage):
        def __init__(self):
            self.d = {}
            self.opened = 0
            self.start = self.stop = self.sy = None
            self.left = 10 ** 9          # how many more it will store before failing
            self.series = None

        def known(self, v):
            m = [] if self.series is None else list(self.series.data_in_memory)
            if v is None:
                assert not self.d and not m, 'told that there is nothing'
            else:
                assert v in self.d or any(k == v for k, _ in m), 'told of a key which is not there'

        def put(self, k, v):
            time.sleep(0)
            assert k not in self.d, 'stored twice'
            self.left -= 1
            if self.left < 0:
                raise OSError()
            self.d[k] = v

        def delete(self, k):
            del self.d[k]

        def iterate(self, k):
            return It(self, [(q, self.d[q]) for q in sorted(self.d) if k is None or q >= k])

        def on_change_start_entry(self, v):
            self.known(v)
            self.start = v

        def on_change_stop_entry(self, v):
            self.known(v)
            self.stop = v

        def on_change_synced_up_to(self, v):
            self.sy = v
    return Db()


class Se:
    known = (OSError,)

    def __init__(self, cfg):
        self.cfg = cfg
        self.db = storage()
        self.make()

    def make(self):
        from satella.coding.structures import SyncableDroppable
        self.s = SyncableDroppable(self.db, self.db.start, self.db.stop, self.db.sy, self.cfg['sm'], self.cfg['sd'])
        self.db.series = self.s

    def closed(self, r=None):
        assert self.db.opened == 0, 'an iterator was left open'
        return r

    def op_new(self, k, v):
        self.s.on_new_data(k, v)

    def op_store(self):
        self.s.sync_to_db()

    def op_trimmem(self):
        self.s.cleanup_keep_in_memory()
        return self.closed()

    def failing(self, n, f):
        self.db.left = n
        try:
            f()
        finally:
            self.db.left = 10 ** 9

    def op_storefail(self, n):
        self.failing(n, self.s.sync_to_db)

    def op_trimfail(self, n):
        self.failing(n, self.s.cleanup_keep_in_memory)

    def op_trimdb(self):
        self.s.cleanup_keep_in_db()
        return self.closed()

    def op_archive(self, a, b):
        return self.closed([list(p) for p in self.s.get_archive(a, b)])

    def op_latest(self):
        return self.closed(list(self.s.get_latest_value()))

    def req(self, n):
        return self.closed([list(p) for p in (self.s.on_sync_request(n) if n else self.s.on_sync_request())])

    def op_request(self, n):
        return self.req(n)

    def op_synced(self, n):
        try:
            q = self.req(n)
        except ValueError:
            return
        if q:
            self.s.on_synced_up_to(q[-1][0])

    def op_restart(self):
        self.s.sync_to_db()
        self.make()

    def op_state(self):
        s, db = self.s, self.db
        assert (s.start_entry, s.stop_entry, s.synced_up_to) == (db.start, db.stop, db.sy), 'the callbacks were told something else'
        assert not set(db.d) & {k for k, v in s.data_in_memory}
        assert s.first_key_in_memory == (s.data_in_memory[0][0] if s.data_in_memory else None)
        return [s.start_entry, s.stop_entry, s.synced_up_to, [[k, db.d[k]] for k in sorted(db.d)], [list(p) for p in s.data_in_memory]]

    def op_whole(self):
        s, db = self.s, self.db
        return [[k, db.d[k]] for k in sorted(db.d)] + [list(p) for p in s.data_in_memory]


FIN = [O('state'), O('archive', 0, 99), O('archive', 2, 5), O('latest'), O('request', 0), O('request', 1), O('request', 2), O('request', 3), O('synced', 1), O('request', 2), O('state'), O('restart'), O('archive', 1, 9), O('request', 2), O('latest'), O('synced', 0), O('request', 0), O('state')]


def gen_series(w):
    w.replay_spec(Se, [dict(sm=3, sd=6)], FIN)
    r = w.rng
    for _ in range(w.n(300, 10000)):
        k, step = r.randint(0, 2), r.choice([4, 4, 9])
        ops = []
        for _ in range(r.randint(3, 25)):
            o = r.choice(['new'] * 6 + ['store', 'trimmem', 'trimmem', 'trimdb', 'archive', 'latest', 'request', 'synced', 'state', 'restart', 'storefail', 'trimfail'])
            if o == 'new':
                ops.append(O('new', k if r.random() < 0.9 else max(0, k - 3), r.randint(0, 9)))
                k += r.randint(1, step)
            elif o == 'archive':
                ops.append(O(o, r.randint(0, k), r.randint(0, k + 3)))
            elif o in ('request', 'synced', 'storefail', 'trimfail'):
                ops.append(O(o, r.randint(0, 5)))
            else:
                ops.append(O(o))
        w.seq(dict(sm=r.randint(1, 9), sd=r.randint(10, 25)) if r.random() < 0.7 else dict(sm=r.randint(1, 3), sd=r.randint(4, 9)), ops + FIN, Se)


def gen_shared(w):
    n = 0
    new = [O('new', k, k % 7) for k in (2, 4, 7, 11)]
    progs = [[new[2:], [O('store')]], [new[2:], [O('trimmem')]], [new[2:], [O('store'), O('latest')]], [[O('store')], [O('trimmem')], [O('new', 7, 0)]], [new[2:], [O('trimdb'), O('trimmem')]],
             [[O('new', 7, 1)], [O('new', 7, 2)]], [[O('new', 7, 1)], [O('latest')], [O('store')]], [[O('store')], [O('request', 2)]], [[O('trimmem'), O('new', 12, 1)], [O('request', 0)]], [[O('trimdb')], [O('request', 0)]]]
    for cfg in (dict(sm=3, sd=6), dict(sm=1, sd=4)):
        for p in progs:
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(cfg, p, Se, setup=new[:2], final=[O('whole'), O('state'), O('latest')], bound=2, budget=40 if w.quick() else 2000, rnd=20 if w.quick() else 500)


PROP = dict(
    title='A SyncableDroppable series loses and duplicates nothing, and syncs in order',
    statement='Keys are accepted in strictly rising order only. Every entry is in memory or in the database, never in both or none, whatever sequence of sync_to_db, cleanup_keep_in_memory (which moves to the database what is older than span_to_keep_in_memory before the latest key) and restarts from the database happens; cleanup_keep_in_db deletes from the database exactly what is '
              'older than span_to_keep_in_db. get_archive(start, stop) gives all the entries between the two, in order, once, wherever they are; get_latest_value the last one. on_sync_request(n) gives the first n entries after synced_up_to in order, and raises ValueError only if there are none. The callbacks are always told the actual start, stop and synced-up-to keys, '
              'and database iterators are closed. A failure of the database to store an entry is passed on, with the entries stored before it in the database only, and the rest in memory only. This holds also when threads add data, store and clean up at once.',
    over=['histories', 'schedules', 'fault_sequences'], text='all histories up to a depth, random longer ones, interleavings of up to 3 threads with bounded preemptions',
    why='where an entry is, and what is still to be synchronized, depends on the whole history', files=['satella/coding/structures/syncable_droppable.py'], mech=[('series', 'syncable_droppable.py SyncableDroppable')],
    note='get_archive, which is lazy, is not checked while other threads change the series; losing the memory in a crash is not modelled')
