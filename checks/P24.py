import time

from vt import Part

PARTS = [
    Part('pool', 'Pool', 'C', depth=(5, 7), shards=(2, 4)),
    Part('shared', 'Pool', 'C', mode='lin', design=False, shards=(2, 6)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Conn:
    def __init__(self, n):
        self.n, self.users, self.dead = n, 0, False


class Po:
    def __init__(self, cfg):
        from satella.coding.resources import CPManager
        outer = self
        self.made = 0
        self.torn = []
        self.all = {}
        self.failing = False

        class M(CPManager):
            def create_connection(self):
                if outer.failing:
                    raise OSError()
                time.sleep(0)
                outer.made += 1
                if outer.spare:
                    c = outer.spare.pop()             # an object is used again, so its identity is too
                    c.__init__(outer.made)
                else:
                    c = Conn(outer.made)
                outer.all[c.n] = c
                time.sleep(0)
                return c

            def teardown_connection(self, c):
                assert not c.dead, 'torn down twice'
                c.dead = True
                time.sleep(0)
                outer.torn.append(c.n)
                if cfg.get('reuse'):
                    outer.spare.append(c)
        self.spare = []
        self.m = M(cfg['max'], cfg['cycles'])

    def op_take(self):
        c = self.m.acquire_connection()
        assert c is self.all[c.n] and not c.dead and c.users == 0, 'a connection that is not free'
        c.users += 1
        return c.n

    def op_takefail(self):
        self.failing = True
        try:
            return self.op_take()
        finally:
            self.failing = False

    def op_give(self, n):
        c = self.all[n]
        assert not c.dead
        c.users -= 1
        self.m.release_connection(c)

    def op_fail(self, n):
        self.m.fail_connection(self.all[n])

    def op_invalidate(self):
        self.m.invalidate()

    def op_close(self):
        self.m.close()

    def op_torn(self):
        assert len(set(self.torn)) == len(self.torn)
        return sorted(self.torn)


def gen_pool(w):
    cfgs = [dict(max=1, cycles=2, seq=True), dict(max=2, cycles=3, seq=True)]
    for k, q in w.seqs:
        w.seq(dict(cfgs[k - 1], reuse=any(o['op'] == 'invalidate' for o in q) or len(q) % 2 == 0), q + [O('torn'), O('take'), O('take'), O('torn')], Po)
        w.add('spec_behaviours_replayed')
    r = w.rng

    # random histories are driven by what the pool answers
    for _ in range(w.n(150, 3000)):
        cfg = dict(max=r.randint(1, 3), cycles=r.randint(1, 4), seq=True, reuse=r.random() < 0.6)
        po = [None]
        steps = [r.random() for _ in range(r.randint(4, 16))]
        seed = r.randint(0, 10 ** 9)

        class Driven(Po):
            def __init__(self, cfg):
                super().__init__(cfg)
                po[0] = self
        # a rehearsal to know which connections are held when
        import random
        rr = random.Random(seed)
        use, idle, torn, ops, made, bad = {}, [], set(), [], 0, set()
        for x in steps:
            out = sorted(set(use) - set(idle))
            if (x < 0.45 or not out) and made < 7:
                ops.append(O('take'))
                if idle:
                    c = idle.pop(0)
                else:
                    made += 1
                    c = made
                use[c] = use.get(c, 0) + 1
            elif x < 0.85 and out:
                c = rr.choice(out)
                ops.append(O('give', c))
                if use[c] >= cfg['cycles'] or c in bad or len(idle) >= cfg['max']:
                    del use[c]
                else:
                    idle.append(c)
            elif x < 0.89 and out:
                c = rr.choice(out)
                bad.add(c)
                ops.append(O('fail', c))
            elif x > 0.9:
                ops.append(O('invalidate'))
                for c in idle:
                    del use[c]
                idle = []
            else:
                ops.append(O('torn'))
        w.seq(cfg, ops + [O('torn')], Driven)


class Pl(Po):
    """users that take a connection and give it back: the numbers are known when they have been taken"""

    def op_give(self, n):
        super().op_give(n)


def gen_shared(w):
    n = 0
    T, G = O('take'), lambda k: O('give', k)
    progs = [
        ([T, G(1)], [[T], [T]]),
        ([T, G(1)], [[T], [O('invalidate')]]),
        ([T, T, G(1), G(2)], [[T], [O('invalidate')]]),
        ([T], [[G(1)], [T]]),
        ([T], [[G(1)], [T], [T]]),
        ([T, T], [[G(1)], [G(2)]]),
        ([T, T], [[G(1)], [G(2), T]]),
        ([T, T, G(1)], [[G(2)], [T], [O('invalidate')]]),
        ([T, T], [[O('fail', 1), G(1)], [G(2)], [T]]),
        ([T, G(1)], [[T], [O('close')]]),
        ([T, T], [[G(1)], [O('invalidate')], [G(2)]]),
        ([], [[T], [T], [T]]),
    ]
    for cfg in (dict(max=1, cycles=9, seq=False), dict(max=2, cycles=2, seq=False), dict(max=1, cycles=1, seq=False)):
        for su, p in progs:
            if cfg['cycles'] == 1 and len(su) > 1 and su[1]['op'] == 'give':
                continue
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(cfg, p, Pl, setup=su, final=[O('torn'), O('invalidate'), O('torn')], bound=2, budget=30 if w.quick() else 2000, rnd=15 if w.quick() else 500)


PROP = dict(
    title='A connection pool never gives a connection to two users, and closes each once',
    statement='CPManager.acquire_connection gives an idle connection if there is one, otherwise a new one, never one that somebody holds, that failed (fail_connection) or that was torn down; a connection is taken at most max_cycle_no times. A released connection goes back to the pool, or is torn down, exactly once, if it failed, was taken max_cycle_no times, or '
              'max_number connections are already in the pool. invalidate() and close() tear down the idle connections; acquire_connection raises RuntimeError after close. A failure to create a connection is passed on and changes nothing. All of this holds for any number of threads, and no call blocks forever.',
    over=['histories', 'schedules'], text='all histories up to a depth, random ones, interleavings of up to 3 threads with bounded preemptions at bytecode level',
    why='who holds what depends on the history and on the interleaving', files=['satella/coding/resources/cp_manager.py'], mech=[('pool', 'cp_manager.py CPManager')],
    note='changing max_number at runtime and releasing after close() are not checked')
