from vt import Part

PARTS = [
    Part('idseq', 'Ids', 'I', depth=(3, 5), shards=(1, 2)),
    Part('idconc', 'Ids', 'I', mode='lin', design=False, shards=(2, 7)),
    Part('issseq', 'Ids', 'J', depth=(4, 6), shards=(1, 1)),
    Part('issconc', 'Ids', 'J', mode='lin', design=False, shards=(1, 4)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Alloc:
    def __init__(self, cfg):
        from satella.coding.concurrent import IDAllocator
        if cfg['limit'] == -1:
            self.i = IDAllocator(cfg['start']) if cfg['start'] else IDAllocator()
        else:
            self.i = IDAllocator(cfg['start'], top_limit=cfg['limit'])

    def op_alloc(self):
        return self.i.allocate_int()

    def op_free(self, x):
        return self.i.mark_as_free(x)

    def op_mark(self, x):
        return self.i.mark_as_allocated(x)


class Iss:
    def __init__(self, cfg):
        from satella.coding.concurrent import SequentialIssuer
        self.i = SequentialIssuer(cfg['start'])

    def op_issue(self):
        return self.i.issue()

    def op_nlt(self, x):
        return self.i.no_less_than(x)


CFGS = [dict(start=0, limit=-1), dict(start=5, limit=-1), dict(start=0, limit=3), dict(start=5, limit=8), dict(start=1, limit=3), dict(start=0, limit=0)]


def gen_idseq(w):
    w.replay_spec(Alloc, CFGS, [O('alloc')] * 5)
    r = w.rng
    for _ in range(w.n(200, 4000)):
        s = r.choice([0, 1, 7, 100])
        cfg = dict(start=s, limit=r.choice([-1, s + 1, s + 9, s + 10, s + 11, s + 25]))
        ops = []
        for _ in range(r.randint(5, 60)):
            ops.append(r.choice([O('alloc'), O('alloc'), O('free', s + r.randint(-1, 27)), O('mark', s + r.randint(-2, 30))]))
        w.seq(cfg, ops + [O('alloc')] * 30, Alloc)


def gen_idconc(w):
    r = w.rng
    B = dict(bound=2, budget=120 if w.quick() else 3000, rnd=50 if w.quick() else 500)
    for cfg in CFGS[:5]:
        s = cfg['start']
        for p in [[[O('alloc')], [O('alloc')]], [[O('alloc'), O('alloc')], [O('alloc'), O('alloc')]],
                  [[O('mark', s + 1)], [O('alloc'), O('alloc')], [O('mark', s + 1)]],
                  [[O('mark', s), O('free', s)], [O('mark', s)], [O('free', s), O('alloc')]]]:
            if w.quick() and r.random() < 0.4:
                continue
            w.lin(cfg, p, Alloc, final=[O('alloc')] * 2, **B)


def gen_issseq(w):
    w.replay_spec(Iss, [dict(start=0), dict(start=5)], [O('issue')])


def gen_issconc(w):
    B = dict(bound=2, budget=150 if w.quick() else 3000, rnd=60 if w.quick() else 500)
    for p in [[[O('issue')], [O('issue')]], [[O('issue'), O('issue')], [O('issue')], [O('issue')]], [[O('nlt', 5)], [O('issue')], [O('nlt', 5)]],
              [[O('nlt', 1), O('nlt', 9)], [O('issue'), O('nlt', 3)]]]:
        w.lin(dict(start=0), p, Iss, final=[O('issue')], **B)


PROP = dict(
    title='Identifier allocators never hand out the same identifier twice',
    statement='An ID allocator, for every history and with any number of threads, allocates only integers that are not allocated, not below its start and below its top limit '
              '(absolute, if given), raises Empty exactly when none is left, and takes freed ones back for reuse; marking an allocated one raises AlreadyAllocated, '
              'marking one out of range or freeing one not allocated raises ValueError. A sequential issuer issues strictly increasing integers, each at '
              'least the requested minimum.',
    over=['schedules', 'histories', 'configurations'], text='all histories of allocate, free, mark, issue over several starts and limits, sequential and concurrent',
    why='the tests allocate a few identifiers from one thread and never combine a start with a limit or reuse',
    files=['satella/coding/concurrent/id_allocator.py'],
    mech=[('allocation', 'id_allocator.py IDAllocator'), ('issuing', 'id_allocator.py SequentialIssuer')],
    note='all histories up to a bound replayed and validated; concurrent histories checked for linearizability under bounded-preemption schedules')
