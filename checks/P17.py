from vt import Part

PARTS = [
    Part('list', 'Ordered', 'E', depth=(5, 7), shards=(1, 4), max_paths=(4000, 40000)),
    Part('dict', 'Ordered', 'F', depth=(5, 7), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Minimal:
    """supports only what ListDeleter says it needs"""

    def __init__(self, q):
        self.q = q

    def pop(self, j):
        assert isinstance(j, int)
        return self.q.pop(j)

    def __getitem__(self, j):
        assert isinstance(j, int)
        return self.q[j]

    def __len__(self):
        return len(self.q)


def cfg_ok(ld):
    return not ld.removed


class Ld:
    def __init__(self, cfg):
        from satella.coding import ListDeleter
        self.q = list(cfg['q'])
        self.ld = ListDeleter(Minimal(self.q) if cfg['min'] else self.q)
        if cfg['back']:
            self.ld = reversed(self.ld)

    def op_next(self):
        return self.ld.next()

    def op_prev(self):
        return self.ld.prev()

    def op_iter(self):
        iter(self.ld)

    def op_for(self, q):
        r = []
        for x in self.ld:
            r.append(x)
            if x in q:
                self.ld.delete()
            if len(r) > 100:
                break
        return r

    def op_cur(self):
        assert self.ld() == self.ld.value
        return self.ld()

    def op_del(self):
        self.ld.delete()

    def op_commit(self):
        self.ld.remove_items()

    def op_exit(self):
        with self.ld as x:
            assert x is self.ld

    def op_exitx(self):
        with self.ld:
            raise KeyError()

    def op_rev(self):
        self.ld = reversed(self.ld)

    def op_copy(self):
        import copy
        o = self.ld
        self.ld = copy.copy(o)
        # what is marked in the original from now on is of no interest to the copy
        try:
            if cfg_ok(o):
                o.prev()
                o.delete()
                o.prev()
                o.delete()
        except StopIteration:
            pass

    def op_items(self):
        return list(self.q)


def gen_list(w):
    w.replay_spec(Ld, [dict(q=[1, 2, 3], back=False, min=False), dict(q=[1, 2, 1], back=True, min=True)], [O('exit'), O('items')])
    r = w.rng
    for _ in range(w.n(300, 6000)):
        q = [r.randint(1, 5) for _ in range(r.randint(0, 6))]
        cfg = dict(q=q, back=r.random() < 0.5, min=r.random() < 0.5)
        ops, gone, n, p, back = [], False, len(q), 0, cfg['back']
        p = n + 1 if back else 0
        for _ in range(r.randint(3, 30)):
            if gone:
                o = r.choice(['commit', 'items', 'exit', 'copy', 'end', 'end'])
                if o == 'end':
                    break
                ops.append(O(o))
                continue
            o = r.choice(['next'] * 6 + ['prev'] * 3 + ['del'] * 4 + ['cur', 'cur', 'iter', 'for', 'rev', 'copy', 'items', 'commit', 'exit', 'exitx'])
            if o in ('next', 'prev'):
                p = min(max(p + (1 if (o == 'next') != back else -1), 0), n + 1)
            elif o == 'cur' and not 1 <= p <= n:
                continue
            elif o == 'iter':
                p = n + 1 if back else 0
            elif o == 'rev':
                back = not back
                p = n + 1 if back else 0
            elif o == 'for':
                p = 0 if back else n + 1
                ops.append(O('for', [x for x in range(1, 6) if r.random() < 0.4]))
                continue
            elif o in ('commit', 'exit', 'exitx'):
                gone = True
            ops.append(O(o))
        ops += [O('exit'), O('items'), O('for', [1, 2]), O('copy'), O('commit'), O('items')]
        w.seq(cfg, ops, Ld)


class Dl:
    def __init__(self, cfg):
        from satella.coding import DictDeleter
        self.d = {k: 10 * k for k in range(1, 5)}
        self.C = DictDeleter

    def op_enter(self):
        self.x = self.C(self.d)
        assert self.x.__enter__() is self.x

    def op_loop(self, kind, q):
        it = {'keys': self.x.keys, 'values': self.x.values, 'items': self.x.items}[kind]()
        r = []
        for v in it:
            k = v if kind == 'keys' else v // 10 if kind == 'values' else v[0]
            r.append(v)
            if k in q:
                self.x.delete()
        return sorted(r)

    def op_exit(self):
        assert not self.x.__exit__(None, None, None)

    def op_exitx(self):
        e = KeyError()
        if not self.x.__exit__(KeyError, e, None):
            raise e

    def op_items(self):
        assert all(self.d[k] == 10 * k for k in self.d)
        return sorted(self.d)


def gen_dict(w):
    w.replay_spec(Dl, [dict(z=0)], [O('items')])
    r = w.rng
    for _ in range(w.n(100, 2000)):
        ops = []
        for _ in range(r.randint(1, 3)):
            ops.append(O('enter'))
            for _ in range(r.randint(0, 4)):
                ops.append(O('loop', r.choice(['keys', 'values', 'items']), [x for x in range(1, 6) if r.random() < 0.3]))
            ops += [O('items'), O(r.choice(['exit', 'exitx'])), O('items')]
        w.seq(dict(z=0), ops, Dl)


PROP = dict(
    title='ListDeleter and DictDeleter remove exactly the elements marked',
    statement='A ListDeleter visits the elements of the list each once, in its direction (reversed() visits backwards), lets the pointer go back and forth raising StopIteration at either end (and the pointer can return from there), and, on remove_items() or on leaving the block, also by an exception, removes exactly '
              'the elements that were current when delete() was called - by position, so that equal elements stay - in one piece and once; until then the list is unchanged. It needs only pop(position), indexing and len of the list. A DictDeleter does the same for keys, values or items of a dict.',
    over=['histories', 'inputs'], text='all histories of moves, marks, reversals, copies and removals up to a depth; sampled longer ones and lists',
    why='positions shift under removal and at the ends of the list; tests follow two loops',
    files=['satella/coding/deleters.py'], mech=[('pointer and marks', 'deleters.py ListDeleter'), ('dict', 'deleters.py DictDeleter')],
    note='the list must not be changed by others meanwhile; moves of the pointer after the removal without a new iteration are unspecified')
