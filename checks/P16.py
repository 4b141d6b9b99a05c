from vt import Part

PARTS = [
    Part('matrix', 'Sparse', 'M', depth=(3, 4), shards=(2, 8), max_paths=(4000, 60000)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


N = -99


def val(v):
    return None if v == N else v


class Ad:
    def __init__(self, cfg):
        from satella.coding.structures import SparseMatrix
        self.C = SparseMatrix
        self.m = SparseMatrix()
        self.alt = SparseMatrix()
        self.flip = False

    @property
    def e(self):
        """either way of naming everything"""
        self.flip = not self.flip
        return slice(None) if self.flip else Ellipsis

    def op_set(self, c, r, v):
        self.m[c, r] = val(v)

    def op_get(self, c, r):
        return self.m[c, r]

    def op_del(self, c, r):
        del self.m[c, r]

    def op_setrow(self, r, q):
        self.m[self.e, r] = [val(v) for v in q]

    def op_setcol(self, c, q):
        self.m[c, self.e] = (val(v) for v in q)

    def q(self, q):
        return [[val(v) for v in r] for r in q]

    def op_setall(self, q):
        self.m[self.e, self.e] = self.q(q)
        self.flip = not self.flip

    def op_from(self, q):
        self.m = self.C.from_iterable(iter(self.q(q)))

    def op_new(self, q):
        self.m = self.C(self.q(q))

    def op_getrow(self, r):
        x = self.m[self.e, r]
        if r >= 0:
            assert x == self.m.get_row(r)
        return x

    def op_getcol(self, c):
        return self.m[c, self.e]

    def op_delrow(self, r):
        del self.m[self.e, r]

    def op_delcol(self, c):
        del self.m[c, self.e]

    def op_delall(self):
        del self.m[self.e, self.e]
        self.flip = not self.flip

    def op_clear(self):
        self.m.clear()

    def op_delete_row(self, r):
        self.m.delete_row(r)

    def op_append(self, q):
        self.m.append_row(val(v) for v in q)

    def op_shoot(self):
        self.m = self.m.shoot()

    def op_all(self):
        r = list(self.m)
        assert r == self.m[self.e, self.e]
        self.flip = not self.flip
        assert r == self.m[:, :]
        return r

    def op_size(self):
        return [self.m.columns, self.m.rows, len(self.m)]

    def op_bool(self):
        return bool(self.m)

    def op_max(self):
        return self.m.max()

    def op_min(self):
        return self.m.min()

    def op_near(self, c, r, d):
        return sorted(list(x) for x in (self.m.get_neighbour_coordinates(c, r, d) if not d else self.m.get_neighbour_coordinates(c, r)))

    def op_keep(self):
        self.alt = self.C()
        self.alt[:, :] = list(self.m)

    def op_eq(self):
        return self.m == self.alt


FIN = [O('all'), O('size'), O('bool'), O('eq')]


def gen_matrix(w):
    w.replay_spec(Ad, [dict(z=0)], FIN)
    r = w.rng
    for _ in range(w.n(700, 15000)):
        ops = []
        v = lambda: r.choice([N, N, 0, 1, 2, 3, -4])
        c = lambda: r.choice([0, 1, 2, 3, -1, -2, -4])
        row = lambda: [v() for _ in range(r.randint(0, 4))]
        for _ in range(r.randint(3, 18)):
            ops.append(r.choice([lambda: O('set', c(), c(), v()), lambda: O('set', c(), c(), v()), lambda: O('set', r.randint(0, 3), r.randint(0, 3), r.randint(1, 9)), lambda: O('get', c(), c()), lambda: O('del', c(), c()), lambda: O('setrow', c(), row()),
                                 lambda: O('setcol', c(), row()), lambda: O(r.choice(['setall', 'from', 'new']), [row() for _ in range(r.randint(0, 3))]) if r.random() < 0.4 else O('size'), lambda: O('getrow', c()), lambda: O('getcol', c()),
                                 lambda: O('delrow', c()), lambda: O('delcol', c()), lambda: O(r.choice(['delall', 'clear'])) if r.random() < 0.2 else O('bool'), lambda: O('delete_row', r.randint(0, 4)), lambda: O('append', row()),
                                 lambda: O('shoot') if r.random() < 0.3 else O('size'), lambda: O('all'), lambda: O('bool'), lambda: O('near', r.randint(0, 3), r.randint(0, 3), r.random() < 0.5), lambda: O('keep'), lambda: O('eq')])())
            if r.random() < 0.1:
                ops += [O('set', r.randint(0, 2), r.randint(0, 2), r.randint(-3, 3)), O('max'), O('min')]
        w.seq(dict(z=0), ops + FIN, Ad)


PROP = dict(
    title='A SparseMatrix is exactly the map of what was set in it, in its bounding box',
    statement='After any history of element, row, column and whole-matrix assignments and deletions (None deletes), appended and deleted rows and shoot(), a SparseMatrix answers every element last set and None elsewhere; .columns, .rows, len(), iteration, rows and columns cover exactly the bounding box of its '
              'defined elements; it is truthy iff it has elements; two matrices with the same elements are equal, whatever their histories. ":" and "..." both mean all. Negative indices count from the end, and indices out of range raise IndexError (on reading, or when still negative on writing) and change nothing. '
              'max() and min() are those of the defined elements; neighbours are the cells of the matrix around the given one.',
    over=['histories', 'inputs'], text='all histories of operations up to a depth over small indices; sampled long ones',
    why='the size and the counters of columns are maintained incrementally over arbitrary histories; the tests follow one',
    files=['satella/coding/structures/sparse_matrix.py'], mech=[('elements and size', 'sparse_matrix.py SparseMatrix.__setitem__, __delitem__, _calculate_*_count'), ('keys', 'sparse_matrix.py _cleanup_key'), ('derived', 'sparse_matrix.py shoot, max, min, get_neighbour_coordinates')],
    note='max/min of an empty matrix, and get_row of a row that does not exist, are not checked')
