import operator
import warnings

from vt import Part

PARTS = [
    Part('scalars', 'Tainting', 'T', depth=(2, 3), max_paths=(9000, 60000), shards=(2, 8)),
    Part('containers', 'Tainting', 'N', depth=(3, 4), max_paths=(9000, 60000), shards=(2, 8)),
    Part('sessions', 'Tainting', 'E', depth=(4, 5), max_paths=(4000, 30000), shards=(2, 4)),
    Part('others', 'Tainting', 'W', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


BIN = {x: getattr(operator, x + '_' if x in ('and', 'or') else x) for x in ('add', 'sub', 'mul', 'floordiv', 'mod', 'and', 'or', 'xor', 'pow', 'lshift', 'rshift')}
INPLACE = {x: getattr(operator, 'i' + x) for x in BIN}


def tried(fn):
    from drive import Raw, exc
    try:
        return fn()
    except Exception as e:
        return Raw(*exc(e))


class Session:
    def __init__(self, cfg):
        from satella.debug import TaintingEnvironment, TaintedObject, taint, access_tainted
        warnings.simplefilter('ignore')
        self.TaintedObject, self.taint, self.raw = TaintedObject, taint, access_tainted
        self.env = TaintingEnvironment()
        self.env.__enter__()
        self.begin(cfg)

    def begin(self, cfg):
        pass

    def finish(self):
        self.env.__exit__(None, None, None)

    def is_tainted(self, x):
        return isinstance(x, self.TaintedObject)

    def show(self, x):
        return [self.is_tainted(x), self.raw(x)]

    def ints(self):
        return sorted({x for x in self.env.get_tainted_variables() if type(x) is int})


class Scalars(Session):
    def begin(self, cfg):
        self.v = [None] + list(cfg['v'])

    def store(self, k, x):
        if abs(self.raw(x)) > 9:
            x = self.taint(1) if self.is_tainted(x) else 1
        self.v[k] = x
        return self.show(x)

    def op_taint(self, i):
        return self.store(i, self.taint(self.v[i]))

    def op_set(self, i, n):
        return self.store(i, n)

    def binary(self, f, o, x, y, k):
        if o in ('pow', 'lshift', 'rshift') and not 0 <= self.raw(y) <= 3:
            return None
        return self.store(k, f[o](x, y))

    def op_bin(self, o, i, j, k):
        return self.binary(BIN, o, self.v[i], self.v[j], k)

    def op_left(self, o, n, i, k):
        return self.binary(BIN, o, n, self.v[i], k)

    def op_right(self, o, i, n, k):
        return self.binary(BIN, o, self.v[i], n, k)

    def op_in_place(self, o, i, j):
        return self.binary(INPLACE, o, self.v[i], self.v[j], i)

    def op_un(self, o, i, k):
        return self.store(k, abs(self.v[i]) if o == 'abs' else getattr(operator, o)(self.v[i]))

    def op_move(self, i, k):
        return self.store(k, self.v[i])

    def op_cmp(self, o, i, j):
        return self.show(getattr(operator, o)(self.v[i], self.v[j]))

    def op_convert(self, i):
        x, n = self.v[i], self.raw(self.v[i])
        return [int(x), int(float(x)), bool(x), str(x) == str(n), hash(x) == hash(n), range(10)[x] == range(10)[n] if -10 <= n <= 9 else False, x in {n} and n in {x}]

    def op_halves(self, i):
        h = self.v[i] / 2
        return [self.is_tainted(h), self.raw(h) * 2, tried(lambda: self.is_tainted(12 / self.v[i]))]

    def op_tainted(self):
        return self.ints()


def gen_scalars(w):
    w.replay_spec(Scalars, [dict(v=[5, 3, 0])], final=[O('tainted'), O('convert', 3)])
    r = w.rng
    ops_ = sorted(BIN)
    for _ in range(w.n(400, 20000)):
        cfg = dict(v=[r.randint(-9, 9) for _ in range(3)])
        ops = []
        for _ in range(r.randint(4, 20)):
            i, j, k = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
            ops.append(r.choice([O('taint', i), O('set', i, r.randint(-9, 9)), O('bin', r.choice(ops_), i, j, k), O('bin', r.choice(ops_), i, j, k), O('left', r.choice(ops_), r.randint(-9, 9), i, k),
                                 O('right', r.choice(ops_), i, r.randint(-9, 9), k), O('in_place', r.choice(ops_), i, j), O('in_place', r.choice(ops_), i, j),
                                 O('un', r.choice(['neg', 'pos', 'abs', 'invert']), i, k), O('move', i, k), O('cmp', r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), i, j), O('convert', i),
                                 O('halves', i), O('tainted')]))
        w.seq(cfg, ops + [O('tainted')], Scalars)


class Thing:
    def method(self):
        return len(self.__dict__)


class Containers(Session):
    def begin(self, cfg):
        self.kind = cfg['kind']
        if self.kind == 'list':
            self.under = [1, 2, 3]
        elif self.kind == 'dict':
            self.under = {1: 1, 2: 2, 3: 3}
        else:
            self.under = Thing()
            self.under.x1, self.under.x2, self.under.x3 = 1, 2, 3
        self.x = self.under

    def op_taint(self):
        self.x = self.taint(self.x)
        return self.taint(self.x) is self.x and self.is_tainted(self.x)

    def key(self, k):
        return k - 1 if self.kind == 'list' else k

    def read(self, x, k):
        return self.show(getattr(x, 'x%d' % k) if self.kind == 'object' else x[self.key(k)])

    def op_get(self, k):
        return self.read(self.x, k)

    def op_raw(self, k):
        return self.read(self.under, k)

    def op_set(self, k, v, tainted):
        v = self.taint(v) if tainted else v
        if self.kind == 'object':
            setattr(self.x, 'x%d' % k, v)
        else:
            self.x[self.key(k)] = v

    def op_del(self):
        if self.kind == 'object':
            delattr(self.x, 'x%d' % len(self.under.__dict__))
        else:
            del self.x[len(self.under) - 1 if self.kind == 'list' else len(self.under)]

    def op_len(self):
        return len(self.x)

    def op_items(self):
        return [self.show(x) for x in self.x]

    def op_contains(self, v, tainted):
        return (self.taint(v) if tainted else v) in self.x

    def op_call(self):
        if self.kind == 'object':
            return self.show(self.x.method())
        return self.show((self.x.count(99) if self.kind == 'list' else self.x.get(99, 0)) + len(self.under))

    def op_same(self):
        return self.raw(self.x) is self.under and self.raw(self.raw(self.x)) is self.under

    def op_tainted(self):
        return self.ints()


def gen_containers(w):
    cfgs = [dict(kind=k) for k in ('list', 'dict', 'object')]
    w.replay_spec(Containers, cfgs, final=[O('tainted'), O('items')])
    r = w.rng
    for _ in range(w.n(150, 6000)):
        ops = []
        n = 3
        for _ in range(r.randint(4, 16)):
            v, tv = r.randint(0, 9), r.random() < .3
            o = r.choice([O('get', r.randint(1, n)), O('raw', r.randint(1, n)), O('set', r.randint(1, n), v, tv), O('set', r.randint(1, n), v, tv), O('len'), O('items'), O('tainted'),
                          O('same'), O('contains', v, tv), O('taint'), O('del')])
            if o['op'] == 'del':
                if n == 1:
                    continue
                n -= 1
            ops.append(o)
        w.seq(r.choice(cfgs), ops, Containers)


class Sessions:
    def __init__(self, cfg):
        from drive import Lane
        from satella.debug import TaintingEnvironment, taint
        warnings.simplefilter('ignore')
        self.taint, self.E = taint, TaintingEnvironment
        self.envs = [None] + [TaintingEnvironment() for _ in range(3)]
        self.lanes = [None, Lane(), Lane()]

    def finish(self):
        for x in self.lanes[1:]:
            x.close()

    def op_enter(self, th, n):
        return self.lanes[th](lambda: self.envs[n].__enter__() is self.envs[n])

    def op_exit(self, th, how):
        from satella.debug import TaintingEnvironment as E
        e = ValueError()
        a = (ValueError, e, None) if how == 'raising' else (None, None, None)
        return bool(self.lanes[th](lambda: E.get_session_in_progress().__exit__(*a)))

    def op_taint(self, th):
        from satella.debug import access_tainted
        return self.lanes[th](lambda: access_tainted(self.taint(5)))

    def op_current(self, th):
        return self.lanes[th](lambda: self.envs.index(self.E.get_session_in_progress()))

    def op_enabled(self, n):
        return self.envs[n].enabled


def gen_sessions(w):
    w.replay_spec(Sessions, [dict(x=0)], final=[O('current', 1), O('current', 2), O('enabled', 1), O('enabled', 2), O('enabled', 3)])


class Others(Session):
    def op_deep(self, kinds):
        leaf = inner = [5]
        for k in kinds:
            if k == 'object':
                t = Thing()
                t.x = inner
                inner = t
            else:
                inner = [inner] if k == 'list' else {'x': inner}
        x = self.taint(inner)
        for k in reversed(kinds):
            x = x.x if k == 'object' else x[0] if k == 'list' else x['x']
            if not self.is_tainted(x):
                return False
        return self.is_tainted(leaf[0]) and self.raw(x) is leaf and self.is_tainted(x[0]) and 5 in self.ints()

    def op_text(self, o):
        s = self.taint('abc')
        if o in ('repr', 'str'):
            return {'repr': repr, 'str': str}[o](s)
        if o == 'in':
            return 'bc' in s and self.taint('ab') in s
        if o == 'not in':
            return 'cb' in s or self.taint('ac') in s
        if o == 'format':
            return '{}'.format(s)
        return self.show({'upper': lambda: s.upper(), 'add': lambda: s + 'd', 'radd': lambda: 'd' + s, 'index': lambda: s[self.taint(1)], 'slice': lambda: s[1:],
                          'mod': lambda: self.taint('abc %s') % 5}[o]())

    def op_callable(self, o):
        taint, show = self.taint, self.show
        if o == 'function':
            return show(taint(lambda x: x + 1)(5))
        if o == 'class':
            class K:
                def __init__(self, x):
                    self.x = x
            return show(taint(K)(3).x)
        if o in ('context', 'swallowing'):
            left = []

            class C:
                def __enter__(self):
                    return 4

                def __exit__(self, *a):
                    left.append(a)
                    return o == 'swallowing'
            c = taint(C())

            def f():
                with c as x:
                    out.append(show(x))
                    raise ValueError()
            out = []
            r = tried(f)
            return [out[0], r, len(left)]
        if o == 'iterator':
            i = taint(iter((1, 2)))
            return [show(next(i)), show(next(i)), tried(lambda: show(next(i)))]
        if o == 'builtin':
            return show(taint(len)([1, 2, 3, 4]))
        if o == 'keyed':
            return show(taint(lambda *a, **k: a[0] * k['y'])(3, y=4))
        if o == 'range':
            return list(range(taint(3)))
        if o == 'indexed':
            return [[7, 8, 9][taint(1)], show(taint([7, 8, 9])[taint(1)])]
        t = Thing()
        t.y = 2
        if o == 'setattr':
            x = taint(t)
            x.v = 9
            return [show(x.v), show(t.v)]
        if o == 'delattr':
            x = taint(t)
            del x.y
            return [tried(lambda: x.y), tried(lambda: t.y)]

        class K:
            v = 2
        return show(taint(K()).v)


def gen_others(w):
    w.replay_spec(Others, [dict(x=0)], final=[])


PROP = dict(
    title='What is computed of tainted values is tainted, and is what it would be otherwise',
    statement='During a tainting session, every arithmetical and bitwise operation (either operand being tainted, also in place), comparison, item, element, '
              'attribute, call and method of a tainted value gives a tainted result equal to what the bare values would give, and raises what they would raise; an '
              'operation of untainted values gives an untainted one; what is stored in a tainted container is tainted; tainting twice changes nothing; variables not '
              'assigned to keep their values; the tainted variables are listed by the session; there is at most one session in a thread, it is visible to that thread'
              ' only, and tainting without one raises RuntimeError.',
    over=['inputs', 'histories', 'schedules'],
    text='All sequences of two (thorough: three) operations on three variables and long random ones; all sequences of three operations on tainted lists, '
         'dictionaries and objects; all the sequences of four operations on three sessions by two threads; nesting of up to three containers',
    why='Taint must survive every operator, in every position of the operand; one that is missing is a leak. The tests have additions only',
    files=['satella/debug/tainting/environment.py', 'satella/debug/tainting/tainteds.py', 'satella/debug/tainting/__init__.py', 'satella/debug/__init__.py'],
    mech=[('operators', 'tainteds.py TaintedObject'), ('session', 'environment.py TaintingEnvironment')],
    note='Use of tainted values after the session ended, structures having cycles, and functions called with tainted arguments are left open',
    design='Specification Tainting.tla: information flow as a ghost bit of each variable and cell next to its value, the bit of a result being the disjunction of '
           'the bits of operands.',
)
