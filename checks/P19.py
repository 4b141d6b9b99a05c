import time
import warnings

from vt import Part

PARTS = [
    Part('towers', 'Recast', 'N', depth=(1, 1), shards=(2, 4), max_paths=(100000, 100000)),
    Part('shared', 'Recast', 'U', mode='lin', design=False, shards=(1, 4)),
]
E = dict(KeyError=KeyError, IndexError=IndexError, LookupError=LookupError, UnicodeError=UnicodeError, ValueError=ValueError, RuntimeError=RuntimeError, OSError=OSError,
         KeyboardInterrupt=KeyboardInterrupt, BaseException=BaseException, Exception=Exception)


def O(op, *a):
    return dict(op=op, a=list(a))


class Seen:
    """describes exceptions by what they were made from"""

    def __init__(self):
        self.byid = {}
        self.text = {}
        self.keep = []

    def desc(self, e):
        if id(e) in self.byid:
            return self.byid[id(e)]
        m = e.args[0] if e.args else None
        if m == 'boom':
            d = None
        elif m == 'unraised':
            d = m
        elif m == 'why' and len(e.args) == 2 and e.args[1] == 3 and e.__cause__ is not None:
            d = ['why', self.desc(e.__cause__)]
        elif m in self.text:
            d = self.text[m]
        elif isinstance(e, ValueError) and m == 'Callable executed without error':
            d = 'noerror'
        else:
            d = ['unknown', repr(e)]
        r = [type(e).__name__, d]
        self.byid[id(e)] = r
        self.keep.append(e)
        self.text[repr(e)] = ['of', r]
        self.text['pp' + repr(e)] = ['pp', r]
        return r


def T(name):
    """a class of that name which wants to be told code=4"""
    if not name:
        return None
    b = E[name]

    class X(b):
        def __init__(self, *a, code=0):
            super().__init__(*(a if code == 4 else ('no code',)))
    X.__name__ = name
    return X


class Tw:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        self.seen = Seen()
        self.five = '' if cfg.get('odd') else 5
        self.logs = []

    def log(self, sev, msg, exc_info=None):
        e = exc_info
        d = self.seen.desc(e)
        self.logs.append([sev, 'plain' if msg == str(e) and str(e) != '' else msg, d])

    def make(self, w):
        import satella.coding as C
        t = tuple(E[x] for x in w['t'])
        t1 = t[0] if len(t) == 1 else t
        k = w['k']
        rt = dict(val=dict(returns=self.five), fac=dict(returns_factory=lambda: 6), none={})[w['ret']]
        if k == 'silence':
            return C.silence_excs(*t, **rt)
        if k == 'rethrow':
            ps = [(tuple(E[x] for x in p[0]) if len(p[0]) > 1 else E[p[0][0]], E[p[1]] if p[1] else None) for p in w['pairs']]
            if w['sw']:
                rt['exception_preprocessor'] = lambda e: 'pp' + repr(e)
            return C.rethrow_as(*ps[0], **rt) if len(ps) == 1 else C.rethrow_as(*ps, **rt)
        if k == 'reraise':
            return C.reraise_as(t1, T(w['to']) if w['to'] else None, 'why', 3, code=4)
        if k == 'log':
            f = dict(e='{e.__class__.__name__}', args='{args[0]}/{kwargs[z]}', locals='{extra:03d}', plain='{e}')[w['fmt']]
            return C.log_exceptions(self, 30 if w['sw'] else 40, f, dict(extra=7, other=8, e='never'), exc_types=t1, swallow_exception=w['sw'])
        if k == 'expect':
            return C.expect_exception(t1, T(w['to']), 'unraised', code=4)

    def layer(self, w, inner, obj=None):
        import satella.coding as C
        t = tuple(E[x] for x in w['t'])
        seen = self.seen

        def noted(*a, **kw):
            try:
                return inner(*a, **kw)
            except BaseException as e:  # noqa
                seen.desc(e)
                raise
        if w['k'] == 'raises':
            return lambda *a, **kw: C.raises_exception(t, lambda: noted(*a, **kw))
        if w['k'] == 'catch':
            def f(*a, **kw):
                r = C.catch_exception(t, lambda: noted(*a, **kw), **dict(none={}, val=dict(return_instead=self.five), fac=dict(return_value_on_no_exception=True))[w['ret']])
                return ['caught', seen.desc(r)] if isinstance(r, BaseException) else r
            return f
        o = obj or self.make(w)
        if w['cm']:
            def f(*a, **kw):
                with o:
                    return noted(*a, **kw)
                return 'after'
            return f
        return o(noted)

    def body(self, b):
        def f(*a, **kw):
            assert a == (7,) and kw == dict(z=8)
            if b:
                raise E[b]('boom')
            return 1
        return f

    def outcome(self, f, *a, **kw):
        try:
            v = f(*a, **kw)
            return ['ret', 5 if v == '' else v]
        except BaseException as e:  # noqa
            return ['exc', self.seen.desc(e)]

    def op_run(self, ws, b):
        self.logs = []
        f = self.body(b)
        for w in ws:
            f = self.layer(w, f)
        o = self.outcome(f, 7, z=8)
        return [o, self.logs]

    def op_rec(self, w, d, bad, catch):
        self.logs = []
        lv = []

        def f(d):
            if d:
                o = self.outcome(g, d - 1) if catch else None
                if not catch:
                    try:
                        x = g(d - 1)
                        lv.append(['ret', x])
                    except BaseException as e:  # noqa
                        lv.append(['exc', self.seen.desc(e)])
                        raise
                else:
                    lv.append(o)
            if d in bad:
                raise KeyError('boom')
            return d * 10
        g = self.layer(w, f)
        o = self.outcome(g, d)
        return [o, lv]

    def op_gen(self, w, n, b, p):
        self.logs = []

        @self.make(w)
        def g(k, z=0):
            s = 0
            for i in range(1, n + 1):
                s += yield i
            if b:
                raise E[b]('boom')
            return s
        it = g(7, z=8)
        ys = []

        def run():
            try:
                v = next(it)
                while True:
                    ys.append(v)
                    v = it.throw(KeyError('boom')) if p == len(ys) else it.send(10 * len(ys))
            except StopIteration as e:
                return e.value
        o = self.outcome(run)
        return [ys, [o, self.logs]]


def gen_towers(w):
    w.replay_spec(Tw, [dict(x=0)])
    r = w.rng
    import json
    pool = [q for k, q in w.seqs if q and q[0]['op'] == 'run']
    if not pool:
        return
    for _ in range(w.n(1500, 60000)):
        ws = [json.loads(json.dumps(r.choice(pool)[0]['a'][0][0])) for _ in range(r.randint(2, 5))]
        for x in ws[1:]:
            if x['fmt'] == 'args' and False:
                x['fmt'] = 'e'
        w.seq(dict(x=0, odd=r.random() < 0.5), [O('run', ws, r.choice(['', 'KeyError', 'IndexError', 'UnicodeError', 'ValueError', 'KeyboardInterrupt']))], Tw)


class Us(Tw):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.w = cfg['w']
        self.o = self.make(self.w)
        outer = self

        def f(b):
            time.sleep(0.001)
            if b:
                e = E[b]('boom')
                outer.seen.desc(e)
                raise e
            return 1
        self.f = f if self.w['cm'] else self.o(f)

    def op_go(self, b):
        l0 = []
        if self.w['cm']:
            def g():
                with self.o:
                    return self.f(b)
                return 'after'
            o = self.outcome(g)
        else:
            o = self.outcome(self.f, b)
        return [o, l0]


def gen_shared(w):
    n = 0
    base = dict(k='silence', t=['LookupError'], to='', ret='val', cm=False, sw=False, fmt='', pairs=[])
    cs = [base, dict(base, ret='fac'), dict(base, cm=True), dict(base, k='rethrow', t=[], pairs=[[['KeyError'], 'OSError'], [['ValueError'], '']], ret='none'), dict(base, k='reraise', to='OSError', ret='none')]
    for c in cs:
        for p in ([[O('go', '')], [O('go', 'KeyError')]], [[O('go', 'KeyError'), O('go', '')], [O('go', 'ValueError'), O('go', 'KeyError')]], [[O('go', '')], [O('go', 'KeyError')], [O('go', '')]]):
            n += 1
            if n % w.nshards == w.shard or not w.quick():
                w.lin(dict(w=c), p, Us, bound=1, budget=30 if w.quick() else 1000, rnd=15 if w.quick() else 400)


PROP = dict(
    title='Exceptions are silenced, translated, logged and expected exactly as specified',
    statement='silence_excs, rethrow_as, reraise_as, log_exceptions and expect_exception, as decorators or as context managers, nested in any order, recursive, and shared by threads, act on precisely the exceptions that are instances of the classes given (the first matching pair of rethrow_as decides), and pass everything '
              'else through untouched; a call that ends normally returns its own value, and arguments are passed on. A silenced call returns returns, returns_factory() or None; a translated exception is of the target class, with the preprocessed text (rethrow_as) or the given arguments and the original as its cause (reraise_as). '
              'log_exceptions logs each matching exception once, at its severity, with its formatted message, and re-raises it unless swallow_exception; a generator keeps its values, what is sent to it, and its return value. expect_exception raises else_raise only if nothing was raised. catch_exception returns the exception, raises_exception tells whether there was one.',
    over=['inputs', 'schedules'], text='every single wrapper and every pair of wrappers with every kind of outcome, random towers of 5, recursion of depth 3, bounded interleavings',
    why='the guarantee ranges over combinations of wrappers, exception classes and schedules that tests do not enumerate',
    files=['satella/coding/recast_exceptions.py', 'satella/coding/expect_exception.py'], mech=[('translation', 'recast_exceptions.py silence_excs, rethrow_as, reraise_as'), ('logging', 'recast_exceptions.py log_exceptions'), ('expectations', 'expect_exception.py; catch_exception, raises_exception')],
    note='catch_exception with return_instead when an exception was caught is not checked (its documentation is contradictory); the implicit __context__ is not checked')
