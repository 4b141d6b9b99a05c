import queue
import warnings

from vt import Part

PARTS = [
    Part('flow', 'Flow', 'L', depth=(3, 4), shards=(2, 4)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Le:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        from satella.exceptions import PreconditionError
        self.E = dict(KeyError=KeyError, LookupError=LookupError, ValueError=ValueError, Exception=Exception, KeyboardInterrupt=KeyboardInterrupt, Empty=queue.Empty, PreconditionError=PreconditionError)
        self.log = []
        outer = self
        nl = cfg['nl'] or None
        from satella.coding.decorators import queue_get, cached_property, call_method_on_exception, execute_if_attribute_none, execute_if_attribute_not_none

        class Ob:
            def __init__(self):
                self.q = queue.Queue()
                self.dq = []
                self._p = nl
                self.at = None

            @property
            @cached_property('_p', **({} if nl is None else dict(assume_not_loaded=nl)))
            def p(self):
                """doc"""
                outer.log.append(['call'])
                v, x = outer.next
                if x:
                    raise outer.E[x]()
                return v or None

            @execute_if_attribute_none('at')
            def ifnone(self, v, k=0):
                return v + k

            @execute_if_attribute_not_none('at')
            def ifnotnone(self, v, k=0):
                return v + k

            def empty(self):
                outer.log.append(['method'])

        def item(self, v):
            outer.log.append(['item', v])
            if outer.end:
                raise outer.E[outer.end]('x')
            return v

        def clb():
            outer.log.append(['callable'])

        def pop(q, timeout):
            assert timeout == 3
            return q.pop(0)
        Ob.c1 = queue_get('q', timeout=0.01)(item)
        Ob.c2 = queue_get(lambda self: self.q, timeout=0.01, method_to_execute_on_empty=clb)(item)
        Ob.c3 = queue_get('q', 0.01, method_to_execute_on_empty='empty')(item)
        Ob.d1 = queue_get('dq', 3, exception_empty=(IndexError, queue.Empty), queue_get_method=pop)(item)
        Ob.d2 = queue_get('dq', 3, exception_empty=(IndexError, queue.Empty), queue_get_method=pop, method_to_execute_on_empty=clb)(item)
        Ob.d3 = queue_get('dq', 3, exception_empty=(IndexError, queue.Empty), queue_get_method=pop, method_to_execute_on_empty='empty')(item)
        self.Ob = Ob
        self.o = Ob()

    def run(self, f, *a, **k):
        try:
            v = f(*a, **k)
        except BaseException as e:  # noqa
            if type(e).__name__ == 'SchedAbort':
                raise
            return ['raised', type(e).__name__]
        return ['returned', v]

    def full(self, f, *a, **k):
        self.log = []
        r = self.run(f, *a, **k)
        return self.log + [r]

    def scripted(self, s):
        n = [0]

        def f(*a, **k):
            n[0] += 1
            self.log.append(['call'])
            if n[0] <= len(s) and s[n[0] - 1]:
                raise self.E[s[n[0] - 1]]('x')
            return n[0]
        return f

    def op_retry(self, n, ts, sw, s):
        from satella.coding.decorators import retry
        t = tuple(self.E[x] for x in ts)

        def note(k):
            return lambda e: self.log.append([k, type(e).__name__ if isinstance(e, BaseException) else e])
        kw = dict(times=n) if n else {}
        f = retry(exc_classes=t[0] if len(t) == 1 else t, on_failure=note('failure'), call_on_failure=note('failure2'), swallow_exception=sw, call_on_success=note('success'), call_between_retries=note('between'), **kw)(self.scripted(s))
        r = self.full(f, 1, k=2)
        g = retry(n or None, t, swallow_exception=sw)(self.scripted(s))
        keep = self.log
        self.log = []
        r2 = self.run(g, 3)
        assert r2 == r[-1] and [['call']] * len(self.log) == self.log and len(self.log) == sum(x == ['call'] for x in r), (r, r2, self.log)
        self.log = keep
        return r

    def op_loop(self, kind, n, s):
        from satella.coding.decorators import loop_while
        f = self.scripted(s)
        m = [0]
        if kind == 'method':
            class M:
                left = n

                @loop_while(lambda self: self.left > 0)
                def go(self, x, y=3):
                    assert x == 1 and y == 2
                    f()
                    self.left -= 1
            return self.full(M().go, 1, y=2)

        @loop_while(lambda: m[0] < n)
        def go():
            f()
            m[0] += 1
        return self.full(go)

    def op_forever(self, s):
        from satella.coding.decorators import repeat_forever
        return self.full(repeat_forever(self.scripted(s)), 1, k=3)

    def op_put(self, v):
        self.o.q.put(v)
        self.o.dq.append(v)

    def op_consume(self, m, x):
        self.end = x
        k = {'': '1', 'callable': '2', 'method': '3'}[m]
        a = self.full(getattr(self.o, 'c' + k))
        b = self.full(getattr(self.o, 'd' + k))
        assert a == b, (a, b)
        return a

    def op_default(self, d, v):
        from satella.coding.decorators import default_return
        return self.run(default_return(d)(lambda x: x), v or None)

    def op_aslist(self, ign, vs, x):
        from satella.coding.decorators import return_as_list

        @return_as_list(ignore_nulls=ign)
        def f(q, k=0):
            for v in q:
                yield v or None
            if x:
                raise self.E[x]()
        return self.run(f, vs, k=1)

    def op_short(self, kind, v):
        from satella.coding.decorators import short_none
        return self.run(short_none('x+1' if kind == 'str' else lambda x: x + 1), v or None)

    def op_onexc(self, ts, x):
        from satella.coding.decorators import call_method_on_exception
        t = tuple(self.E[y] for y in ts)

        class M:
            def handler(mself, v, k):
                assert k == 4
                self.log.append(['handler', v])
                return 77

            @call_method_on_exception(t[0] if len(t) == 1 else t, 'handler', 7, k=4)
            def go(mself, a, b=2):
                assert (a, b) == (1, 3)
                self.log.append(['call'])
                if x:
                    raise self.E[x]()
                return 1
        return self.full(M().go, 1, b=3)

    def op_prop(self, v, x):
        self.next = (v, x)
        return self.full(lambda: self.o.p)

    def op_propset(self, v):
        self.o._p = v or None

    def op_attr(self, v):
        self.o.at = [None, 1, 0, ''][v]

    def op_ifnone(self, v):
        return self.run(self.o.ifnone, v - 1, k=1)

    def op_ifnotnone(self, v):
        return self.run(self.o.ifnotnone, v - 1, k=1)

    C = {'': (None, None), 'set': ('x is not None', lambda x: x is not None), 'gt1': ('x > 1', lambda x: x > 1), 'even': ('x % 2 == 0', lambda x: x % 2 == 0)}

    def op_pre(self, cs, vs, d, kv):
        from satella.coding.decorators import precondition
        rs = []
        for j in (0, 1):
            @precondition(*(self.C[c][j] for c in cs), k=self.C[d][j])
            def f(*a, k=0):
                self.log.append(['call'])
                assert a == tuple(v or None for v in vs) and k == (kv[0] or None if kv else 0)
                return 1
            rs.append(self.full(f, *(v or None for v in vs), **(dict(k=kv[0] or None) if kv else {})))
        assert rs[0] == rs[1], rs
        return rs[0]

    def op_post(self, c, v):
        from satella.coding.decorators import postcondition
        rs = []
        for j in (0, 1):
            @postcondition(self.C[c][j])
            def f(x, k=0):
                self.log.append(['call'])
                return x + k or None
            rs.append(self.full(f, v - 1, k=1))
        assert rs[0] == rs[1], rs
        return rs[0]

    def op_haskeys(self, ks, d):
        from satella.coding.decorators import has_keys, precondition

        @precondition(has_keys(ks))
        def f(x):
            return True
        return self.run(f, {k: 0 for k in d})

    def op_before(self, b, v):
        from satella.coding.decorators import execute_before

        @execute_before
        def first(x=0):
            self.log.append(['before', x])
        deco = first if b == 0 else first(b)

        @deco
        def f(a, k=0):
            """doc"""
            self.log.append(['call'])
            return a + k
        assert f.__name__ == 'f' and f.__doc__ == 'doc'
        return self.full(f, v - 1, k=1)


FIN = [O('consume', 'method', ''), O('prop', 5, ''), O('prop', 6, ''), O('ifnone', 2), O('ifnotnone', 2)]


def gen_flow(w):
    w.replay_spec(Le, [dict(nl=0), dict(nl=3)], FIN)
    r = w.rng
    ex = ['KeyError', 'KeyError', 'ValueError', 'Empty', '']
    for _ in range(w.n(60, 2000)):
        w.seq(dict(nl=0), [O('pre', [r.choice(['', 'set', 'gt1'])] * 2, [r.randint(0, 3) for _ in range(r.randint(2, 4))], r.choice(['', 'set']), r.choice([[], [0], [0], [5]])), O('post', 'set', r.randint(0, 2))], Le)
    for _ in range(w.n(600, 20000)):
        ops = []
        for _ in range(r.randint(3, 12)):
            ops.append(r.choice([
                O('retry', r.randint(0, 5), r.choice([['KeyError'], ['LookupError', 'Empty'], ['Exception']]), r.random() < 0.5, [r.choice(ex) for _ in range(r.randint(0, 6))]),
                O('loop', r.choice(['method', 'function']), r.randint(0, 6), [''] * r.randint(0, 6) + r.sample(['KeyError'], r.randint(0, 1))),
                O('forever', [''] * r.randint(0, 5) + ['KeyError']), O('put', r.randint(1, 9)), O('put', r.randint(1, 9)), O('consume', r.choice(['', 'callable', 'method']), r.choice(['', '', 'KeyError', 'Empty'])),
                O('aslist', r.random() < 0.5, [r.randint(0, 3) for _ in range(r.randint(0, 6))], r.choice(['', '', 'KeyError'])),
                O('prop', r.randint(0, 4), r.choice(['', '', 'ValueError'])), O('propset', r.randint(0, 4)), O('attr', r.randint(0, 3)), O('ifnone', r.randint(1, 4)), O('ifnotnone', r.randint(1, 4)),
                O('pre', [r.choice(['', 'gt1', 'even']) for _ in range(2)], [r.randint(0, 6) for _ in range(r.randint(2, 4))], r.choice(['', 'gt1']), r.choice([[], [1], [5]])),
                O('post', r.choice(['gt1', 'even']), r.randint(1, 6))]))
        w.seq(dict(nl=r.choice([0, 3])), ops + FIN, Le)


PROP = dict(
    title='Flow decorators call the function exactly when, and as often as, they promise',
    statement='retry calls the function until it succeeds, fails with something that is not in exc_classes, or has failed `times` times; call_between_retries is called between two attempts only, call_on_success with the number of retries, on_failure with the last exception, which is then raised unless swallowed. loop_while calls while the '
              'condition holds, repeat_forever until an exception. queue_get calls the method with each item once, and acts on an empty queue only if the queue was empty: what the method itself raises is not swallowed. call_method_on_exception, default_return, return_as_list, short_none, execute_before, execute_if_attribute_(not_)none and cached_property '
              '(computed once, then stored; a failure is not stored) do what they say. precondition and postcondition let a call through if and only if every (boolean) condition holds, otherwise raise PreconditionError, and the function is not called on a failed precondition. Arguments and results pass unchanged.',
    over=['inputs', 'histories'], text='all calls with short scripts of outcomes, histories of the stateful ones up to a depth, random longer ones',
    why='the guarantee ranges over every sequence of outcomes of the decorated function',
    files=['satella/coding/decorators/flow_control.py', 'satella/coding/decorators/retry_dec.py', 'satella/coding/decorators/decorators.py', 'satella/coding/decorators/preconditions.py', 'satella/coding/decorators/arguments.py'],
    mech=[('retrying', 'retry_dec.py retry'), ('loops and queues', 'flow_control.py loop_while, repeat_forever, queue_get'), ('conditions', 'preconditions.py; decorators.py has_keys'), ('results', 'decorators.py default_return, return_as_list, short_none, call_method_on_exception; arguments.py cached_property, execute_if_attribute_*, execute_before')],
    note='retry with times=0, conditions that do not return a bool, and positional conditions on arguments passed by keyword are not checked')
