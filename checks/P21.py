import random
import warnings

from vt import Part

PARTS = [
    Part('args', 'Args', 'A', depth=(1, 1), shards=(2, 4), max_paths=(100000, 100000)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Cal:
    def __call__(self, x):
        return 'called'


CAL = Cal()
FN = dict(inc=lambda x: x + 1, dbl=lambda x: x * 2, src='x * 3')


def val(v):
    return CAL if v == -1 else v


def shown(v):
    if v is CAL:
        return 'callable'
    if isinstance(v, tuple):
        return [shown(x) for x in v]
    if isinstance(v, dict):
        return [[k, shown(v[k])] for k in sorted(v)]
    return v


def function(sig, self_=None):
    """a function of that signature that gives back what it sees"""
    ps, star = ([self_] if self_ else []), False
    for i, p in enumerate(sig):
        if p['k'] == 'ko' and not star:
            ps.append('*')
            star = True
        if p['k'] == 'va':
            star = True
        ps.append({'va': '*', 'vk': '**'}.get(p['k'], '') + p['n'] + ('=DEF[%r]' % p['n'] if p['d'] else ''))
        if p['k'] == 'po' and (i + 1 == len(sig) or sig[i + 1]['k'] != 'po'):
            ps.append('/')
    src = 'def f(%s):\n    "doc"\n    return SHOW([%s])' % (', '.join(ps), ', '.join('[%r, %s]' % (p['n'], p['n']) for p in sig))
    env = dict(DEF={p['n']: val(p['d'][0]) for p in sig if p['d']}, SHOW=lambda q: [[n, shown(v)] for n, v in q])
    exec(src, env)
    return env['f']


def total(q):
    s = 0
    for n, v in q:
        if isinstance(v, list):
            s += sum(x[1] if isinstance(x, list) else x for x in v)
        else:
            s += v
    return s


class Ar:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')

    def env(self, sig, d):
        assert set(d) == {p['n'] for p in sig}, (sig, d)
        return [[p['n'], shown(d[p['n']])] for p in sig]

    def op_get(self, sig, a, k):
        from satella.coding.misc import get_arguments
        return self.env(sig, get_arguments(function(sig), *a, **dict(k)))

    def op_bound(self, sig, a, k):
        from satella.coding.misc import get_arguments
        C = type('C', (), dict(m=function(sig, 'self'), c=classmethod(function(sig, 'cls')), s=staticmethod(function(sig))))
        rs = []
        for f in (C().m, C().c, C.c, C.s):
            try:
                rs.append(self.env(sig, get_arguments(f, *a, **dict(k))))
            except TypeError as e:
                rs.append(e)
        assert all(type(x) is type(rs[0]) and (isinstance(x, Exception) or x == rs[0]) for x in rs), rs
        if isinstance(rs[0], Exception):
            raise rs[0]
        return rs[0]

    def op_roundtrip(self, sig, a, k):
        from satella.coding.misc import get_arguments, call_with_arguments
        f = function(sig)
        return call_with_arguments(f, get_arguments(f, *a, **dict(k)))

    def op_callwith(self, sig, d):
        from satella.coding.misc import call_with_arguments
        kind = {p['n']: p['k'] for p in sig}
        return call_with_arguments(function(sig), {n: tuple(v) if kind.get(n) == 'va' else dict(v) if kind.get(n) == 'vk' else v for n, v in d})

    def op_tresult(self, sig, a, k):
        from satella.coding.decorators import transform_result
        f = function(sig)
        from satella.coding.decorators import wraps
        return transform_result('x * 100 + a')(wraps(f)(lambda *aa, **kk: total(f(*aa, **kk))))(*a, **dict(k))

    def op_targs(self, sig, a, k):
        from satella.coding.decorators import transform_arguments
        return transform_arguments(a='a + b', b='a * 2')(function(sig))(*a, **dict(k))

    def op_forarg(self, sig, a, k, ops, kops):
        from satella.coding.decorators import for_argument
        o = [FN[x] if x else random.choice([None, 'self']) for x in ops]
        return for_argument(*o, **{n: FN[x] if x else None for n, x in kops}, returns=lambda r: ['result', r])(function(sig))(*a, **dict(k))

    def op_replace(self, sig, a, k, m):
        from satella.coding.decorators import replace_argument_if
        from satella.coding.predicates import x
        return replace_argument_if('a', x + 100, **(dict(instance_of=int) if m == 'int' else dict(predicate=x % 2 == 0)))(function(sig))(*a, **dict(k))

    def op_attach(self, sig, a, k, y, l):
        from satella.coding.decorators import attach_arguments
        f = attach_arguments(*y, **dict(l))(function(sig))
        assert f.__name__ == 'f' and f.__doc__ == 'doc'
        try:
            f(*a, **dict(k))
        except TypeError:
            pass
        return f(*a, **dict(k))

    def op_chain(self, sig, a, k, m):
        from satella.coding.decorators import chain_functions

        @chain_functions
        def first(*aa, **kk):
            return dict(both=(tuple(a), dict(k)), args=tuple(a), kwargs=dict(k), value=a[0])[m]
        return first(function(sig))(7, y=7)

    def op_adapt(self, sig, a, k, m):
        from satella.coding.decorators import auto_adapt_to_methods

        @auto_adapt_to_methods
        def deco(f):
            def g(*aa, **kk):
                return f(*(v * 2 for v in aa), **{n: v * 2 for n, v in kk.items()})
            return g
        if m == 'function':
            f = deco(function(sig))
        elif m == 'method':
            class C:
                f = deco(function(sig, 'self'))
            f = C().f
        else:
            class C:
                f = staticmethod(deco(function(sig)))
            f = C().f
        return f(*a, **dict(k))

    def op_copied(self, m):
        from satella.coding.decorators import copy_arguments

        @copy_arguments(m == 'deep')
        def f(x, k):
            for q in (x, k):
                q['in'].append(1)
                q['new'] = 2
        x, k = {'in': []}, {'in': []}
        f(x, k=k)
        assert x == k, (x, k)
        return ['top kept' if 'new' not in x else 'top changed', 'inside kept' if not x['in'] else 'inside changed']


def gen_args(w):
    w.replay_spec(Ar, [dict(x=0)])
    r = w.rng
    names = ['a', 'b', 'c', 'd']
    for _ in range(w.n(3000, 100000)):
        sig = []
        npos, nko = r.randint(0, 3), r.randint(0, 2)
        npo = r.randint(0, npos)
        q = names[:]
        r.shuffle(q)
        dflt = r.randint(0, npos)
        for i in range(npos):
            sig.append(dict(n=q.pop(), k='po' if i < npo else 'pk', d=[r.randint(10, 19)] if i >= dflt else []))
        if r.random() < 0.4:
            sig.append(dict(n='r', k='va', d=[]))
        for i in range(min(nko, len(q))):
            sig.append(dict(n=q.pop(), k='ko', d=[r.randint(10, 19)] if r.random() < 0.5 else []))
        if r.random() < 0.4:
            sig.append(dict(n='s', k='vk', d=[]))
        a = [r.randint(0, 9) for _ in range(r.choice([npos, r.randint(0, 5)]))]
        k = [[n, r.randint(0, 9)] for n in r.sample(['a', 'b', 'c', 'd', 'z'], r.randint(0, 3))]
        if r.random() < 0.6:
            # make the call fit
            bound = [p['n'] for p in sig if p['k'] in ('po', 'pk')][:len(a)]
            kk = {n: v for n, v in k if n not in bound and (any(p['k'] == 'vk' for p in sig) or n in [p['n'] for p in sig if p['k'] in ('pk', 'ko')])}
            for p in sig:
                if p['k'] in ('pk', 'ko') and not p['d'] and p['n'] not in bound:
                    kk.setdefault(p['n'], r.randint(0, 9))
            k = [[n, v] for n, v in kk.items()]
            r.shuffle(k)
        k = [x for x in k if x[0] not in [p['n'] for p in sig if p['k'] == 'po'] or not any(p['k'] == 'vk' for p in sig)]
        named = [p['n'] for p in sig if p['k'] in ('po', 'pk', 'ko')]
        ops = [O(r.choice(['get', 'roundtrip', 'bound']), sig, a, k), O('replace', sig, a, k, r.choice(['int', 'even'])), O('attach', sig, a[:1], k, a[1:], [['z', 5]] if r.random() < 0.5 else [])]
        if 'a' in named:
            ops.append(O('tresult', sig, a, k))
        if 'a' in named and 'b' in named:
            ops.append(O('targs', sig, a, k))
        d = [[p['n'], [1, 2] if p['k'] == 'va' else [['z', 3]] if p['k'] == 'vk' else r.randint(0, 9)] for p in sig if r.random() < 0.8]
        r.shuffle(d)
        ops.append(O('callwith', sig, d))
        w.seq(dict(x=0), ops, Ar)


PROP = dict(
    title='Argument decorators bind, transform and pass arguments as Python would',
    statement='get_arguments(f, *args, **kwargs) gives exactly the parameters a call f(*args, **kwargs) would bind (defaults, *args and **kwargs included; without self or cls of a bound method), and raises TypeError when that call would; call_with_arguments calls f with exactly the arguments in the dictionary (defaults for those missing), '
              'raises TypeError if one is missing and ValueError if one is not a parameter. transform_result, transform_arguments (from the old arguments), for_argument (the i-th operation on the i-th positional argument, named ones on theirs, nothing else; also on defaults; returns on the result), replace_argument_if (only if it is an instance, or '
              'the predicate holds), attach_arguments, copy_arguments, chain_functions (by the type the first function returns) and auto_adapt_to_methods work for every signature and every way of passing the arguments.',
    over=['inputs'], text='a dozen signatures of all five kinds of parameters with all short argument lists, plus random signatures and calls',
    why='the guarantee ranges over every signature and every way to call it',
    files=['satella/coding/misc.py', 'satella/coding/decorators/arguments.py', 'satella/coding/decorators/decorators.py'],
    mech=[('binding', 'misc.py get_arguments, call_with_arguments'), ('transformations', 'arguments.py transform_result, transform_arguments, for_argument, replace_argument_if, attach_arguments, copy_arguments'), ('composition', 'decorators.py chain_functions; arguments.py auto_adapt_to_methods')],
    note='a keyword argument with the name of a positional-only parameter next to **kwargs (inspect.Signature.bind differs from a call there) is not checked; for_argument on *args of a function with default values, and its positional operations on arguments passed by keyword to a function without defaults, are not checked; auto_adapt_to_methods below classmethod is not checked')
