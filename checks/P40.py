import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

from vt import Part

PARTS = [
    Part('imports', 'Modules', 'I', depth=(3, 4), max_paths=(30, 400), shards=(3, 8)),
    Part('trees', 'Modules', 'T', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 4)),
    Part('exceptions', 'Modules', 'X', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 2)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


SCRIPT = '''
import importlib, json, sys, types, warnings
warnings.simplefilter('ignore')
loaded = []
while True:
    line = sys.stdin.readline()
    if not line:
        break
    m = json.loads(line)
    if m is None:
        bad = [x.__name__ + '.' + str(n) for x in loaded for n in getattr(x, '__all__', ()) if not isinstance(n, str) or not hasattr(x, n)]
        print(json.dumps(bad), flush=True)
        continue
    try:
        loaded.append(importlib.import_module(m))
        print(json.dumps(None), flush=True)
    except BaseException as e:
        print(json.dumps(repr(e)), flush=True)
'''


class Imports:
    """a fresh interpreter"""

    def __init__(self, cfg):
        env = dict(os.environ, PYTHONPATH=[p for p in sys.path if os.path.isdir(os.path.join(p, 'satella'))][0])
        self.p = subprocess.Popen([sys.executable, '-c', SCRIPT], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def ask(self, x):
        self.p.stdin.write(json.dumps(x) + '\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def op_import(self, m):
        r = self.ask(m)
        if r is not None:
            raise ImportError(r)

    def op_missing(self):
        return self.ask(None)

    def finish(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


def modules():
    import satella
    top = os.path.dirname(os.path.dirname(os.path.abspath(satella.__file__)))
    out = []
    for d, ds, fs in os.walk(os.path.join(top, 'satella')):
        ds[:] = [x for x in ds if os.path.exists(os.path.join(d, x, '__init__.py'))]
        for f in fs:
            if f.endswith('.py') and f != '__main__.py':
                m = os.path.relpath(os.path.join(d, f), top)[:-3].replace(os.sep, '.')
                out.append(m[:-9] if m.endswith('.__init__') else m)
    return sorted(out)


def gen_imports(w):
    import satella
    w.replay_spec(Imports, [dict(x=0)], final=[O('missing')])
    ms = modules()
    for i, m in enumerate(ms):
        if i % w.nshards == w.shard:
            w.seq(dict(x=0), [O('import', m), O('missing')], Imports)
    for _ in range(w.n(4, 200)):
        w.seq(dict(x=0), [O('import', m) for m in w.rng.sample(ms, 6)] + [O('missing')], Imports)


class Trees:
    known = AttributeError,
    count = 0

    def __init__(self, cfg):
        self.dir = tempfile.mkdtemp(prefix='vmodules')

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, d, name, children, all_, items, path):
        p = os.path.join(d, name)
        os.mkdir(p)
        self.source(os.path.join(p, '__init__.py'), all_, items, path)
        for c in children:
            if c[0] == 'mod':
                self.source(os.path.join(p, c[1] + '.py'), c[2], c[3], path + '.' + c[1])
            else:
                self.write(p, c[1], c[4], c[2], c[3], path + '.' + c[1])

    def source(self, f, all_, items, path):
        with open(f, 'w') as o:
            for x in items:
                o.write('%s = %r\n' % (x, path + '.' + x))
            if all_ != ['none']:
                o.write('__all__ = %r\n' % (list(all_),))

    def look(self, ns, all_, children, top):
        """what there is, in the order of __all__"""
        q = [[n, ns[n].__name__.replace(top, 'top') if hasattr(ns[n], '__spec__') else ns[n]] for n in all_ or [] if n in ns]
        subs = []
        for c in children:
            if c[0] == 'pkg' and hasattr(ns.get(c[1]), '__path__') and (all_ is None or c[1] in all_):
                m = ns[c[1]]
                subs.append([c[1], self.look(vars(m), m.__all__, c[4], top)
                             if hasattr(m, '__all__') else self.sub_only(vars(m), c[4], top)])
        return [q, subs]

    def sub_only(self, ns, children, top):
        return ['noall', self.look(ns, None, children, top)[1]]

    def op_import_from(self, children, recursive, fail, create, skip, skipna):
        from satella.imports import import_from
        Trees.count += 1
        name = 'vtop%d' % Trees.count
        self.write(self.dir, name, children, [], [], 'top')
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        before = set(sys.modules)
        try:
            top = importlib.import_module(name)
            ns, all_ = {}, []
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import_from(top.__path__, name, all_, ns, recursive=recursive, fail_on_attributerror=fail, create_all=create, skip_single_underscores=skip, skip_not_having_all=skipna)
            assert {x for x in ns if not x.startswith('__')} == {x for x in all_ if not x.startswith('__')}, (ns, all_)
            return self.look(ns, [x for x in all_ if not x.startswith('__')], children, name)
        finally:
            sys.path.remove(self.dir)
            for x in set(sys.modules) - before:
                if x.startswith(name):
                    del sys.modules[x]


def gen_trees(w):
    import satella.imports
    w.replay_spec(Trees, [dict(x=0)])
    r = w.rng
    items = ['_h', 'a', 'b', 'c']

    def children(d):
        names = sorted(r.sample(['_m', '_p', 'email', 'json', 'm', 'n', 'p', 'xml'], r.randint(1, 4)))
        out = []
        for n in names:
            its = [x for x in items if r.random() < 0.6]
            al = ['none'] if r.random() < 0.3 else [x for x in items if r.random() < 0.3 and x in its or r.random() < 0.08]
            if d and r.random() < 0.5:
                if al != ['none']:
                    al = [x for x in al if x in its]
                out.append(['pkg', n, al, its, children(d - 1)])
            else:
                out.append(['mod', n, al, its])
        return out

    def no_all(cs):
        return any(c[2] == ['none'] and c[0] == 'mod' or c[0] == 'pkg' and no_all(c[4]) for c in cs)
    for _ in range(w.n(150, 5000)):
        c = children(2)
        w.seq(dict(x=0), [O('import_from', c, *[r.random() < 0.7 for _ in range(3)], no_all(c) or r.random() < 0.7, r.random() < 0.3)], Trees)


CODES = [None, 0, '', 'x']      # codes can be false


class Exceptions:
    def __init__(self, cfg):
        from satella.exceptions import CodedCustomException, CustomException, BaseSatellaError
        C = dict(Coded=CodedCustomException)
        for n, b, code in (('Root1', 'Coded', 0), ('A', 'Root1', 1), ('B', 'A', 2), ('C', 'Root1', 0), ('D', 'Root1', 0), ('E', 'C', 1), ('Root2', 'Coded', 3), ('F', 'Root2', 1)):
            C[n] = type(CodedCustomException)(n, (C[b],), dict(code=CODES[code]) if code or n in 'CD' else {})
        self.c = C

        class Mine(CustomException):
            __module__ = 'here'
        Mine.__qualname__ = 'Mine'

        class Inner(CustomException):
            __module__ = 'here'
        Inner.__qualname__ = 'Outer.Mine'
        self.t = {'Mine': Mine, 'Outer.Mine': Inner, 'BaseSatellaError': BaseSatellaError}

    def v(self, x):
        return None if x[0] == 'none' else x[1]

    def op_text(self, n, args, kw):
        e = self.t[n](*map(self.v, args), **{k: self.v(x) for k, x in kw})
        return [str(e), repr(e)]

    def op_isinstance(self, x, code, c):
        e = self.c[x]('message', CODES[code]) if code else self.c[x]('message')
        assert e.message == 'message'
        return isinstance(e, self.c[c])

    def op_foreign(self, c):
        class Code:
            code = 0
        return any(isinstance(x, self.c[c]) for x in (5, None, ValueError(), Code()))

    def op_caught(self, x, c):
        try:
            try:
                raise self.c[x]('message')
            except self.c[c]:
                return True
        except Exception:
            return False

    def op_shuffle(self, n, k):
        from satella.random import shuffle_together
        a = [[10 * (j + 1) + i + 1 for i in range(n)] for j in range(k)]
        b = [tuple(x) for x in a]
        q = shuffle_together(*[x if j % 2 else tuple(x) for j, x in enumerate(a)])
        assert [tuple(x) for x in a] == b
        return q

    def op_word(self, n, c):
        from satella.random import random_word
        x = random_word(n, c)
        y = random_word(n, c, join_fun=tuple)
        assert type(y) is tuple and len(y) == n and set(y) <= set(c)
        z = random_word(n)
        assert len(z) == n and (not z or z.isalpha() and z.islower())
        return x

    def op_all_shuffles(self, n):
        from satella.random import shuffle_together
        return len({tuple(shuffle_together(list(range(n)))[0]) for _ in range(800)})

    def op_all_words(self, n, c):
        from satella.random import random_word
        return len({random_word(n, c) for _ in range(800)})

    def op_class(self, path):
        from satella.imports import import_class
        return import_class(path).__name__

    def op_binary(self, n):
        from satella.random import random_binary
        b = random_binary(n)
        assert type(b) is bytes
        return len(b)

    def op_disabled(self):
        from satella.warnings import mark_temporarily_disabled
        with warnings.catch_warnings(record=True) as q:
            warnings.simplefilter('always')

            @mark_temporarily_disabled('a reason')
            def f(x):
                return x
        assert len(q) == 1 and 'a reason' in str(q[0].message)
        return f(1)


def gen_exceptions(w):
    import satella.exceptions
    import satella.random
    w.replay_spec(Exceptions, [dict(x=0)])
    for _ in range(w.n(30, 500)):
        w.seq(dict(x=0), [O('shuffle', 5, 2), O('word', 4, ['a', 'b', 'c']), O('binary', w.rng.randint(0, 5000))], Exceptions)


PROP = dict(
    title='Modules importable in any order, import_from, exceptions and their codes, random',
    statement='Every module of satella can be imported, first or after any others, and has all that its __all__ lists. import_from puts into the namespace and __all__ exactly the items, and packages if recursive, of the modules of that package, skipping what it was told to, whatever they are named, and fails only if told to. '
              'Text of a CustomException has its arguments; an instance with a code is an instance of the classes of its hierarchy with that code, and of no others but its bases. shuffle_together permutes all sequences alike; random words and bytes have the given length and alphabet.',
    over=['inputs', 'histories'], text='each of about 170 modules imported first, histories of 3 (4) and random ones of 6 imports; 6 trees with 32 options each, random trees of depth 3; all pairs of 9 classes with 4 codes', why='tests import in one fixed order, one tree, one hierarchy',
    files=['satella/imports.py', 'satella/exceptions.py', 'satella/random.py', 'satella/warnings.py', 'satella/__init__.py', 'satella/coding/__init__.py', 'satella/configuration/__init__.py', 'satella/coding/structures/__init__.py', 'satella/coding/concurrent/__init__.py', 'satella/coding/sequences/__init__.py', 'satella/coding/decorators/__init__.py', 'satella/instrumentation/__init__.py', 'satella/instrumentation/metrics/__init__.py'],
    mech=[('imports', 'all modules'), ('import_from', 'imports.py'), ('exceptions', 'exceptions.py'), ('random', 'random.py')], note='that what is random is uniformly distributed is not checked')
