import io
import json
import pickle
import sys
import types
import zlib

from vt import Part

PARTS = [
    Part('stored', 'Tracebacks', 'V', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 4)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Bad:
    def __repr__(self):
        raise RuntimeError('no repr')

    def __eq__(self, o):
        return isinstance(o, Bad)


def fails():
    raise RuntimeError('cannot be loaded')


class Odd:
    def __reduce__(self):
        return fails, ()


class Die:
    def __reduce__(self):
        raise KeyboardInterrupt('while pickling')


MOD = types.ModuleType('a_module_that_goes_away')


class Gone:
    pass


Gone.__module__ = MOD.__name__
MOD.Gone = Gone
for c in (Bad, Odd, Die, fails):
    c.__module__ = 'a_module_that_stays'
M2 = types.ModuleType('a_module_that_stays')
M2.Bad, M2.Odd, M2.Die, M2.fails = Bad, Odd, Die, fails
sys.modules[M2.__name__] = M2


def value(kind):
    return dict(num=12345, big=b'z' * 1000, fun=lambda: 1, bad=Bad(), gone=Gone(), odd=Odd(), die=Die())[kind]


def level(p):
    return {0: 9, -2: 1}.get(p['at'], 6)


def policy(p, v=None):
    from satella.instrumentation.trace_back import GenerationPolicy
    at = p['at']
    if at < 0:
        try:
            at = len(pickle.dumps(v, pickle.HIGHEST_PROTOCOL)) + 1 + at
        except BaseException:
            at = 10
    return GenerationPolicy(enable_pickling=p['on'], compress_at=at, compression_level=level(p), repr_length_limit=None if p['limit'] == -1 else p['limit'])


def through(o, chain):
    for c in chain:
        if c == 'json':
            o = type(o).from_json(json.loads(json.dumps(o.to_json())))
        elif hasattr(o, 'pickle_to') and len(chain) % 2:
            b = io.BytesIO()
            o.pickle_to(b)
            b.seek(0)
            o = type(o).from_pickle(b)
        elif hasattr(o, 'from_pickle'):
            o = type(o).from_pickle(o.pickle())
        else:
            o = pickle.loads(pickle.dumps(o))
    return o


def loaded(s, v):
    try:
        x = s.load_value()
    except ValueError:
        return 'ValueError'
    return 'loaded' if x == v else 'something else'


class Tr:
    def __init__(self, cfg):
        pass

    def op_value(self, kind, p, chain):
        from satella.instrumentation.trace_back import StoredVariableValue
        v = value(kind)
        sys.modules[MOD.__name__] = MOD
        try:
            s = StoredVariableValue(v, policy(p, v))
            if s.pickle_type in ('pickle', 'pickle/gzip'):
                b = pickle.dumps(v, pickle.HIGHEST_PROTOCOL)
                assert s.pickle == (b if s.pickle_type == 'pickle' else zlib.compress(b, level(p)))
        finally:
            del sys.modules[MOD.__name__]
        s0, s = s, through(s, chain)
        assert s == s0 and (s.pickle, s.pickle_type, s.repr) == (s0.pickle, s0.pickle_type, s0.repr) and s.type_ == repr(type(v)) and str(s) == s.repr
        if kind in ('num', 'big'):
            r = repr(v)
            n = len(s.repr)
            assert s.repr == r or s.repr == r[:n - 3] + '...', s.repr
        else:
            assert isinstance(s.repr, str) and (s.repr or p['limit'] == 0)
            n = 0
        return [n, s.pickle_type, loaded(s, v)]

    def op_trace(self, names, kind, p, chain):
        from satella.instrumentation.trace_back import Traceback
        env = dict(V=value(kind), n=0)
        for i, n in enumerate(names):
            last = i + 1 == len(names)
            if len(set(names)) < len(names):     # one function, calling itself
                exec('def f(V=V, n=%d):\n    the_local = V\n    raise ValueError("the message") if not n else f(V, n - 1)\n' % (len(names) - 1), env)
                break
            exec('def %s(V=V):\n    the_local = V\n    %s\n' % (n, 'raise ValueError("the message")' if last else names[i + 1] + '()'), env)
        try:
            env[names[0]]()
        except ValueError:
            tb = Traceback(policy=policy(p, env['V']))
        t = through(tb, chain)
        fs = t.frames[:len(names)]
        text = t.pretty_format() + str(t)
        ok = all('%s at ' % n in text for n in names) and 'the_local' in text and 'the message' in t.formatted_traceback and all(f.lineno == 3 for f in fs) and len(t.frames) == len(tb.frames) > len(names) and 'V' in fs[0].globals
        return [[f.name for f in fs], [loaded(f.locals['the_local'], env['V']) for f in fs], t == tb, ok]

    def op_garbage(self, k):
        from satella.instrumentation.trace_back import Traceback
        return Traceback.from_pickle(pickle.dumps(dict(str='abc', dict={})[k])) and None


def gen_stored(w):
    w.replay_spec(Tr, [dict(x=0)])


PROP = dict(
    title='A stored traceback keeps what was in its frames, through JSON and pickle',
    statement='Traceback() of the exception in progress has all the frames from the innermost, each with its name, line, local and global variables, for any values of those variables - including values that cannot be pickled and values whose repr() fails, neither of which prevents the rest from being stored. A StoredVariableValue has the repr, cut to the limit of the policy, the type, '
              'and the pickle, compressed if longer than the policy says; load_value() gives the value or raises ValueError if it was not pickled, could not be, or cannot be loaded here. All of this is preserved by to_json/from_json and pickling, in any combination.',
    over=['inputs'], text='7 kinds of values, 50 policies, 7 chains of serialization, tracebacks 1 and 3 functions deep, recursive ones too',
    why='each way of storing and of serializing has its own path, and they combine', files=['satella/instrumentation/trace_back/classes.py', 'satella/instrumentation/trace_back/trace_back.py'],
    mech=[('values', 'classes.py StoredVariableValue'), ('frames', 'classes.py StackFrame, trace_back.py Traceback')], note='chained exceptions are not checked')
