import sys
import types
import warnings
from concurrent.futures import Future

from vt import Part

PARTS = [
    Part('functions', 'Tracing', 'F', depth=(3, 4), max_paths=(6000, 40000), shards=(1, 4)),
    Part('futures', 'Tracing', 'U', depth=(5, 6), max_paths=(6000, 60000), shards=(2, 4)),
    Part('exceptions', 'Tracing', 'E', depth=(2, 3), max_paths=(6000, 40000), shards=(1, 2)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Span:
    """as that of the opentracing package, which is not installed here"""

    def __init__(self):
        self.tags, self.logs, self.finished = {}, [], 0

    def set_tag(self, k, v):
        self.tags[k] = v
        return self

    def log_kv(self, d, timestamp=None):
        self.logs.append(d)
        return self

    def finish(self, finish_time=None):
        self.finished += 1

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        Span._on_error(self, exc_type, exc_val, exc_tb)
        self.finish()

    @staticmethod
    def _on_error(span, exc_type, exc_val, exc_tb):
        if not span or not exc_val:
            return
        span.set_tag('error', True)
        span.log_kv({'event': 'error', 'message': str(exc_val), 'error.object': exc_val, 'error.kind': exc_type, 'stack': exc_tb})


class ResponseFuture:
    """as that of the Cassandra driver"""

    def __init__(self):
        self.cb, self.eb, self.v = [], [], None

    def add_callback(self, fn, *args, **kwargs):
        if self.v is not None and self.v[0]:
            fn(self.v[1], *args, **kwargs)
        elif self.v is None:
            self.cb.append((fn, args, kwargs))
        return self

    def add_errback(self, fn, *args, **kwargs):
        if self.v is not None and not self.v[0]:
            fn(self.v[1], *args, **kwargs)
        elif self.v is None:
            self.eb.append((fn, args, kwargs))
        return self

    def add_callbacks(self, callback, errback, callback_args=(), callback_kwargs=None, errback_args=(), errback_kwargs=None):
        self.add_callback(callback, *callback_args, **(callback_kwargs or {}))
        self.add_errback(errback, *errback_args, **(errback_kwargs or {}))

    def done(self, ok, v):
        self.v = ok, v
        for fn, a, k in self.cb if ok else self.eb:
            fn(v, *a, **k)


def modules():
    """the packages these modules are for, as much of them as is used"""
    if not hasattr(sys.modules.get('opentracing'), 'of_the_check'):
        m = types.ModuleType('opentracing')
        m.Span, m.of_the_check = Span, True
        sys.modules['opentracing'] = m
        c, cl = types.ModuleType('cassandra'), types.ModuleType('cassandra.cluster')
        c.cluster, cl.ResponseFuture = cl, ResponseFuture
        sys.modules['cassandra'], sys.modules['cassandra.cluster'] = c, cl
        for k in list(sys.modules):
            if k.startswith(('satella.opentracing', 'satella.cassandra')):
                del sys.modules[k]
    import importlib
    warnings.simplefilter('ignore')
    return importlib.import_module('satella.opentracing'), importlib.import_module('satella.cassandra')


class Tracer:
    def __init__(self, swallow):
        self.spans, self.active, self.swallow = [], [], swallow

    def start_active_span(self, name, tags=None, **kw):
        assert name == 'name' and not kw
        tracer = self

        class Scope:
            def __enter__(self):
                self.span = Span()
                self.span.tags = dict(tags) if tags else {}
                tracer.spans.append(self.span)
                tracer.active.append(self.span)
                return self

            def __exit__(self, *a):
                assert tracer.active.pop() is self.span
                self.span.finish()
                return tracer.swallow[0]
        return Scope()


def tried(fn):
    from drive import Raw, exc
    try:
        return fn()
    except Exception as e:
        return Raw(*exc(e))


class Functions:
    def __init__(self, cfg):
        ot, _ = modules()
        self.tags = dict(none=None, static={'a': 1}, empty={})[cfg['t']]
        self.was = None if self.tags is None else dict(self.tags)
        fac = {'b': lambda x, *a, **k: x, 'c': lambda x, how, **k: 9}
        fac = dict(none=None, list=list(fac.items()), dict=fac)[cfg['f']]
        self.swallow = [False]
        self.tracer = Tracer(self.swallow)
        self.inside = []

        @ot.trace_function(self.tracer, 'name', self.tags, fac)
        def fun(x, how):
            self.inside.append(len(self.tracer.active))
            if how == 'nested':
                if x:
                    fun(x - 1, how)
                return None
            if how != 'returns':
                raise ValueError()
            return x + 1
        self.fun = fun
        assert fun.__name__ == 'fun'

    def show(self, s):
        return ['%s=%s' % p for p in sorted(s.tags.items())]

    def op_call(self, k, x, how):
        self.swallow[0] = how == 'swallowed'
        r = tried(lambda: self.fun(x, how))
        s = self.tracer.spans[-1]
        return [len(self.tracer.spans), self.show(s), s.finished == 1, self.inside[-1] == 1 and not self.tracer.active, r]

    def op_nested(self, d):
        self.swallow[0] = False
        n = len(self.tracer.spans)
        self.fun(d, how='nested') if d == 1 else self.fun(x=d, how='nested')
        return [self.show(s) for s in self.tracer.spans[n:]]

    def op_spans(self):
        return [len(self.tracer.spans), sum(s.finished for s in self.tracer.spans)]

    def op_tags(self):
        return self.tags == self.was


FC = [('none', 'none'), ('static', 'none'), ('none', 'list'), ('static', 'list'), ('static', 'dict'), ('none', 'dict'), ('empty', 'list')]


def gen_functions(w):
    w.replay_spec(Functions, [dict(t=t, f=f) for t, f in FC], final=[O('spans'), O('tags')])


class Futures:
    def __init__(self, cfg):
        self.ot, self.ca = modules()
        self.f, self.span, self.w, self.e = [None], [None], [None], [None]

    def op_new(self, kind):
        self.f.append(Future() if kind == 'future' else ResponseFuture())
        self.span.append(Span())
        self.w.append(None)
        self.e.append(None)
        return len(self.f) - 1

    def op_trace(self, i):
        return self.ot.trace_future(self.f[i], self.span[i])

    def op_finish(self, i, how):
        f = self.f[i]
        if how == 'exception':
            try:
                raise ValueError('message')
            except ValueError as e:
                self.e[i] = e
        if isinstance(f, Future):
            if how == 'exception':
                f.set_exception(self.e[i])
            else:
                f.set_result(7)
        else:
            f.done(how == 'result', 7 if how == 'result' else self.e[i])

    def op_cancel(self, i):
        import logging
        logging.disable(logging.CRITICAL)
        return self.f[i].cancel()

    def op_look(self, i):
        s, f = self.span[i], self.f[i]
        out = [s.finished]
        if s.finished and isinstance(f, Future) and f.cancelled():
            return out
        logged = [x for x in s.logs if x.get('error.object') is self.e[i] and x.get('error.kind') is ValueError and x.get('message') == 'message']
        return out + [s.tags.get('error', False), len(logged) == 1]

    def op_wrap(self, i):
        self.w[i] = self.ca.wrap_future(self.f[i])
        assert isinstance(self.w[i], Future)
        return self.w[i] is self.f[i]

    def op_wrapped(self, i):
        from drive import Raw
        f = self.w[i]
        if not f.done():
            return 'running' if f.running() else 'pending'
        try:
            return f.result(0)
        except BaseException as e:
            assert type(e) is not ValueError or e is self.e[i]
            return Raw('exc', type(e).__name__)


def gen_futures(w):
    w.replay_spec(Futures, [dict(x=0)], final=[])
    r = w.rng
    for _ in range(w.n(150, 5000)):
        ops, fs = [], []
        for _ in range(r.randint(4, 24)):
            k = r.random()
            i = r.randint(1, len(fs)) if fs else 0
            if not fs or k < .15:
                fs.append(dict(k=r.choice(['future', 'cassandra']), done=False, traced=False, wrapped=False))
                ops.append(O('new', fs[-1]['k']))
                continue
            f = fs[i - 1]
            if k < .3 and not f['traced']:
                f['traced'] = True
                ops.append(O('trace', i))
            elif k < .45 and not f['done']:
                f['done'] = True
                ops.append(O('cancel', i) if f['k'] == 'future' and r.random() < .3 else O('finish', i, r.choice(['result', 'exception'])))
            elif k < .6:
                ops.append(O('wrapped' if f['wrapped'] else 'wrap', i))
                f['wrapped'] = True
            else:
                ops.append(O('look', i))
        for i, f in enumerate(fs, 1):
            ops.append(O('look', i))
            if f['wrapped']:
                ops.append(O('wrapped', i))
        w.seq(dict(x=0), ops, Futures)


class Exceptions:
    def __init__(self, cfg):
        self.ot, _ = modules()
        self.ot.set_maximum_traceback_length(65536)

    def op_set_limit(self, n):
        self.ot.set_maximum_traceback_length(n)

    def op_trace(self, given, handling, depth, limit):
        span = Span()

        def fail(n):
            a_local_of_it = 'some text of a local variable'
            if n:
                fail(n - 1)
            raise ValueError('message')

        def trace(e):
            kw = {}
            if given in ('type', 'all'):
                kw['exc_type'] = type(e)
            if given in ('type', 'value', 'all'):
                kw['exc_val'] = e
            if given == 'value':
                kw['exc_type'] = type(e)
            if given == 'all':
                kw['exc_tb'] = e.__traceback__
            if limit:
                kw['max_tb_length'] = limit
            self.ot.trace_exception(None if given == 'no span' else span, **kw)
        try:
            fail(depth)
        except ValueError as e:
            err = e
            if handling:
                trace(e)
        if not handling:
            trace(err)
        if not span.logs:
            assert not span.tags
            return [0]
        d = span.logs[-1]
        return [len(span.logs), span.tags == {'error': True}, d['event'], d['message'], d['error.kind'].__name__, d['error.object'] is err,
                len(d['stack']) <= 40, 'op_trace' in d['stack'] or 'Traceback' in d['stack'] and len(d['stack']) > 40]


def gen_exceptions(w):
    w.replay_spec(Exceptions, [dict(x=0)], final=[])


PROP = dict(
    title='A span lasts as long as what it is of, has its tags, and its exception if any',
    statement='Each call of a traced function, nested or raising too, is within a span of its own that ends with it, with exactly the tags given and those computed of the arguments of this call, the answer being that of '
              'the function and the tags given not being changed. A span of a future is finished once, when the future is done, be it with a result, an exception (which is logged, with its kind) or by '
              'cancelling; a future of Cassandra converted is running until that, then has the same result or exception, and an ordinary one is itself. Logging an exception, given or being handled, '
              'sets the error tag, and logs the exception with its stack, which is not longer than the limit; without a span or exception nothing happens.',
    over=['histories', 'inputs', 'configurations'],
    text='All the histories of three calls of seven kinds of traced functions; of five operations upon two futures and long random ones; of two exceptions traced in five ways with five limits',
    why='the tests use mocks that accept anything, so that an exception never being attached to the span was not noticed',
    files=['satella/opentracing/trace.py', 'satella/opentracing/exceptions.py', 'satella/opentracing/__init__.py', 'satella/cassandra/future.py', 'satella/cassandra/__init__.py'],
    mech=[('calls', 'trace.py trace_function'), ('futures', 'trace.py trace_future; cassandra/future.py'), ('exceptions', 'exceptions.py trace_exception')],
    note='the packages opentracing and cassandra are not installed: stand-ins having the documented interfaces take their place; what a span of a cancelled future has in it is left open',
    design='Specification Tracing.tla: spans as counters of started and finished, futures as three-state automata.',
)
