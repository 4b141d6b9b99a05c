import io
import logging
import os
import pickle
import sys
import tempfile
import threading

from vt import Part

PARTS = [
    Part('hooks', 'Hooks', 'H', depth=(4, 6), shards=(2, 6)),
    Part('dumps', 'Dumps', 'D', depth=(1, 1), max_paths=(100000, 100000)),
]


def O(op, *a):
    return dict(op=op, a=list(a))


class Custom(Exception):
    pass


class SubMemory(MemoryError):
    pass


EXC = dict(error=ValueError, memory=MemoryError, exit=SystemExit, interrupt=KeyboardInterrupt, submemory=SubMemory, custom=Custom)


class Hk:
    def __init__(self, cfg):
        import satella.exception_handling as E
        import satella.exception_handling.memerrhandler as M
        self.g = E.GlobalExcepthook()
        self.g.installed_hooks[:] = []
        self.log = []
        self.g.old_excepthook.fun = lambda *a: self.log.append(0)
        self.old = threading.excepthook, sys.stderr
        threading.excepthook = lambda a: a.exc_type is SystemExit or self.log.append(-1)
        sys.stderr = io.StringIO()
        # nothing may be killed
        M.suicide = lambda pg: self.log.append(-2)
        M.time = type('T', (), dict(sleep=staticmethod(lambda s: None)))
        os.kill = os.killpg = lambda *a: self.log.append(-3)
        self.h, self.cb = [], []
        for k, h in enumerate(cfg['h'], 1):
            f = self.fun(k, h['act'])
            self.cb.append(f)
            if h['kind'] == 'fun':
                self.h.append(E.exception_handler(h['prio'])(f) if k % 2 else E.FunctionExceptionHandler(f, h['prio']))
            elif h['kind'] == 'obj':
                C = type('C', (E.BaseExceptionHandler,), dict(handle_exception=lambda s, t, v, tb, f=f: f(t, v, tb) in (True, [False, True])))
                self.h.append(C(h['prio']) if h['prio'] or k % 2 else C())
            else:
                self.h.append(E.MemoryErrorExceptionHandler(custom_hook=f))
        self.n = 0

    def fun(self, k, act):
        def f(t, v, tb):
            assert t is type(v) and v is self.exc, (t, v, self.exc)
            self.log.append(k)
            if act == 'fail':
                raise KeyError('the hook fails')
            return dict(stop=True, no=[False, False], yes=[False, True], one=1).get(act)
        return f

    def finish(self):
        threading.excepthook, sys.stderr = self.old

    def op_install(self, k):
        h = self.h[k - 1]
        if type(h).__name__ == 'MemoryErrorExceptionHandler' or k % 2:
            h.install()
        else:
            assert self.g.add_hook(h) is h

    def op_uninstall(self, k):
        self.n += 1
        if self.n % 2 or type(self.h[k - 1]).__name__ == 'MemoryErrorExceptionHandler':
            self.h[k - 1].uninstall()
        else:
            self.g.remove_hook(self.h[k - 1])

    def op_raise(self, where, what):
        self.log.clear()
        self.exc = EXC[what]()
        if where == 'main':
            try:
                raise self.exc
            except BaseException as e:
                info = type(e), e, e.__traceback__
            sys.excepthook(*info)
        else:
            def run():
                raise self.exc
            self.n += 1
            if self.n % 2:
                t = threading.Thread(target=run)
            else:
                t = type('T', (threading.Thread,), dict(run=lambda s: run()))()
            t.start()
            t.join()
        return list(self.log)


class File:
    """only what a stream has to have"""

    def __init__(self, flush):
        self.q = []
        if flush:
            self.flush = lambda: None

    def write(self, s):
        self.q.append(s)

    def value(self):
        return (b'' if self.q and isinstance(self.q[0], bytes) else '').join(self.q)


class Du:
    def __init__(self, cfg):
        self.level = logging.root.manager.disable
        logging.disable(logging.NOTSET)

    def finish(self):
        logging.disable(self.level)

    def op_dump(self, where, sinks, pickles):
        import satella.exception_handling as E
        with tempfile.TemporaryDirectory() as d:
            got, hr, pk = [], [], []
            for i, s in enumerate(sinks + pickles):
                human = i < len(sinks)
                if s == 'file':
                    p = os.path.join(d, 'f%d' % i)
                    o, get = p, lambda p=p, human=human: open(p, 'r' if human else 'rb').read()
                elif s == 'dir':
                    p = os.path.join(d, 'd%d' % i)
                    os.mkdir(p)

                    def get(p=p, human=human):
                        fs = os.listdir(p)
                        assert len(fs) == 1
                        return open(os.path.join(p, fs[0]), 'r' if human else 'rb').read()
                    o = p
                elif s in ('stream', 'flush'):
                    o = File(s == 'flush')
                    get = o.value
                elif s in ('logger', 'level', 'severe'):
                    lg = logging.Logger('x%d' % i)
                    st = io.StringIO()
                    hd = logging.StreamHandler(st)
                    hd.setFormatter(logging.Formatter('%(levelname)s %(message)s'))
                    lg.addHandler(hd)
                    o = lg if s == 'logger' else (lg, logging.WARNING if s == 'level' else logging.CRITICAL)
                    if s == 'severe':
                        lg.setLevel(logging.CRITICAL)

                    def get(st=st, s=s):
                        t = st.getvalue()
                        assert t.startswith(dict(logger='ERROR', level='WARNING', severe='CRITICAL')[s])
                        return t
                else:
                    o, get = None, lambda: None
                if s == 'bad':
                    o = 17
                (hr if human else pk).append(E.AsStream(o, human) if s == 'file' and i % 2 else o)
                got.append(get)
            h = E.DumpToFileHandler(hr, pk) if pk else E.DumpToFileHandler(hr)

            def inner(secret_local):
                raise ValueError('the message')

            def outer():
                inner(12345)
            try:
                outer()
            except ValueError as e:
                info = type(e), e, e.__traceback__
                if where == 'inside':
                    assert not h.handle_exception(*info)
            if where == 'outside':
                assert not h.handle_exception(*info)
            out = []
            for i, g in enumerate(got):
                v = g()
                if v is None:
                    out.append(None)
                elif i < len(sinks):
                    out.append(all(x in v for x in ('ValueError', 'the message', 'inner', 'outer', 'secret_local', '12345')))
                else:
                    tb = pickle.loads(v)
                    assert type(tb).__name__ == 'Traceback'
                    out.append(tb.frames[0].name == 'inner' and tb.frames[0].locals['secret_local'].load_value() == 12345 and tb.frames[1].name == 'outer' and 'the message' in tb.formatted_traceback)
            return out


def gen_hooks(w):
    H = lambda k, p, a: dict(kind=k, prio=p, act=a)
    w.replay_spec(Hk, [dict(h=[H('fun', 0, 'pass'), H('fun', 0, 'stop'), H('obj', -5, 'fail')]), dict(h=[H('fun', 1, 'yes'), H('fun', 0, 'no'), H('obj', 0, 'pass')]), dict(h=[H('mem', -1000, 'pass'), H('obj', 0, 'stop')]),
                       dict(h=[H('mem', -1000, 'yes'), H('fun', -2000, 'fail')]), dict(h=[H('mem', -1000, 'fail'), H('fun', 20000, 'stop')])], [O('raise', 'main', 'error'), O('raise', 'thread', 'memory'), O('raise', 'main', 'memory')])
    r = w.rng
    for _ in range(w.n(200, 5000)):
        hs = []
        for _ in range(r.randint(1, 7)):
            k = r.choice(['fun', 'obj', 'fun', 'obj', 'mem'])
            hs.append(H(k, -1000 if k == 'mem' else r.choice([0, 0, 0, 1, -1, 5, -1000, 1000, 10000, 10001, -2000]), r.choice(['pass'] * 4 + ['no', 'no', 'fail', 'fail', 'stop', 'yes', 'one'])))
        w.seq(dict(h=hs), [r.choice([O('install', r.randint(1, len(hs))), O('install', r.randint(1, len(hs))), O('uninstall', r.randint(1, len(hs))), O('raise', r.choice(['main', 'thread']), r.choice(['error', 'custom', 'memory', 'exit', 'interrupt', 'submemory']))]) for _ in range(r.randint(4, 25))]
              + [O('raise', 'main', 'error')], Hk)


def gen_dumps(w):
    w.replay_spec(Du, [dict(x=0)])
    r = w.rng
    for _ in range(w.n(40, 1000)):
        w.seq(dict(x=0), [O('dump', r.choice(['inside', 'outside']), [r.choice(['file', 'dir', 'stream', 'flush', 'none', 'logger', 'level', 'severe']) for _ in range(r.randint(0, 5))], [r.choice(['file', 'dir', 'stream', 'flush', 'none']) for _ in range(r.randint(0, 4))])], Du)


PROP = dict(
    title='Uncaught exceptions reach the installed hooks in order, until one intercepts',
    statement='For each uncaught exception in the main thread or in any thread (however it was made), the installed exception hooks run once each, by rising priority, those of equal priority in the order of installation, until one returns a truth (or a sequence with one in it); then, unless intercepted, what sys.excepthook was. A hook that fails does not prevent the others. '
              'Function hooks do not see SystemExit. In a thread the exception still goes on to the thread, and KeyboardInterrupt only there. Installing twice has no effect, an uninstalled hook does not run. MemoryErrorExceptionHandler asks its custom hook on a MemoryError, of a derived class too, and on nothing else, terminates the process unless that returned a truth (also if it fails), refuses to be installed twice and can be '
              'installed again after it was removed. DumpToFileHandler writes the exception, its stack and the local variables into every sink (file, directory, stream with and without flush, logger, None), wherever it is called from.',
    over=['histories', 'inputs'], text='all histories up to a depth for 5 sets of hooks, random sets of up to 7; all pairs of sinks, random more',
    why='order, interception and failure combine; examples have one hook at a time', files=['satella/exception_handling/global_eh.py', 'satella/exception_handling/exception_handlers.py', 'satella/exception_handling/memerrhandler.py', 'satella/exception_handling/dump_to_file.py'],
    mech=[('hooks', 'global_eh.py GlobalExcepthook.__except_handle'), ('handlers', 'exception_handlers.py, memerrhandler.py'), ('dumps', 'dump_to_file.py')],
    note='terminating the process is replaced by a record of the call; ignore_failed_hooks=False is not checked')
