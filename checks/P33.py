import builtins
import functools
import logging

from vt import Part

PARTS = [
    Part('history', 'Db', 'X', depth=(5, 7), max_paths=(4000, 40000), shards=(1, 4)),
    Part('calls', 'Db', 'C', depth=(1, 1), max_paths=(100000, 100000)),
]


class BodyError(Exception):
    pass


class CommitError(Exception):
    pass


class RollbackError(Exception):
    pass


class CursorError(Exception):
    pass


class LoadError(Exception):
    pass


class Conn:
    def __init__(self, o):
        self.o = o
        self.log = []

    def cursor(self):
        self.log.append('cursor')
        return Cur(self)

    def commit(self):
        self.log.append('commit')
        if self.o['commit'] == 'fails':
            raise CommitError()

    def rollback(self):
        self.log.append('rollback')
        if self.o['rollback'] == 'fails':
            raise RollbackError()

    def close(self):
        self.log.append('close')


class CallableConn(Conn):
    """as is sqlite3.Connection"""

    def __call__(self, sql):
        raise TypeError('this is not the way to get a connection')


class Cur:
    def __init__(self, conn):
        self.conn = conn

    def close(self):
        self.conn.log.append('cursor.close')
        if self.conn.o['curclose'] == 'fails':
            raise CursorError()


def getter(kind, conn):
    def f():
        conn.log.append('get')
        return conn

    class M:
        def f(self):
            return f()

        __call__ = f
    if kind == 'class':
        class C:
            def __new__(cls):
                return f()
        return C
    return dict(conn=conn, function=f, method=M().f, partial=functools.partial(lambda x: f(), 1), object=M(), **{'lambda': lambda: f()})[kind]


class Ad:
    known = BodyError, LoadError, AssertionError

    def __init__(self, cfg):
        import sqlite3
        from satella.dao import Loadable, must_be_loaded
        self.db = sqlite3.connect(':memory:', check_same_thread=False)
        self.db.execute('create table t (x int)')
        self.db.commit()
        self.n = 0
        ad = self

        class L(Loadable):
            def __init__(self, **k):
                self.n = 0
                self.fail = False
                self.source = None
                super().__init__(**k)

            def refresh(self, load_from=None):
                self.n += 1
                if self.fail:
                    raise LoadError()
                self.source = 'db' if load_from is None else load_from
                super().refresh(load_from)

            @must_be_loaded
            def method(self, a, *, b):
                assert (a, b) == (1, 2)
                return [self.source, self.n]

        class Foreign:
            @must_be_loaded
            def method(self):
                pass
        self.foreign = Foreign()
        self.o = L(load_lazy=True) if cfg.get('lazy', True) else L()

    def finish(self):
        self.db.close()

    def op_calls(self, o):
        from satella.db import transaction
        conn = (CallableConn if o['curclose'] == 'ok' else Conn)(o)
        r = None
        t = transaction(getter(o['get'], conn), close_the_connection_after=o['close'])
        try:
            with t as cur:
                assert isinstance(cur, Cur)
                if o['body'] == 'fails':
                    raise BodyError()
                elif o['body'] != 'ok':
                    raise getattr(builtins, o['body'])()
        except BaseException as e:
            r = type(e).__name__
        return [conn.log, r]

    def op_logged(self, on, body, close):
        from satella.db import transaction
        conn = Conn(dict(commit='ok', rollback='ok', curclose='ok'))
        seen = []

        class H(logging.Handler):
            def emit(self, rec):
                seen.append(rec)
        h = H()
        lg = logging.getLogger('satella.db')
        logging.disable(logging.NOTSET)
        lg.addHandler(h)
        lg.propagate = False
        try:
            with transaction(conn, log_exception=on, close_the_connection_after=close):
                if body == 'fails':
                    raise BodyError()
        except BodyError:
            pass
        finally:
            lg.removeHandler(h)
            lg.propagate = True
            logging.disable(logging.CRITICAL)
        assert len(seen) <= 1 and all(isinstance(x.exc_info[1], BodyError) for x in seen)
        return bool(seen)

    def op_insert(self, q, fail):
        from satella.db import transaction
        self.n += 1
        with transaction(self.db if self.n % 2 else lambda: self.db) as cur:
            for i, x in enumerate(q):
                if i == fail:
                    raise BodyError()
                cur.execute('insert into t values (?)', (x,))
            if fail >= len(q):
                raise BodyError()
        assert not self.db.in_transaction

    def op_rows(self):
        r = [x for x, in self.db.execute('select x from t order by rowid')]
        self.db.rollback()
        return r

    def op_method(self, m):
        self.o.fail = m == 'refresh_fails'
        try:
            return self.o.method(1, b=2)
        finally:
            self.o.fail = False

    def op_refresh(self, x):
        self.o.refresh(*([] if x == 'db' else [x]))

    def op_unguarded(self):
        return self.o.n

    def op_foreign(self):
        self.foreign.method()


def gen_history(w):
    w.replay_spec(Ad, [dict(lazy=True), dict(lazy=False)], final=[dict(op='rows', a=[]), dict(op='method', a=['ok'])])


def gen_calls(w):
    w.replay_spec(Ad, [dict(x=0)])


PROP = dict(
    title='A transaction is committed or rolled back, and cleaned up after; lazy loading',
    statement='transaction() gives a cursor of the connection - given directly or by any callable - and when left it commits exactly if there was no exception, rolls back exactly if there was one of any kind, also KeyboardInterrupt or the like, then closes the cursor and, if asked to, the connection, even if any of these calls fails; the exception is propagated, and logged if asked for. So the database has the rows of all the transactions that succeeded and none of those that failed. '
              'A must_be_loaded method of a Loadable runs only on an object that has been loaded: a lazy one is loaded by the first such call, once, and again after a loading that failed; others when created.',
    over=['inputs', 'histories'], text='all the combinations of 7 ways to give the connection and of failures of the body, commit, rollback and close of the cursor (672); histories of 5 (7) operations with sqlite', why='faults of the connection in the middle of the cleanup are not tested at all',
    files=['satella/db.py', 'satella/dao.py'], mech=[('transaction', 'db.py transaction'), ('loading', 'dao.py Loadable, must_be_loaded')], note='which exception is propagated if several are raised is not specified; neither is a failure of creating the cursor')
