import collections
import gc
import io
import re
import sys
import threading
import time
import types

from vt import Part

PARTS = [
    Part('pressure', 'Memory', 'P', depth=(3, 4), max_paths=(6000, 40000), shards=(2, 8)),
    Part('sizes', 'Memory', 'G', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
    Part('dumps', 'Memory', 'U', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]
TOTAL, MOST = 128, 64


def O(op, *a):
    return dict(op=op, a=list(a))


class Thing:
    def cleanup(self):
        self.log()


class Pressure:
    def __init__(self, cfg):
        import logging
        import psutil
        logging.disable(logging.CRITICAL)
        # the manager is a singleton: each execution has one of its own
        sys.modules.pop('satella.instrumentation.memory.memthread', None)
        from satella.instrumentation.memory import conditions as c
        from satella.instrumentation.memory.memthread import MemoryPressureManager
        self.rss, self.avail, self.flags = 0, TOTAL, [None, False, False]
        psutil.virtual_memory = lambda: types.SimpleNamespace(available=self.avail, total=TOTAL)
        psutil.Process = lambda pid=None: types.SimpleNamespace(memory_info=lambda: types.SimpleNamespace(rss=self.rss))

        def make(x):
            k = x[0]
            if k == 'custom':
                return c.CustomCondition(lambda: self.flags[x[1]])
            if k in ('not', 'any', 'all'):
                return {'not': c.Not, 'any': c.Any, 'all': c.All}[k](*[make(y) for y in x[1:]])
            return {'ga': c.GlobalAbsoluteValue, 'gr': c.GlobalRelativeValue, 'la': c.LocalAbsoluteValue, 'lr': c.LocalRelativeValue}[k](x[1])
        self.M = MemoryPressureManager
        self.m = MemoryPressureManager(MOST, [make(x) for x in cfg['levels']], 10)
        assert MemoryPressureManager() is self.m
        self.log, self.cbs, self.keep = [], [], {}
        time.sleep(5)

    def finish(self):
        self.m.terminate()
        self.m.join()

    def op_mem(self, rss, avail):
        self.rss, self.avail = rss, avail

    def op_flag(self, i):
        self.flags[i] = not self.flags[i]

    def op_stop(self):
        self.m.stop()

    def op_resume(self):
        self.m.resume()

    def op_level(self):
        return self.m.severity_level

    def op_register(self, kind, level, iv):
        n = len(self.cbs) + 1

        def fun(*a):
            self.log.append([kind, n, self.m.severity_level])
        M = self.M
        if kind == 'cleanup':
            t = Thing()
            t.log = fun
            if n % 2:
                M.cleanup_on_entered(level, t)
            else:
                M.cleanup_on_entered(level, t, lambda y: y.log())
            self.keep[n] = t
            c = None
        else:
            c = M.register_on_memory_normal(fun) if kind == 'normal' else M.register_on_entered_severity(level)(fun) if kind == 'entered' else \
                M.register_on_left_severity(level)(fun) if kind == 'left' else M.register_on_remaining_in_severity(level, iv)(fun)
        self.cbs.append(c)
        return n

    def op_cancel(self, i):
        if self.cbs[i - 1] is None:
            self.keep.pop(i, None)
        else:
            self.cbs[i - 1].cancel()

    def op_loop(self):
        del self.log[:]
        time.sleep(10)
        return list(self.log)


LEVELS = [
    [['custom', 1], ['custom', 2]],
    [['lr', 50], ['la', 16]],
    [['gr', 50], ['ga', 32], ['all', ['custom', 1], ['ga', 32]]],
    [['any', ['custom', 1], ['custom', 2]], ['not', ['any', ['custom', 1], ['gr', 25]]], ['all', ['not', ['custom', 2]], ['custom', 1]]],
    []]


def gen_pressure(w):
    cfgs = [dict(levels=x) for x in LEVELS]
    w.replay_spec(Pressure, cfgs, final=[O('loop'), O('loop'), O('level')])
    r = w.rng
    for _ in range(w.n(150, 5000)):
        cfg = r.choice(cfgs)
        n = len(cfg['levels'])
        ops, cbs = [], 0
        for _ in range(r.randint(6, 30)):
            k = r.random()
            if k < .2:
                ops.append(O('register', r.choice(['entered', 'left', 'remains', 'normal', 'cleanup']), r.randint(0, n), r.choice([0, 15, 25])))
                cbs += 1
            elif k < .25 and cbs:
                ops.append(O('cancel', r.randint(1, cbs)))
            elif k < .35:
                ops.append(O('flag', r.randint(1, 2)))
            elif k < .55:
                ops.append(O('mem', r.choice([0, 16, 31, 32, 33, 47, 48, 49, 64]), r.choice([0, 31, 32, 33, 63, 64, 65, 128])))
            elif k < .6:
                ops.append(O(r.choice(['stop', 'resume', 'resume'])))
            elif k < .65:
                ops.append(O('level'))
            else:
                ops.append(O('loop'))
        w.seq(cfg, ops + [O('resume'), O('loop'), O('level')], Pressure)


class Sub(list):
    pass


class SubDict(dict):
    pass


class Bare:
    pass


UNIT = 20000


class Sizes:
    def __init__(self, cfg):
        pass

    def op_size(self, kinds, kids, root):
        from satella.instrumentation.memory import get_size
        nodes = [{'list': list, 'dict': dict, 'object': Bare, 'sub': Sub, 'tuple': list, 'subdict': SubDict, 'deque': collections.deque}[k]() for k in kinds]
        for i in range(len(kinds) - 1, -1, -1):
            k, x, leaf, cs = kinds[i], nodes[i], bytes(UNIT * 4 ** i - sys.getsizeof(b'')), [nodes[j - 1] for j in kids[i]]
            if k in ('list', 'deque'):
                x.extend([leaf] + cs)
            elif k == 'tuple':
                nodes[i] = (leaf, *cs)
            elif k == 'dict':
                x[leaf] = 1
                for j, c in enumerate(cs):
                    x[j] = c
            elif k == 'object':
                x.leaf = leaf
                x.kids = cs
            elif k == 'sub':
                x.extend(cs)
                x.leaf = leaf
            else:
                x['kids'] = cs
                x.leaf = leaf
        n = get_size(nodes[root - 1]) // UNIT
        out = []
        for _ in kinds:
            out.append(n % 4)
            n //= 4
        return out

    def op_untouched(self, how):
        from satella.instrumentation.memory import get_size
        x = iter([1, 2, 3]) if how == 'iterator' else (i for i in [1, 2, 3])
        get_size(x)
        get_size(type(x))
        get_size(list)
        return list(x)


def gen_sizes(w):
    w.replay_spec(Sizes, [dict(x=0)], final=[])
    r = w.rng
    kinds = ['list', 'dict', 'object', 'sub', 'subdict', 'deque', 'tuple']
    for _ in range(w.n(300, 8000)):
        n = r.randint(1, 4)
        ks = [r.choice(kinds) for _ in range(n)]
        # what is in a tuple was made before it
        es = [[j for j in (r.randint(i + 1 if k == 'tuple' else 1, n) for _ in range(r.randint(0, 2)) if i < n or k != 'tuple') if ks[j - 1] != 'tuple' or j > i]
              for i, k in enumerate(ks, 1)]
        w.seq(dict(x=0), [O('size', ks, es, r.randint(1, n))], Sizes)


class A:
    def __sizeof__(self):
        return 1000


class B:
    def __sizeof__(self):
        return 2500


class C:
    def __sizeof__(self):
        return 4100


class Mute:
    def __sizeof__(self):
        return 700

    def __repr__(self):
        raise ValueError()


class Unsized:
    def __sizeof__(self):
        raise TypeError()


class Dumps:
    def __init__(self, cfg):
        pass

    def op_memory(self, q):
        from satella.instrumentation.memory import dump_memory_on
        ts = [A, B, C, Mute, Unsized]
        objs = [ts[k - 1]() for k in q]
        s = io.StringIO()
        old, gc.get_objects = gc.get_objects, lambda *a, **k: list(objs)
        try:
            dump_memory_on(s)
        finally:
            gc.get_objects = old
        lines = s.getvalue().split('\n')
        out = [sum(1 for x in lines if x.startswith('object ') and ' type ' in x)]
        for x in lines:
            m = re.match(r'(.*): (\d+) bytes (\d+) instances', x)
            if m:
                t = next(t for t in ts if repr(t) == m.group(1))
                out.append([t.__name__.lower() if t in (Mute, Unsized) else t.__name__, int(m.group(2)) // 100, int(m.group(3))])
        return out

    def op_frames(self, n):
        from satella.instrumentation.dump_frames_on import dump_frames_on
        ready, go = threading.Semaphore(0), threading.Event()

        def body(i):
            secret_of_this_thread = 'the secret %d.' % (i * 1000)
            ready.release()
            go.wait()
            return secret_of_this_thread
        ts = [threading.Thread(target=body, args=(i,)) for i in range(1, n + 1)]
        for t in ts:
            t.start()
        for t in ts:
            ready.acquire()
        s = io.StringIO()
        dump_frames_on(output=s)
        go.set()
        for t in ts:
            t.join()
        assert 'op_frames' in s.getvalue()
        return sorted({int(x) // 1000 for x in re.findall(r'the secret (\d+)\.', s.getvalue())})


def gen_dumps(w):
    w.replay_spec(Dumps, [dict(x=0)], final=[])


PROP = dict(
    title='The memory severity level follows memory, calling what is registered on the way',
    statement='At each check the severity level becomes the highest level whose condition holds, by absolute or relative thresholds and their combinations, passing through every level on the way: callbacks of '
              'each level entered (and cleanups of objects alive) or left, of memory being normal once at zero, or of remaining if nothing changed (no more often than asked for) are called in the order of '
              'registration; cancelled ones never are, and nothing happens while stopped. The size of an object is that of everything reachable of it, each thing counted once, and measuring changes nothing. '
              'A dump names every object, with totals for each type, and the variables of every thread.',
    over=['histories', 'inputs', 'configurations'],
    text='Five sets of levels; all the histories of four (thorough: five) of memory changing, callbacks registered and cancelled, stopping and checks, long random ones; graphs of up to four objects of seven kinds, cyclic too; '
         'dumps of up to three objects of five kinds and three threads',
    why='the test has on-demand conditions only, so that no threshold is ever looked at, and two levels',
    files=['satella/instrumentation/memory/memthread.py', 'satella/instrumentation/memory/conditions.py', 'satella/instrumentation/memory/get_object_size.py',
           'satella/instrumentation/memory/dump_frames_on.py', 'satella/instrumentation/dump_frames_on.py'],
    mech=[('conditions', 'conditions.py can_fire'), ('level', 'memthread.py advance_to_severity_level'), ('reachability', 'get_object_size.py get_size')],
    note='callbacks that raise, conditions that depend on a maximum not given, and the reaction to signals are left open',
    design='The manager runs in its own thread under the controlled scheduler, its clock being virtual and psutil replaced.',
)
