import queue
import threading
import warnings

from vt import Part

PARTS = [Part('contexts', 'Contexts', 'C', depth=(4, 5), max_paths=(9000, 150000), shards=(3, 8))]


def O(op, *a):
    return dict(op=op, a=list(a))


class Lane:
    """a thread doing what it is told"""

    def __init__(self):
        self.q, self.out = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.out.put((True, f()))
            except Exception as e:
                self.out.put((False, e))

    def __call__(self, f):
        self.q.put(f)
        ok, v = self.out.get()
        if not ok:
            raise v
        return v

    def close(self):
        self.q.put(None)
        self.t.join()


class Contexts:
    def __init__(self, cfg):
        warnings.simplefilter('ignore')
        from satella.coding.environment import Context
        self.C = Context
        self.lanes = [None, Lane(), Lane()]
        self.entered = [None, [], []]      # (manager, layer), the base layer having no manager

    def finish(self):
        for x in self.lanes[1:]:
            x.close()

    def do(self, t, f):
        return self.lanes[t](f)

    def current(self, t):
        c = self.do(t, self.C.get)
        if not self.entered[t]:
            self.entered[t].append((None, c))
        return c

    def op_get(self, t):
        c = self.current(t)
        assert c is self.entered[t][-1][1], 'another context'

    def op_enter(self, t, how):
        m = self.do(t, self.C.get) if how == 'current' else self.C(b=4) if how == 'vars' else self.C()
        self.entered[t].append((m, self.do(t, m.__enter__)))

    def op_exit(self, t, how):
        m, layer = self.entered[t].pop()
        if m is None:       # the base layer ends with its thread: here, by a new thread taking over
            self.lanes[t].close()
            self.lanes[t] = Lane()
            if how == 'raising':
                raise ValueError()
            return
        e = ValueError()
        r = self.do(t, lambda: m.__exit__(ValueError, e, None) if how == 'raising' else m.__exit__(None, None, None))
        if how == 'raising' and not r:
            raise e

    def op_set(self, t, k, v):
        setattr(self.current(t), k, v)

    def op_del(self, t, k):
        delattr(self.current(t), k)

    def op_push_up(self, t, k):
        c = self.current(t)
        c.push_up(k)

    def op_push_value(self, t, k, v):
        self.current(t).push_up(k, v)

    def op_view(self, t):
        from drive import Raw, exc
        c = self.current(t)
        out = [c is self.entered[t][-1][1]]
        for _, x in reversed(self.entered[t]):
            row = []
            for k in 'ab':
                try:
                    row.append(getattr(x, k))
                except Exception as e:
                    row.append(Raw(*exc(e)))
            out.append(row + [x.does_exist(k) for k in 'ab'])
        return out


def gen_contexts(w):
    w.replay_spec(Contexts, [dict(x=0)], final=[O('view', 1), O('view', 2)])
    r = w.rng
    for _ in range(w.n(150, 6000)):
        ops, depth = [], [0, 0, 0]
        for _ in range(r.randint(6, 16)):
            t = r.randint(1, 2)
            x = r.random()
            if x < .3 and depth[t] < 5:
                how = r.choice(['new', 'vars', 'current'])
                if how == 'current' and not depth[t]:
                    ops.append(O('get', t))
                    depth[t] = 1
                ops.append(O('enter', t, how))
                depth[t] += 1
            elif x < .45 and depth[t]:
                ops.append(O('exit', t, r.choice(['normal', 'raising'])))
                depth[t] -= 1
            elif x < .65:
                ops.append(O('set', t, r.choice('ab'), r.randint(0, 99)))
                depth[t] = max(1, depth[t])
            elif x < .75:
                ops.append(O('del', t, r.choice('ab')))
                depth[t] = max(1, depth[t])
            elif x < .9 and depth[t] > 1:
                k = r.choice('ab')
                if r.random() < .5:
                    ops += [O('set', t, k, r.randint(0, 99)), O('push_up', t, k)]
                else:
                    ops.append(O('push_value', t, k, r.randint(0, 99)))
            else:
                ops.append(O('view', t))
                depth[t] = max(1, depth[t])
        w.seq(dict(x=0), ops + [O('view', 1), O('view', 2)], Contexts)


PROP = dict(
    title='Contexts nest in each thread, and leaving one restores what was under it',
    statement='Entering a Context gives a new layer, on top of the current one of this thread, with the variables it was made with, and makes it the current one; a '
              'variable is read from the innermost layer having it, one deleted in a layer is missing from it inwards; what is set or deleted goes to the current '
              'layer only; push_up moves a variable to the layer below; leaving a layer, also by an exception, makes the one it was entered from the current one '
              'again, as it was; threads have nothing in common.',
    over=['histories', 'schedules'],
    text='All the sequences up to the depth of entering (a new one, one with variables, the current one again), leaving, setting, deleting and pushing, in two '
         'threads, and longer random ones; every layer is looked at from within',
    why='Which context is the current one depends on the whole history of entering and leaving; the tests never ask for the current one after leaving a nested '
        'one',
    files=['satella/coding/environment.py'],
    mech=[('contexts', 'environment.py')],
    note='push_up without a layer below, or of a deleted variable, is left open',
    design='Specification Contexts.tla: a stack of mappings for every thread.',
)
