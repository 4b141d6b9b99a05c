import os
import shutil
import tempfile
import threading
import time

from vt import Part

PARTS = [
    Part('processes', 'PidLock', 'D', depth=(6, 8), max_paths=(1, 1), shards=(6, 8)),
]
PIDS = {}       # thread identifier -> pid of the process that it stands for
ALIVE = set()
FLOCKS = {}     # thread identifier -> descriptors it has locked
ME = os.getpid()


class P:
    def __init__(self, pid):
        import psutil
        if pid not in ALIVE:
            raise psutil.NoSuchProcess(pid)
        self.pid = pid

    def is_running(self):
        return self.pid in ALIVE

    def status(self):
        return 'running'


def install():
    """threads stand for processes"""
    import fcntl
    import psutil

    os.getpid = lambda: PIDS.get(threading.get_ident(), ME)
    psutil.process_iter = lambda *a, **k: iter([P(x) for x in sorted(ALIVE)])
    psutil.pids = lambda: sorted(ALIVE)
    psutil.pid_exists = lambda p: p in ALIVE
    psutil.Process = P

    def kill(pid, sig):
        assert sig == 0
        if pid not in ALIVE:
            raise ProcessLookupError()
    os.kill = kill
    os.getppid = lambda: 99     # the one that has it may as well be the parent
    flock = fcntl.flock

    def coop(fd, how):
        n = fd if isinstance(fd, int) else fd.fileno()
        mine = FLOCKS.setdefault(threading.get_ident(), set())
        if how & fcntl.LOCK_UN:
            mine.discard(n)
            return flock(n, how)
        while True:
            try:
                flock(n, how | fcntl.LOCK_NB)
                for s in FLOCKS.values():       # if others had that descriptor, they have closed it
                    s.discard(n)
                mine.add(n)
                return
            except BlockingIOError:
                if how & fcntl.LOCK_NB:
                    raise
                time.sleep(0.001)
    fcntl.flock = fcntl.lockf = coop
    return flock


def gen_processes(w):
    import detsched
    import drive
    import fcntl
    flock = install()
    import satella.os.pidlock
    from satella.exceptions import ResourceLocked

    def scenario(progs, initial):
        """progs: for each process its operations: a (acquire), r (release, if it has it), l (as a context manager), k1.. (kill process 1..)"""
        def run(log):
            with detsched.quiet():
                d = tempfile.mkdtemp(prefix='p32', dir='/tmp')
                path = os.path.join(d, 'x.pid')
                ALIVE.clear()
                ALIVE.update({99, 5})
                PIDS.clear()
                FLOCKS.clear()
                text = dict(none=None, empty='', garbage='garbage, for sure\n', dead='7700077\n', alive='99\n')[initial]
                if text is not None:
                    with open(path, 'w') as f:
                        f.write(text)
                nice = lambda pid: 9 if pid == 99 else pid - 1000 if isinstance(pid, int) else repr(pid)
                TS = {}
                gate = detsched.CoopLock()
                gate.acquire()

            def proc(n, ops):
                with detsched.quiet():
                    TS[n] = detsched._me()[1]
                    PIDS[threading.get_ident()] = 1000 + n
                    gate.acquire()
                    gate.release()
                    lock = satella.os.pidlock.PIDFileLock('x.pid', d)
                held = False

                def acquire(f):
                    log.append(drive.ev('acq_b', n))
                    try:
                        f()
                        r = ['ok', n]
                    except ResourceLocked as e:
                        r = ['locked', nice(getattr(e, 'pid', None)) if getattr(e, 'is_alive', None) is True else 'is_alive is missing']
                    log.append(drive.ev('acq_e', n, r=r))
                    return r[0] == 'ok'
                for o in ops:
                    if o == 'a' and not held:
                        held = acquire(lock.acquire)
                    elif o == 'l' and not held:
                        if acquire(lock.__enter__):
                            log.append(drive.ev('rel_b', n))
                            lock.__exit__(None, None, None)
                            log.append(drive.ev('rel_e', n))
                    elif o == 'r' and held:
                        log.append(drive.ev('rel_b', n))
                        lock.release()
                        held = False
                        log.append(drive.ev('rel_e', n))
                    elif o == 'r':
                        with detsched.quiet():
                            try:
                                lock.release()
                                r = None
                            except Exception as e:
                                r = e
                        log.append(drive.ev('rel_bad', n, r=r))
                    elif o[0] == 'k':
                        with detsched.quiet():
                            v = int(o[1])
                            if 1000 + v in ALIVE:
                                ALIVE.discard(1000 + v)
                                t = TS[v]
                                if t.status != 'done':
                                    t.status = 'killed'
                                for i in FLOCKS.get(t.ident, ()):
                                    try:
                                        flock(i, fcntl.LOCK_UN)
                                    except OSError:
                                        pass
                                log.append(drive.ev('die', v))
                    elif o == 'f':
                        with detsched.quiet():
                            try:
                                with open(path) as f:
                                    t = f.read().strip()
                                t = nice(int(t)) if t.isdigit() else t
                            except FileNotFoundError:
                                t = 'none'
                        log.append(drive.ev('file', 0, r=t))
            with detsched.quiet():
                ths = [threading.Thread(target=proc, args=(i + 1, p), daemon=True) for i, p in enumerate(progs)]
                for i, t in enumerate(ths):
                    ALIVE.add(1001 + i)
                    t.start()
            while len(TS) < len(progs):
                time.sleep(0)
            gate.release()
            while any(t.is_alive() and TS[i + 1].status != 'killed' for i, t in enumerate(ths)):
                time.sleep(0.01)
            with detsched.quiet():
                # somebody who comes later
                ALIVE.add(1008)
                proc_file(path, nice, log, drive)
                late(path, d, nice, log, drive)
                shutil.rmtree(d, ignore_errors=True)
        return run

    def proc_file(path, nice, log, drive):
        try:
            with open(path) as f:
                t = f.read().strip()
            t = nice(int(t)) if t.isdigit() else t
        except FileNotFoundError:
            t = 'none'
        log.append(drive.ev('file', 0, r=t))

    def late(path, d, nice, log, drive):
        PIDS[threading.get_ident()] = 1008
        log.append(drive.ev('acq_b', 8))
        lock = satella.os.pidlock.PIDFileLock('x.pid', d)
        try:
            lock.acquire()
            r = ['ok', 8]
        except ResourceLocked as e:
            r = ['locked', nice(getattr(e, 'pid', None))]
        except Exception as e:
            r = e
        log.append(drive.ev('acq_e', 8, r=r))
        proc_file(path, nice, log, drive) if r[0] == 'ok' else None

    two = [(['a', 'r'], ['a', 'r']), (['a'], ['a']), (['l', 'l'], ['a']), (['a', 'r', 'a'], ['a', 'r', 'a']), (['a', 'a', 'r'], ['r', 'a'])]
    three = [(['a'], ['a'], ['a']), (['a', 'r'], ['a', 'r'], ['a', 'r']), (['l'], ['a', 'r'], ['a'])]
    kills = [(['a'], ['k1', 'a', 'r']), (['a', 'r'], ['k1', 'a']), (['a', 'r'], ['a'], ['k1', 'a']), (['a'], ['a'], ['k1']), (['l'], ['k1', 'l'], ['a'])]
    jobs = [(p, i) for i in ('none', 'empty', 'garbage', 'dead') for p in two + three] + [(p, i) for i in ('none', 'dead') for p in kills] + [(p, 'alive') for p in two[:2] + kills[:1]]
    for k, (p, i) in enumerate(jobs):
        if k % w.nshards == w.shard:
            w.events(dict(file=i), scenario(p, i), bound=2, budget=150 if w.quick() else 4000, rnd=40 if w.quick() else 1000, max_clock=100)
    r = w.rng
    for _ in range(w.n(60, 1500)):
        n = r.choice([2, 3])
        p = [[r.choice(['a', 'a', 'r', 'l'] + (['k%d' % r.choice([x for x in range(1, n + 1) if x != j + 1])] if r.random() < .4 else [])) for _ in range(r.randint(1, 4))] for j in range(n)]
        i = r.choice(['none', 'empty', 'garbage', 'dead', 'dead', 'alive'])
        w.events(dict(file=i), scenario(p, i), bound=1, budget=25 if w.quick() else 200, rnd=25 if w.quick() else 200, max_clock=100)


PROP = dict(
    title='The PID file lock excludes, and survives the death of its holder',
    statement='Of the processes using PIDFileLock on one path at most one, alive, has it acquired at any time, in every interleaving of their acquire() and release() - also of those that find the file of a dead process, an empty or a damaged one - and whenever any of them is killed, at whichever instant. acquire() raises ResourceLocked, with the pid and is_alive of who has it, only if some other process has it or is getting it during the call; '
              'so the lock is to be had after its holder is dead, and after it was released. While it is held the file has the PID of the holder; it is gone after release(). release() without the lock raises RuntimeError.',
    over=['schedules', 'crash_points'], text='45 programs of 2 and 3 processes over 5 initial states of the file, with schedules of up to 2 preemptions at any bytecode and random ones, kills at any of these points, and random programs', why='the window between creating the file and writing the pid, or between finding it stale and removing it, is a few instructions wide',
    files=['satella/os/pidlock.py'], mech=[('lock', 'pidlock.py PIDFileLock')], note='processes are threads of the harness, with getpid(), the list of the processes and flock() replaced accordingly; the files are real; PIDs are not reused')
