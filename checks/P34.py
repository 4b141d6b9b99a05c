import contextlib
import os
import shutil
import sys
import tempfile
import threading
import time

from vt import Part

PARTS = [
    Part('processes', 'Os', 'U', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 4)),
    Part('schedules', 'Os', 'U', mode='lin', shards=(2, 8), design=False),
    Part('signals', 'Os', 'V', depth=(3, 4), max_paths=(3000, 40000), shards=(2, 4)),
    Part('system', 'Os', 'D', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 2)),
]
UNIT = ('zażółć gęślą jaźń \N{SNOWMAN}\N{GRINNING FACE}' * 100).encode('utf8')[1:]
UNIT = b'x' + UNIT.decode('utf8', 'ignore').encode('utf8') + b' \n' * 3000     # does not split well into pieces of 2048
PIPE = 2 * len(UNIT) + 100


class FakeStdout:
    def __init__(self, p):
        self.p = p
        self.closed = False

    def read(self, n=-1):
        """as a buffered reader does: blocks until it has that much, or the end"""
        r = b''
        with self.p.cond:
            while n < 0 or len(r) < n:
                if self.p.pipe:
                    k = len(self.p.pipe) if n < 0 else n - len(r)
                    r += self.p.pipe[:k]
                    self.p.pipe = self.p.pipe[k:]
                    self.p.cond.notify_all()
                elif self.p.eof:
                    break
                else:
                    self.p.cond.wait()
        return r

    def read1(self, n=-1):
        with self.p.cond:
            while not self.p.pipe and not self.p.eof:
                self.p.cond.wait()
            k = len(self.p.pipe) if n < 0 else n
            r, self.p.pipe = self.p.pipe[:k], self.p.pipe[k:]
            self.p.cond.notify_all()
        return r

    def readline(self):
        return self.read()

    def __iter__(self):
        while True:
            r = self.read1()
            if not r:
                return
            yield r

    def close(self):
        self.closed = True


class FakePopen:
    last = None

    def __init__(self, args, stdout=None, **k):
        import subprocess
        assert stdout == subprocess.PIPE and k == dict(shell=False), (stdout, k)
        FakePopen.last = self
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.code = None
        self.kills = 0
        self.cond = threading.Condition()
        self.pipe = b''
        self.eof = False
        self.stdout = FakeStdout(self)
        threading.Thread(target=self.body, daemon=True).start()

    def body(self):
        for k, n in self.args:
            with self.cond:
                if k == 'w':
                    data = UNIT * n
                    while data and not self.kills:
                        room = PIPE - len(self.pipe)
                        if room:
                            self.pipe += data[:room]
                            data = data[room:]
                            self.cond.notify_all()
                        else:
                            self.cond.wait()
                elif k == 's':
                    end = time.monotonic() + n
                    while time.monotonic() < end and not self.kills:
                        self.cond.wait(end - time.monotonic())
                elif k == 'c':
                    self.eof = True
                    self.cond.notify_all()
                if self.kills or k == 'x':
                    self.code = -9 if self.kills else n
                    self.eof = True
                    self.cond.notify_all()
                    return

    def poll(self):
        if self.returncode is None:
            self.returncode = self.code
        return self.returncode

    def wait(self, timeout=None):
        import subprocess
        end = None if timeout is None else time.monotonic() + timeout
        with self.cond:
            while self.code is None:
                left = None if end is None else end - time.monotonic()
                if left is not None and left <= 0:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                self.cond.wait(left)
            self.returncode = self.code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        got = []
        t = threading.Thread(target=lambda: got.append(self.stdout.read()), daemon=True)
        t.start()
        self.wait(timeout)
        t.join()
        return b''.join(got), None

    def kill(self):
        with self.cond:
            self.kills += self.code is None
            self.cond.notify_all()

    def terminate(self):
        self.send_signal(15)

    def send_signal(self, n):
        '''it ignores others'''
        if n == 9:
            self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()
        return False


class Proc:
    def __init__(self, cfg=None):
        import subprocess
        import warnings
        warnings.simplefilter('ignore')
        subprocess.Popen = FakePopen
        import satella.processes
        satella.processes.subprocess.Popen = FakePopen

    def out(self, v):
        u = UNIT if isinstance(v, bytes) else UNIT.decode('utf8')
        n = len(v) // len(u)
        return [type(v).__name__, n if v == u * n else 'corrupted']

    def op_run(self, script, timeout, encoded, expected):
        from satella.processes import call_and_return_stdout
        from satella.exceptions import ProcessFailed
        k = {}
        if timeout != -1:
            k['timeout'] = timeout if timeout != 3 else '3s'
        if encoded:
            k['encoding'] = 'utf8'
        if expected != -1:
            k['expected_return_code'] = expected
        t = time.monotonic()
        try:
            r = ['ok', 0, self.out(call_and_return_stdout(script, shell=False, **k))]
        except ProcessFailed as e:
            r = ['failed', e.rc, self.out(e.stdout_so_far)]
        except TimeoutError:
            r = ['timeout', FakePopen.last.kills, None]
        assert FakePopen.last.returncode is not None, 'not waited for'
        return r + [round(time.monotonic() - t, 3)]


def gen_processes(w):
    Proc()
    import satella.processes
    w.replay_spec(Proc, [dict(x=0)])


def gen_schedules(w):
    Proc()
    import satella.processes
    progs = [([['w', 7], ['x', 3]], -1, True, 0), ([['w', 2], ['s', 2], ['w', 3], ['x', 0]], 2, True, 0), ([['s', 1], ['x', 0]], 1, False, -1), ([['w', 4], ['c', 0], ['s', 2], ['x', 3]], 3, True, 3), ([['w', 9], ['s', 5], ['x', 0]], 1, False, 0)]
    for i, p in enumerate(progs):
        if i % w.nshards == w.shard % len(progs):
            w.lin(dict(x=0), [[dict(op='run', a=list(p))]], Proc, bound=1, budget=w.n(60, 2000) * w.nshards // 2, rnd=w.n(40, 1500) * w.nshards // 2, padv=0.0)


class Sig:
    known = OSError,

    def __init__(self, cfg):
        import detsched
        import signal
        self.nums = dict(TERM=signal.SIGTERM, INT=signal.SIGINT, USR1=signal.SIGUSR1, USR2=signal.SIGUSR2, KILL=signal.SIGKILL)
        self.names = {v: k for k, v in self.nums.items()}
        self.got = []
        self.table = {self.nums[k]: self.handler(k) for k in ('TERM', 'INT', 'USR1', 'USR2')}
        signal.getsignal = self.table.get
        signal.signal = self.install

    def handler(self, k):
        def f(sig, frame):
            assert self.names[sig] == k
            self.got.append(k)
            if k == 'INT':
                raise KeyboardInterrupt()
        f.k = k
        return f

    def install(self, sig, h):
        if sig not in self.table:
            raise OSError(22, 'invalid argument')
        old, self.table[sig] = self.table[sig], h
        return old

    def deliver(self, k):
        self.table[self.nums[k]](self.nums[k], None)

    def op_hang(self, extra, interval, coming):
        import detsched
        from satella.os import hang_until_sig
        t0 = time.monotonic()
        coming = [(t0 + t, k) for t, k in coming]

        def hook(d):
            detsched.SLEEP_HOOK = None
            try:
                end = time.monotonic() + d
                while coming and coming[0][0] <= end:
                    t, k = coming.pop(0)
                    time.sleep(max(0, t - time.monotonic()))
                    try:
                        self.deliver(k)
                    except KeyboardInterrupt as e:
                        return 0, e
                return max(0, end - time.monotonic()), None
            finally:
                detsched.SLEEP_HOOK = hook
        detsched.SLEEP_HOOK = hook
        try:
            r = hang_until_sig([self.nums[k] for k in extra] if extra else None, interval)
        finally:
            detsched.SLEEP_HOOK = None
        return [round(time.monotonic() - t0, 3), 'ok' if r is None else 'returned']

    def op_wrong(self, extra):
        from satella.os import hang_until_sig
        hang_until_sig([self.nums[k] for k in extra])

    def op_signal(self, k):
        self.deliver(k)

    def op_table(self):
        return [getattr(self.table[self.nums[k]], 'k', 'other') for k in ('TERM', 'INT', 'USR1', 'USR2')]

    def op_got(self):
        return self.got


def gen_signals(w):
    Sig(None)
    import satella.os
    fin = [dict(op='table', a=[]), dict(op='got', a=[])]
    w.replay_spec(Sig, [dict(x=0)], final=fin)
    for _ in range(w.n(60, 2000)):
        q = []
        for _ in range(w.rng.randint(1, 6)):
            extra = [w.rng.choice(['USR1', 'USR2', 'TERM', 'INT']) for _ in range(w.rng.randint(0, 3))]
            coming = sorted([w.rng.randint(0, 6), w.rng.choice(['USR1', 'USR2', 'TERM'])] for _ in range(w.rng.randint(0, 3))) + [[7, w.rng.choice(['TERM', 'INT'])]]
            q += [dict(op='hang', a=[extra, w.rng.randint(1, 3), coming]), dict(op='table', a=[])]
            if w.rng.random() < 0.3:
                q.append(dict(op='signal', a=['USR1']))
        w.seq(dict(x=0), q + fin, Sig)


class Exited(BaseException):
    pass


class FakeStream:
    def __init__(self):
        self.open = True

    def close(self):
        self.open = False

    def write(self, s):
        pass

    def flush(self):
        pass


@contextlib.contextmanager
def patched(mod, **k):
    old = {x: getattr(mod, x) for x in k}
    for x, v in k.items():
        setattr(mod, x, v)
    try:
        yield
    finally:
        for x, v in old.items():
            setattr(mod, x, v)


class System:
    known = Exited,

    def __init__(self, cfg):
        pass

    def op_daemonize(self, role, redirect, uid, gid):
        import collections
        import grp
        import pwd
        from satella.os import daemonize
        st = dict(forks=0, leader='not a leader', umask=None, cwd=None, uid=-1, gid=-1)

        def fork():
            st['forks'] += 1
            if (role, st['forks']) in (('parent', 1), ('middle', 2)):
                return 77
            if st['leader'] == 'leader':
                st['leader'] = 'child of a leader'
            return 0

        def setsid():
            st['leader'] = 'leader'

        def name(known, field):
            def f(n):
                if n not in known:
                    raise KeyError(n)
                return collections.namedtuple('R', field)(known[n])
            return f

        def seteuid(n):
            st['uid'] = n

        def setegid(n):
            if st['uid'] not in (-1, 0):
                raise PermissionError(1, 'not permitted')
            st['gid'] = n

        def umask(n):
            st['umask'] = n

        def chdir(n):
            st['cwd'] = n

        def exit_via(*a):
            raise Exited()
        value = lambda x: None if x == 'none' else int(x) if x.isdigit() else x
        fakes = [FakeStream() for _ in range(3)]
        real = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = fakes
        try:
            with patched(os, fork=fork, setsid=setsid, seteuid=seteuid, setegid=setegid, umask=umask, chdir=chdir), patched(pwd, getpwnam=name(dict(joe=8), 'pw_uid')), patched(grp, getgrnam=name(dict(staff=9), 'gr_gid')):
                try:
                    daemonize(exit_via, redirect, value(uid), value(gid))
                except Exited:
                    return ['exited', st['forks'], st['leader']]
                now = sys.stdin, sys.stdout, sys.stderr
                null = [getattr(x, 'name', None) == '/dev/null' for x in now]
                if all(null):
                    print('x')
                    print('x', file=sys.stderr)
                    assert sys.stdin.read() == ''
                assert len(set(null)) == 1
                for x, f in zip(now, fakes):
                    if x is not f:
                        x.close()
        finally:
            sys.stdin, sys.stdout, sys.stderr = real
        return ['daemon', st['forks'], st['leader'], st['umask'], st['cwd'], not any(f.open for f in fakes), null[0], st['uid'], st['gid']]

    def op_whereis(self, kinds, rel):
        from satella.os import whereis
        d = os.path.realpath(tempfile.mkdtemp(prefix='p34', dir='/tmp'))
        old, path = os.getcwd(), os.environ.get('PATH')
        try:
            os.chdir(d)
            for i, k in enumerate(kinds, 1):
                os.mkdir(str(i))
                f = '%d/tool' % i
                for other in ('other', 'tool2', 'atool'):
                    open('%d/%s' % (i, other), 'w').close()
                    os.chmod('%d/%s' % (i, other), 0o755)
                if k in ('file', 'exec', 'exec644'):
                    open(f, 'w').close()
                    os.chmod(f, 0o755 if k == 'exec' else 0o644)
                elif k == 'directory':
                    os.mkdir(f)
                elif k == 'link644':
                    open('%d/plain' % i, 'w').close()
                    os.chmod('%d/plain' % i, 0o644)
                    os.symlink('plain', f)
                elif k == 'link':
                    os.symlink('other', f)
                elif k == 'broken':
                    os.symlink('nothing', f)
                elif k == 'loop':
                    os.symlink('tool', f)
            os.environ['PATH'] = ':'.join(['/nonexistent'] + [str(i) if rel else os.path.join(d, str(i)) for i in range(1, len(kinds) + 1)] + [os.path.join(d, '1', 'other')])
            want = {os.path.join(d, str(i), 'tool'): i for i in range(1, len(kinds) + 1)}
            return [want.get(x, x) for x in whereis('tool')]
        finally:
            os.environ['PATH'] = path
            os.chdir(old)
            shutil.rmtree(d)

    def op_suicide(self, group, leader):
        from satella.os import suicide
        log = []
        with patched(os, getpid=lambda: 55, getpgid=lambda p: 55 if leader else 44, getpgrp=lambda: 55 if leader else 44, kill=lambda p, s: log.append(('kill', p, s)), killpg=lambda p, s: log.append(('killpg', p, s))):
            if group:
                suicide()
            else:
                suicide(kill_entire_pg=False)
        assert all((p, s) == (55, 9) for _, p, s in log)
        return [x for x, _, _ in log]

    def op_root(self, n):
        from satella.os import is_running_as_root
        with patched(os, geteuid=lambda: n):
            return is_running_as_root()

    def op_listdir(self, k):
        from satella.os import safe_listdir
        d = tempfile.mkdtemp(prefix='p34', dir='/tmp')
        try:
            for x in 'ab':
                open(os.path.join(d, x), 'w').close()
            return sorted(safe_listdir(dict(directory=d, file=os.path.join(d, 'a'), absent=os.path.join(d, 'c'))[k]))
        finally:
            shutil.rmtree(d)


def gen_system(w):
    import satella.os
    w.replay_spec(System, [dict(x=0)])


PROP = dict(
    title='Processes, signals, becoming a daemon and finding executables',
    statement='call_and_return_stdout returns all that the process wrote, decoded if asked to, however much and at whatever pace it was; it never hangs while the process runs to its end; a process that does not complete within the timeout is killed, reaped and TimeoutError is raised at that time; ProcessFailed with the code and the output if the code is not the expected one. '
              'hang_until_sig returns within the interval after SIGTERM, SIGINT or a given signal, and leaves the handlers as they were (also when it fails), so that later signals and calls are not affected. '
              'daemonize forks twice with a new session between, umask 0, directory /, streams closed or usable and at /dev/null, group and user set, by number or name. whereis gives absolute paths of exactly the executable files of that name, in the order of PATH. suicide kills this process, or its group if it leads it.',
    over=['inputs', 'schedules', 'histories'], text='432 combinations of process, timeout, encoding and code, and schedules of the reader; histories of 3 (4) waits for signals; all the combinations of daemonize options and roles (150); 486 PATHs', why='tests run one process with a short output, and daemonize in a single role',
    files=['satella/processes.py', 'satella/os/signals.py', 'satella/os/daemon.py', 'satella/os/misc.py'], mech=[('reading the output', 'processes.py read_nowait, call_and_return_stdout'), ('signals', 'os/signals.py hang_until_sig'), ('daemon', 'os/daemon.py daemonize'), ('whereis, suicide', 'os/misc.py')],
    note='processes, signals and fork are fakes in virtual time, so nothing is really killed or forked; an empty element of PATH is unspecified; processes whose children keep the pipe open are not modelled')
