import os
import shutil
import tempfile

from vt import Part

PARTS = [
    Part('autoflush', 'Autoflush', 'H', depth=(4, 5), max_paths=(4000, 60000), shards=(2, 4)),
    Part('names', 'Files', 'G', depth=(1, 1), max_paths=(100000, 100000), shards=(2, 4)),
    Part('directory', 'Files', 'B', depth=(3, 4), max_paths=(4000, 40000), shards=(2, 4)),
    Part('devnull', 'Files', 'N', depth=(3, 4), max_paths=(3000, 20000)),
]


def gen_autoflush(w):
    import drive
    cfgs = [('a+', [1, 2]), ('wb+', [1, 2]), ('w', [1]), ('a', [1, 2]), ('w+', [1]), ('ab+', []), ('ab', [1]), ('wb', [1]), ('a+', [])]
    w.replay_spec(AF, [dict(mode=m, init=i) for m, i in cfgs], final=[dict(op='ext_read', a=[])])
    for n in range(w.n(400, 8000)):
        m, i = w.rng.choice(cfgs)
        ops = []
        for k in range(w.rng.randint(5, 25)):
            o = w.rng.choice(['write', 'write', 'write', 'read', 'read', 'readall', 'seek', 'seek', 'truncate', 'ext_append', 'ext_append', 'ext_delete', 'write_wrong', 'closed'] + (['close'] if k > 15 else []))
            if o in ('write', 'ext_append'):
                a = [w.rng.randint(1, 4) for _ in range(w.rng.randint(0, 4))]
            elif o == 'read':
                a = [w.rng.choice([-1, 0, 1, 2, 3, 5])]
            elif o == 'seek':
                a = [w.rng.randint(-2, 5), w.rng.randint(0, 2)] if 'b' in m else w.rng.choice([[w.rng.randint(0, 5), 0], [0, 2]])
            elif o == 'truncate':
                a = [w.rng.choice([-1, 0, 1, 2, 3])]
            else:
                a = []
            if o == 'ext_delete' and w.rng.random() < .7:
                continue
            ops.append(dict(op=o, a=a))
        w.seq(dict(mode=m, init=i), ops + [dict(op='ext_read', a=[])], AF)


def letters(a, binary):
    s = ''.join(chr(96 + x) for x in a)
    return s.encode() if binary else s


class AF:
    def __init__(self, cfg):
        from satella.files import AutoflushFile
        self.d = tempfile.mkdtemp(prefix='p30', dir='/tmp')
        self.p = os.path.join(self.d, 'f')
        self.b = 'b' in cfg['mode']
        if cfg['init']:
            self.op_ext_append(*cfg['init'])
        self.f = AutoflushFile(self.p, cfg['mode'], **({} if self.b else dict(encoding='utf-8')))

    def finish(self):
        shutil.rmtree(self.d)

    def disk(self):
        try:
            with open(self.p, 'rb') as f:
                return [x - 96 if x else 0 for x in f.read()]
        except FileNotFoundError:
            return None

    def num(self, v):
        if isinstance(v, (str, bytes)):
            assert isinstance(v, bytes if self.b else str)
            return [x - 96 if x else 0 for x in (v if self.b else v.encode())]
        return v

    def both(self, f, *a):
        import drive
        import io
        try:
            r = drive.enc(self.num(f(*a)))
        except Exception as e:
            r = drive.exc(e, (io.UnsupportedOperation, ValueError, TypeError))
        return [drive.Raw(*r), self.disk()]

    def op_write(self, *a):
        return self.both(self.f.write, letters(a, self.b))

    def op_write_wrong(self):
        return self.both(self.f.write, letters([1], not self.b))

    def op_read(self, n):
        return self.both(self.f.read, *([] if n == -1 else [n]))

    def op_readall(self):
        return self.both(self.f.readall)

    def op_seek(self, n, wh):
        return self.both(self.f.seek, n, *([wh] if wh else []))

    def op_truncate(self, n):
        return self.both(self.f.truncate, *([] if n == -1 else [n]))

    def op_close(self):
        return self.both(self.f.close)

    def op_closed(self):
        return self.both(lambda: self.f.closed)

    def op_ext_append(self, *a):
        with open(self.p, 'ab') as f:
            f.write(letters(a, True))
        return [None, self.disk()]

    def op_ext_delete(self):
        if os.path.exists(self.p):
            os.unlink(self.p)
        return [None, self.disk()]

    def op_ext_read(self):
        return [None, self.disk()]



class scratch:
    """a scratch directory that is the current one"""

    def __enter__(self):
        self.prev = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='p30', dir='/tmp'))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.prev)
        shutil.rmtree(self.d)


WILD = dict(all='(.*)', txt=r'.*\.txt$', a='a', d='d/', root='root/')


class Stateless:
    def __init__(self, cfg):
        pass

    def op_find(self, o, tree):
        from satella.files import find_files
        with scratch():
            os.mkdir('root')
            for p in tree:
                f = os.path.join('root', *p)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, 'w').close()
            r = [x for x in find_files('root', WILD[o['wild']], o['prefix'] or None, o['subdirs'], o['entire'], o['with_path'])]
        names = ['/'.join(p) for p in tree]
        if not o['subdirs']:
            r = [x for x in r if not any(n.startswith(os.path.basename(x) + '/') for n in names)]

        def where(x):
            m = [(-len(n), i) for i, n in enumerate(names) if ('/' + x).endswith('/' + n)]
            return min(m)[1] if m else 999
        return sorted(r, key=where)

    def op_noncolliding(self, n, taken):
        from satella.files import make_noncolliding_name
        d, b = os.path.split(n)
        stem, ext = os.path.splitext(b)
        nam = lambda i: os.path.join(d, stem + ('.%d' % i if i else '') + ext)
        r = make_noncolliding_name(n, {nam(i) for i in taken}.__contains__)
        with scratch():
            if not d.startswith('/'):
                for i in taken:
                    os.makedirs(os.path.dirname(nam(i)) or '.', exist_ok=True)
                    open(nam(i), 'w').close()
                assert make_noncolliding_name(n) == r
        m = [i for i in range(10) if nam(i) == r]
        return m[0] if m else r

    def op_split(self, *c):
        from satella.files import split
        p = os.path.join(*c)
        r = split(p)
        assert os.path.join(*r) == p, r
        return r if r[:1] != [''] else r[1:]


class Dir:
    known = FileNotFoundError, IsADirectoryError, FileExistsError, NotADirectoryError

    def __init__(self, cfg):
        self.s = scratch()
        self.d = self.s.__enter__()
        self.enc = None if cfg['enc'] == 'none' else cfg['enc']

    def finish(self):
        self.s.__exit__()

    def letter(self, x):
        return chr(0x104 + x) if self.enc else chr(96 + x)

    def val(self, q):
        s = ''.join('\n' if x == 0 else self.letter(9) * 5000 if x == 9 else chr(0x104 + x) if self.enc else chr(96 + x) for x in q)
        return s if self.enc else s.encode()

    def num(self, s):
        if isinstance(s, bytes):
            s = s.decode()
        s = s.replace(self.letter(9) * 5000, self.letter(9))
        return [0 if x == '\n' else ord(x) - (0x104 if self.enc else 96) for x in s]

    def on_disk(self, n):
        with open(n, 'rb') as f:
            s = f.read()
        return self.num(s.decode(self.enc or 'utf-8'))

    def op_write(self, n, v):
        from satella.files import write_to_file
        write_to_file(n, self.val(v), *([self.enc] if self.enc else []))

    def op_if_different(self, n, v):
        from satella.files import write_out_file_if_different
        b = os.stat(n).st_mtime_ns if os.path.isfile(n) else None
        if b:
            os.utime(n, ns=(1000, 1000))
        r = write_out_file_if_different(n, self.val(v), self.enc)
        assert (os.stat(n).st_mtime_ns != 1000) == r
        return r

    def op_read(self, n, d):
        from satella.files import read_in_file
        r = read_in_file(n, self.enc, **({} if d == 'raise' else dict(default=None if d == 'none' else d)))
        return r if r is None or r == d else self.num(r)

    def op_lines(self, n, e):
        from satella.files import read_lines
        if self.enc and n == 'f' and os.path.exists('f'):
            pass
        return [self.num(x) for x in read_lines(n, e, **(dict(encoding=self.enc) if self.enc else {}))]

    def op_sub(self, n, v):
        from satella.files import read_re_sub_and_write
        import re
        if self.enc == 'utf-16':    # the function knows only the encoding of the system
            s = self.on_disk(n)
            self.op_write(n, [y for x in s for y in (v if x == 1 else [x])])
            return
        one, to = self.val([1]), self.val(v)
        if not self.enc:
            one, to = one.decode(), to.decode()
        k = len(to) + os.path.getsize(n)
        read_re_sub_and_write(n, re.compile(one) if k % 2 else one, to if k % 3 else lambda m: to)

    def op_sub_first(self, n, v):
        from satella.files import read_re_sub_and_write
        import re
        if self.enc == 'utf-16':
            s = self.on_disk(n)
            self.op_write(n, v + s[1:] if s[:1] == [1] else s)
            return
        one, to = self.val([1]), self.val(v)
        if not self.enc:
            one, to = one.decode(), to.decode()
        p = '^' + one
        read_re_sub_and_write(n, re.compile(p) if os.path.getsize(n) % 3 == 0 else p, to)

    def op_unlink(self, n):
        from satella.files import try_unlink
        return try_unlink(n)

    def op_jump(self, k):
        from satella.files import jump_to_directory
        if k == 'plain':
            with jump_to_directory('d') as j:
                a = os.getcwd() == os.path.join(self.d, 'd')
                b = j.prev_path == self.d
            return [a, b, os.getcwd() == self.d]
        if k == 'again':
            j = jump_to_directory('d')
            with j:
                a = os.getcwd() == os.path.join(self.d, 'd')
            os.chdir('/')
            try:
                j.path = os.path.join(self.d, 'd')
                with j:
                    a = a and os.getcwd() == os.path.join(self.d, 'd')
                b = os.getcwd() == '/'
            finally:
                os.chdir(self.d)
            return [a, b, True]
        if k in ('raises', 'interrupted'):
            E = ZeroDivisionError if k == 'raises' else KeyboardInterrupt
            b = False
            try:
                with jump_to_directory(os.path.join(self.d, 'd')):
                    a = os.getcwd() == os.path.join(self.d, 'd')
                    raise E()
            except E:
                b = True
            return [a, b, os.getcwd() == self.d]
        with jump_to_directory('d'):
            with jump_to_directory('..'):
                b = os.getcwd() == self.d
            a = os.getcwd() == os.path.join(self.d, 'd')
        return [a, b, os.getcwd() == self.d]

    def op_all(self):
        return [[self.on_disk(n) if os.path.isfile(n) else None for n in ('f', 'g', 'd', 'd/h')], os.path.isdir('d')]


class Dev:
    known = ValueError, TypeError

    def __init__(self, cfg):
        from satella.files import DevNullFilelikeObject
        self.f = DevNullFilelikeObject(binary=True) if cfg['bin'] else DevNullFilelikeObject()

    def op_write(self, b, n):
        return self.f.write((b'x' if b else 'x') * n)

    def op_writelines(self, b):
        return self.f.writelines([b'x' if b else 'x'] * 2)

    def op_read(self, n):
        return self.f.read(*([] if n == -1 else [n]))

    def op_seek(self, n):
        return self.f.seek(n)

    def op_tell(self):
        return self.f.tell()

    def op_truncate(self):
        return self.f.truncate()

    def op_seekable(self):
        return self.f.seekable()

    def op_writable(self):
        return self.f.writable()

    def op_flush(self):
        return self.f.flush()

    def op_close(self):
        return self.f.close()

    def op_closed(self):
        return self.f.closed


def gen_names(w):
    w.replay_spec(Stateless, [dict(x=0)])


def gen_directory(w):
    w.replay_spec(Dir, [dict(enc='none'), dict(enc='utf-8'), dict(enc='utf-16')], final=[dict(op='all', a=[])])


def gen_devnull(w):
    w.replay_spec(Dev, [dict(bin=True), dict(bin=False)], final=[dict(op='closed', a=[])])


PROP = dict(
    title='File helpers: files that are flushed at once, found, named and rewritten',
    statement='AutoflushFile has everything it wrote on the disk as soon as write() returns, appends after what others have written meanwhile, keeps its position between the calls, and raises ValueError once closed. find_files gives exactly the files below the directory whose name - or entire path - matches, prefixed as asked for. split() is the reverse of os.path.join, for absolute paths too. '
              'make_noncolliding_name gives the first of name, name.1, name.2.. that does not exist. write_to_file, read_in_file, write_out_file_if_different (writing and returning True only for a difference), read_lines, read_re_sub_and_write and try_unlink do what they say for any history of the directory, for files, directories and what is absent; jump_to_directory always returns. '
              'DevNullFilelikeObject accepts what is of its type, and after close() raises ValueError.',
    over=['inputs', 'histories'], text='AutoflushFile: 9 modes and contents, histories of 4 (5) calls and outside changes, and random ones of up to 25; find_files: 240 sets of options over 6 trees; 270 paths; histories of 3 (4) operations on a directory in 3 encodings',
    why='the file is reopened for each call, so that each pair of calls is a case of its own; options of find_files combine', files=['satella/files.py'],
    mech=[('autoflush', 'files.py AutoflushFile'), ('find_files', 'files.py find_files'), ('directory', 'files.py')], note='with scan_subdirectories=False it is not specified whether directories are listed; ends of lines other than LF are not used')
