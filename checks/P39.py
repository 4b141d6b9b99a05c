import copy
import os
import re
import shutil
import tempfile

from vt import Part

PARTS = [
    Part('schema', 'Schema', 'C', depth=(1, 1), max_paths=(100000, 100000), shards=(4, 8)),
]
ORDER = ['a', 'b', 'c', 'd']


def O(op, *a):
    return dict(op=op, a=list(a))


def spec_descs():
    """the configurations of the specification"""
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'Schema.tla')).read()
    env = dict(TRUE=True, FALSE=False, None_=['none'], Int_=lambda n: ['int', n], Str_=lambda x: ['str', x], Seq_=lambda q: ['seq'] + q)
    for n, b in re.findall(r'^(\w+) == ((?:<<|\{).*?)(?=^\w+ ==|^\w+\()', t[t.index('D_any =='):t.index('Vals ==')] + 'END ==', re.S | re.M):
        env[n] = eval('(' + re.sub(r'\bNone\b', 'None_', b.replace('<<', '[').replace('>>', ']')) + ')', env)
    return env['Descs']


def value(v):
    k = v[0]
    if k == 'pairs':
        return {a: value(b) for a, b in v[1:]}
    if k == 'seq':
        return [value(x) for x in v[1:]]
    return None if k == 'none' else float('inf') if k == 'inf' else v[1] / 4 if k == 'flt' else v[1]


def tree(v):
    import enum
    import drive
    from satella.configuration.schema import FileObject, DirectoryObject
    if isinstance(v, dict):
        assert set(v) <= set(ORDER), v
        return ['pairs'] + [[k, tree(v[k])] for k in ORDER if k in v]
    if isinstance(v, list):
        return ['seq'] + [tree(x) for x in v]
    if isinstance(v, float):
        return ['inf'] if v == float('inf') else ['flt', int(v * 4)] if v * 4 == int(v * 4) else ['flt', repr(v)]
    if isinstance(v, FileObject) or isinstance(v, DirectoryObject):
        p = str(v)
        assert v == p and v == type(v)(p) and hash(v) == hash(type(v)(p)) and v != p + '/' and v != type(v)('other') and v != None and v != 5  # noqa
        if isinstance(v, FileObject):
            assert v != DirectoryObject(p)
            with open(p, 'rb') as f, v.open('rb') as g:
                x = f.read()
                assert x == g.read() == v.get_value()
            if p == 'f':
                assert v.get_value('utf-8') == x.decode('utf-8')
        else:
            assert v != FileObject(p) and sorted(v.get_files()) == sorted(os.listdir(p))
        return [type(v).__name__, p]
    if isinstance(v, str):
        v = v.replace('\xf3\n', 'OACUTE+').replace('\xf3', 'OACUTE')
        return ['str', '?' if v[:1] in '[{' and v else v]
    if isinstance(v, enum.Enum):
        return ['member', v.name]
    return drive.enc(v)


def spoil(v):
    """change everything that can be changed"""
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('spoilt')
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoilt'] = 1


class Schema:
    def __init__(self, cfg):
        from satella.exceptions import ConfigurationValidationError
        self.known = ConfigurationValidationError,
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='vschema')
        os.chdir(self.dir)
        try:
            os.mkdir('dir')
            for p, b in (('f', b'\xc3\xb3\n'), ('dir/g', b'\xff')):
                with open(p, 'wb') as f:
                    f.write(b)
            from satella.configuration import schema
            self.s = schema
            self.wrap = None
            if cfg['form'] == 'direct':
                self.desc = self.make(cfg['desc'])
            else:
                d = self.as_dict(cfg['desc'])
                if cfg['desc'][0] != 'dict':
                    d, self.wrap = {'key': d}, 'key'
                b = copy.deepcopy(d)
                self.desc = schema.descriptor_from_dict(d)
                assert b == d
        except BaseException:
            self.finish()
            raise

    def finish(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def op_eval(self, v):
        from drive import Raw
        x = value(v)
        if self.wrap:
            x = {self.wrap: x}
        b = copy.deepcopy(x)
        out = []
        for _ in range(2):
            try:
                r = self.desc(x)
            except self.known as e:
                r = e
            else:
                if self.wrap:
                    assert list(r) == [self.wrap]
                    r = r[self.wrap]
            assert x == b
            out.append(r if isinstance(r, Exception) else tree(r))
            if isinstance(r, (dict, list)):
                spoil(r)
                if x != b:      # what was not described is given as it was
                    x = copy.deepcopy(b)
        if isinstance(out[0], Exception):
            assert type(out[0]) is type(out[1])
            raise out[0]
        assert out[0] == out[1], out
        return Raw(*out[0])

    def op_other(self, kind):
        s = self.s.List(self.s.Integer())
        return s(dict(tuple=(1, '2'), set={1}, frozenset=frozenset(), dict={1: 2}, str='12', iter=iter([1]), bytes=b'12')[kind])

    def make(self, d, key=None):
        S, k, a = self.s, d[0], d[1:]
        if k == 'list':
            return S.List(self.make(a[0])) if a[0] != ['any'] else S.List()
        if k == 'dict':
            return S.Dict([S.create_key(self.make(x[2]), x[1], *([x[3], value(x[4])] if x[3] else [])) for x in a])
        if k == 'union':
            return S.Union(*map(self.make, a))
        if k == 'caster':
            return S.Caster(int if a[0] == 'int' else lambda x: -int(x))
        if k == 'enum':
            import enum
            return S.Caster(enum.Enum('Values', dict(ZERO=0, ONE=1)))
        if k == 'contents':
            return S.FileContents(a[0] or None, a[1])
        if k == 'regexp':
            class R(S.Regexp):
                REGEXP = ('ab' if a[0] else re.compile('ab+'))
            assert 'ab' in str(R())
            return R()
        if k == 'checked':
            m = self.make(a[0])
            t = dict(str=str, int=int)[a[2]]
            m.add_checker(S.CheckerCondition(lambda v: type(v) is t and (t is str or v >= 3), 'not good', is_pre_checker=a[1]))
            return m
        return dict(any=S.Descriptor, int=S.Integer, float=S.Float, str=S.String, bool=S.Boolean, ipv4=S.IPv4, file=S.File, dir=S.Directory)[k]()

    def as_dict(self, d):
        k, a = d[0], d[1:]
        if k == 'list':
            q = dict(type='list', of=self.as_dict(a[0]))
            if a[0] == ['any']:
                del q['of']
            return q
        if k == 'dict':
            q = {}
            for x in a:
                t = self.as_dict(x[2])
                if x[3]:
                    if isinstance(t, type):
                        t = t.__name__
                    if isinstance(t, str):
                        t = dict(type=t, description='described')
                    elif 'type' not in t:       # a dict that is optional cannot be expressed
                        raise NotImplementedError()
                    if x[4] == ['none'] and x[1] in 'ac':
                        t['optional'] = True
                    else:
                        t['default'] = value(x[4])
                q[x[1]] = t
            return q
        if k == 'union':
            return dict(type='union', of=[self.as_dict(x) for x in a])
        if k == 'caster':
            return dict(type='caster', cast_to='int') if a[0] == 'int' else dict(type='caster', cast_to='builtins.int', expr='-y(x)')
        if k == 'contents':
            q = dict(type='file_contents')
            if a[0]:
                q['encoding'] = a[0]
            if a[1]:
                q['strip_afterwards'] = True
            return q if len(q) > 1 else 'file_contents'
        if k in ('int', 'str', 'float'):
            return dict(int=int, str=str, float=float)[k] if len(a) else k
        return k


def direct_only(d):
    return isinstance(d, list) and (d[:1] in (['checked'], ['regexp'], ['enum']) or any(direct_only(x) for x in d)
                                    or d[:1] == ['key'] and d[3] and d[2][0] == 'dict')


def gen_schema(w):
    import satella.configuration.schema
    cfgs = [dict(desc=d, form=f if not direct_only(d) else 'direct') for d in spec_descs() for f in ('direct', 'dict')]
    w.replay_spec(Schema, cfgs)
    r = w.rng
    strs = ['5', ' 12 ', '-1', '2.5', 'x', '', 'true', 'tRuE', 'FALSE', 'inf', '1.2.3.4', '255.255.255.255', '0.0.0.0', '1.2.3.4x', '1.2.3.4\n', '1.2.3.999', '256.1.1.1', '1.2.3', 'a.b.c.d', 'ab', 'abb', 'f', 'dir', 'dir/g', 'nofile']

    def val(d):
        k = r.randrange(8 if d else 5)
        if k == 0:
            return ['none'] if r.random() < 0.3 else ['bool', r.random() < 0.5]
        if k == 1:
            return ['int', r.randint(-9, 9)]
        if k == 2:
            return ['flt', r.randint(-20, 20)]
        if k < 5:
            return ['str', r.choice(strs)]
        if k == 5:
            return ['seq'] + [val(d - 1) for _ in range(r.randint(0, 3))]
        return ['pairs'] + [[k, val(d - 1)] for k in ORDER if r.random() < 0.6]

    def desc(d):
        k = r.choice(['any', 'int', 'int', 'float', 'str', 'bool', 'ipv4', 'caster', 'contents', 'file', 'enum', 'regexp', 'checked', 'list', 'list', 'dict', 'dict', 'dict', 'union', 'union'][:20 if d else 12])
        if k == 'caster':
            return [k, r.choice(['int', 'neg'])]
        if k == 'contents':
            return [k, r.choice(['', 'utf-8']), r.random() < 0.5]
        if k == 'regexp':
            return [k, r.random() < 0.5]
        if k == 'checked':
            return [k, desc(0), r.random() < 0.5, r.choice(['int', 'str'])]
        if k == 'list':
            return [k, desc(d - 1)]
        if k == 'union':
            return [k] + [desc(d - 1) for _ in range(r.randint(0, 3))]
        if k == 'dict':
            return [k] + [['key', x, desc(d - 1), o, val(1) if o and r.random() < 0.7 else ['none']] for x in ORDER if r.random() < 0.5 for o in [r.random() < 0.4]]
        return [k]

    def fitting(d, dep):
        """a value that is likely to be accepted"""
        k = d[0]
        if r.random() < 0.08:
            return val(2)
        if k == 'list':
            return ['seq'] + [fitting(d[1], dep) for _ in range(r.randint(0, 3))]
        if k == 'dict':
            q = {x[1]: fitting(x[2], dep) for x in d[1:] if not x[3] or r.random() < 0.5}
            for x in ORDER:
                if x not in q and not any(y[1] == x for y in d[1:]) and r.random() < 0.2:
                    q[x] = val(1)
            return ['pairs'] + [[x, q[x]] for x in ORDER if x in q]
        if k == 'union' and len(d) > 1:
            return fitting(r.choice(d[1:]), dep)
        if k == 'checked':
            return fitting(d[1], dep)
        return r.choice(dict(int=[['int', 5], ['str', '5'], ['flt', 11]], float=[['str', '2.5'], ['int', 1]], bool=[['str', 'true'], ['int', 0]], ipv4=[['str', '1.2.3.4']], file=[['str', 'f']], dir=[['str', 'dir']], contents=[['str', 'f'], ['str', 'dir/g']],
                             regexp=[['str', 'abb']], enum=[['int', 1]]).get(k, [val(1)]))
    for _ in range(w.n(500, 15000)):
        d = desc(3)
        w.seq(dict(desc=d, form='direct' if direct_only(d) or r.random() < 0.5 else 'dict'), [O('eval', fitting(d, 3)) for _ in range(4)] + [O('eval', val(2))], Schema)


PROP = dict(
    title='Validation of configuration: what each schema makes of each value',
    statement='A descriptor, made of its class or loaded from a dict, makes of each value what it is documented to (conversion of plain values, addresses, files, lists, dicts with required, optional and default keys, unions in order, casters, custom checks, nested arbitrarily) or raises ConfigurationValidationError and nothing else; all required and defaulted keys are in the result, unknown keys are kept. '
              'Neither the value nor the schema is ever changed, not even by changing the result. FileObject and DirectoryObject are equal to and hashed as the string of their path.',
    over=['inputs'], text='37 schemas in two forms with 54 values each, 500 (15000) random schemas of depth 4', why='tests validate a handful of correct values and never look at failures',
    files=['satella/configuration/schema/base.py', 'satella/configuration/schema/basic.py', 'satella/configuration/schema/structs.py', 'satella/configuration/schema/registry.py', 'satella/configuration/schema/from_json.py'],
    mech=[('plain values', 'schema/basic.py'), ('nested values', 'schema/structs.py'), ('loading', 'schema/from_json.py')], note='values are those of JSON; what eval() in a schema loaded from a dict does is up to the caller')
