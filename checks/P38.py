import json
import os
import re
import shutil
import tempfile
import warnings

from vt import Part

PARTS = [
    Part('sources', 'Sources', 'C', depth=(3, 4), max_paths=(8000, 150000), shards=(3, 8)),
    Part('merge', 'Sources', 'M', depth=(1, 1), max_paths=(100000, 100000), shards=(1, 1)),
]
FILES = dict(y='.y.conf')
ORDER = ['a', 'b', 'c', 'd', 'env', 'Env', 'type', 'args', 'x']


def O(op, *a):
    return dict(op=op, a=list(a))


def value(v):
    """the value a tagged tree stands for"""
    if v[0] == 'pairs':
        return {k: value(x) for k, x in v[1:]}
    if v[0] == 'seq':
        return [value(x) for x in v[1:]]
    return None if v[0] == 'none' else v[1]


def tree(v):
    from drive import enc
    if isinstance(v, dict):
        assert set(v) <= set(ORDER), v
        return ['pairs'] + [[k, tree(v[k])] for k in ORDER if k in v]
    if isinstance(v, list):
        return ['seq'] + [tree(x) for x in v]
    return enc(v)


def text(kind, v):
    import toml
    import yaml
    v = value(v)
    if kind == 'JSON':
        return json.dumps(v)
    return yaml.dump(v, default_flow_style=False) if kind == 'YAML' else toml.dumps(v)


def spec_sources():
    """the configurations of the specification"""
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'Sources.tla')).read()
    env = dict(All=['JSON', 'YAML', 'TOML'], TRUE=True, FALSE=False, P=lambda k, v: ['pairs', [k, v]], Int_=lambda n: ['int', n], Str_=lambda x: ['str', x], I=lambda n: ['seq', ['int', n]])
    for n, b in re.findall(r'^(\w+) == ((?:<<|\{).*?)(?=^\w+ ==|^\w+\()', t[t.index('SA =='):t.index('CCfgs ==')] + 'END ==', re.S | re.M):
        env[n] = eval('(' + b.replace('<<', '[').replace('>>', ']') + ')', env)
    return env['Srcs']


class Response:
    def __init__(self, st):
        self.status_code, self.text = (404, '{"a": [7]}') if st is None else (200, st)

    def json(self):
        import requests
        try:
            return json.loads(self.text)
        except ValueError as e:
            raise requests.JSONDecodeError(str(e), self.text, 0)


class Requests:
    """stands in for requests.request"""

    def __init__(self, p):
        self.p = p

    def __call__(self, method, url, **kwargs):
        import requests
        assert (method, url, kwargs) == ('POST', 'http://example.invalid/x', dict(timeout=5)), (method, url, kwargs)
        if not os.path.exists(self.p):
            return Response(None)
        with open(self.p) as f:
            t = f.read()
        if t.startswith('\0'):
            raise requests.ConnectionError()
        return Response(t)


BROKEN = dict(JSON='{"a": ', YAML='a: [1\nb', TOML='a = = 2')


class Sources:
    def __init__(self, cfg):
        from satella.exceptions import ConfigurationError
        self.known = ConfigurationError,
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='vsources')
        import requests
        self.request = requests.request
        os.chdir(self.dir)
        os.mkdir('conf')
        os.mkdir('conf/sub')
        os.environ.pop('x', None)
        from satella.configuration import sources
        self.s = sources
        import requests
        requests.request = Requests(self.dir + '/conf/x')
        self.base = 'conf' if cfg['form'] == 'direct' else self.dir + '/conf'
        try:
            if cfg['form'] == 'direct':
                self.source = self.make(cfg['src'])
            else:
                d = self.as_dict(cfg['src'])
                before = json.dumps(d)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore', UserWarning)
                    if d['type'] == 'MergingSource' and not d['on_fail'] and d['fail_if_no_sources_are_correct'] and len(d['args']) % 2:
                        self.source = sources.load_source_from_list(d['args'])
                    else:
                        self.source = sources.load_source_from_dict(d)
                assert json.dumps(d) == before
        except BaseException:
            self.finish()
            raise

    def finish(self):
        import requests
        requests.request = self.request
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def op_provide(self):
        from drive import Raw
        v = self.source.provide()
        assert isinstance(v, dict)
        return Raw(*tree(v))

    def op_setenv(self, x):
        if x == 'unset':
            os.environ.pop('x', None)
        else:
            os.environ['x'] = x

    def op_put(self, name, t):
        p = os.path.join(self.dir, 'conf', FILES.get(name, name))
        if os.path.exists(p):
            os.unlink(p)
        if t[0] != 'gone':
            with open(p, 'w', encoding='utf8') as f:
                f.write('\x00{' if t[0] == 'broken' else '' if t[0] == 'empty' else text(t[1], t[2]))

    def make(self, s):
        S, k, a = self.s, s[0], s[1:]
        if k == 'static':
            return S.StaticSource(value(a[0]))
        if k in ('text', 'broken', 'notdict'):
            t = text(*a) if k == 'text' else BROKEN[a[0]] if k == 'broken' else '[1, 2]'
            return getattr(S, a[0] + 'Source')(t.encode('utf8') if len(t) % 2 else t)
        if k == 'env':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return S.EnvironmentSource('x', a[1] or None, **(dict(cast_to=int) if a[2] else {}))
        if k == 'envvars':
            return S.EnvVarsSource('x')
        if k == 'http':
            return S.HTTPJSONSource('http://example.invalid/x', 'POST', timeout=5)
        if k == 'emptytext':
            return getattr(S, a[0] + 'Source')(b'')
        if k == 'file':
            return S.FileSource(os.path.join(self.base, FILES.get(a[0], a[0])), interpret_as=[x + 'Source' for x in a[1:]])
        if k == 'dir':
            return S.DirectorySource(self.base, scan_subdirectories=a[0], **self.filtering(a), on_fail=S.DirectorySource.SILENT if a[1] else S.DirectorySource.RAISE)
        if k == 'nodir':
            return S.DirectorySource(self.base + '/nonexistent', on_fail=S.DirectorySource.SILENT if a[0] else S.DirectorySource.RAISE)
        if k == 'object':
            return S.BuildObjectFrom(a[0], self.make(a[1]))
        if k == 'opt':
            return S.OptionalSource(self.make(a[0]))
        if k == 'alt':
            return S.AlternativeSource(*map(self.make, a))
        return S.MergingSource(*map(self.make, a[2:]), on_fail=S.MergingSource.SILENT if a[0] else S.MergingSource.RAISE, fail_if_no_sources_are_correct=a[1])

    def filtering(self, a):
        d = {}
        if a[2]:
            d['fname_filter'] = lambda path: path != os.path.join(self.base, a[2])
        if a[3:] != ['JSON', 'YAML', 'TOML']:
            d['interpret_as'] = [x + 'Source' for x in a[3:]]
        return d

    def as_dict(self, s):
        d = self.as_dict_(s)
        if s[0] in ('file', 'broken', 'env', 'nodir', 'alt'):
            d.setdefault('optional', False)
        return d

    def as_dict_(self, s):
        k, a = s[0], s[1:]
        if k == 'http':
            return dict(type='HTTPJSONSource', args=['http://example.invalid/x'], method='POST', timeout=5)
        if k == 'emptytext':
            return dict(type=a[0] + 'Source', args=[''])
        if k == 'static':
            v = value(a[0])
            return dict(type='StaticSource', arg=v) if len(v) % 2 else dict(type='StaticSource', config=v)
        if k in ('text', 'broken', 'notdict'):
            t = text(*a) if k == 'text' else BROKEN[a[0]] if k == 'broken' else '[1, 2]'
            e = 'utf-8' if len(t) % 3 else 'utf-16'
            return dict(type=a[0] + 'Source', args=[dict(type='binary', value=t, encoding=e) if len(t) % 2 else t], encoding=e)
        if k == 'env':
            d = dict(type='EnvironmentSource', args=['x'])
            if a[1]:
                d['args'].append(a[1])
            if a[2]:
                d['cast_to'] = dict(type='lambda', operation='int(x)') if a[1] else dict(type='import', module='builtins', attribute='int', cast_before=dict(type='lambda', operation='x.strip()'))
            return d
        if k == 'envvars':
            return dict(type='EnvVarsSource', arg='x')
        if k == 'file':
            return dict(type='FileSource', path=os.path.join(self.base, FILES.get(a[0], a[0])), interpret_as=[x + 'Source' for x in a[1:]])
        if k == 'dir':
            d = self.filtering(a)
            if 'fname_filter' in d:
                d['fname_filter'] = dict(type='lambda', operation='x != %r' % os.path.join(self.base, a[2]))
            return dict(d, type='DirectorySource', arg=self.base, scan_subdirectories=a[0], on_fail=int(a[1]))
        if k == 'nodir':
            return dict(type='DirectorySource', arg=self.base + '/nonexistent', on_fail=int(a[0]))
        if k == 'object':
            return dict(type='BuildObjectFrom', key=a[0], child=self.as_dict(a[1]))
        if k == 'opt':
            d = self.as_dict(a[0])
            if d.get('optional'):
                return dict(type='OptionalSource', arg=d)
            d['optional'] = True
            return d
        if k == 'alt':
            return dict(type='AlternativeSource', args=[self.as_dict(x) for x in a])
        return dict(type='MergingSource', args=[self.as_dict(x) for x in a[2:]], on_fail=int(a[0]), fail_if_no_sources_are_correct=a[1])


def gen_sources(w):
    import satella.configuration.sources
    import toml
    import yaml
    w.replay_spec(Sources, [dict(src=x, form=f) for x in spec_sources() for f in ('direct', 'dict')], final=[O('provide'), O('provide')])
    r = w.rng

    def val(d, kinds=5):
        k = r.randrange(kinds)
        if d == 0 or k < 2:
            return ['int', r.randint(0, 3)] if k else ['str', r.choice('abx')]
        if k == 2:
            return ['seq'] + [['int', r.randint(0, 3)] for _ in range(r.randint(1, 3))]
        return pairs(d - 1)

    def pairs(d):
        ks = [k for k in ORDER[:4] if r.random() < 0.5] or ['b']
        return ['pairs'] + [[k, val(d)] for k in ks]

    def src(d):
        k = r.choice(['static', 'static', 'text', 'broken', 'env', 'envvars', 'file', 'http', 'emptytext', 'object', 'opt', 'alt', 'merge', 'merge'][:14 if d else 9])
        if k == 'static':
            return [k, pairs(2)]
        if k == 'text':
            return [k, r.choice(['JSON', 'YAML', 'TOML']), pairs(2)]
        if k == 'broken':
            return [r.choice(['broken', 'notdict']), r.choice(['JSON', 'YAML'])]
        if k == 'env':
            return [k, 'x', r.choice(['', 'a', 'Env']), r.choice(['', 'int'])]
        if k in ('envvars', 'http'):
            return [k, 'x'][:2 if k == 'envvars' else 1]
        if k == 'emptytext':
            return [k, r.choice(['JSON', 'YAML', 'TOML'])]
        if k == 'file':
            return [k, r.choice(['x', 'y', 'sub/z'])] + r.sample(['JSON', 'YAML', 'TOML'], r.randint(1, 3))
        if k == 'object':
            return [k, r.choice('abc'), src(d - 1)]
        if k == 'opt':
            return [k, src(d - 1)]
        if k == 'alt':
            return [k] + [src(d - 1) for _ in range(r.randint(0, 3))]
        return [k, r.random() < 0.6, r.random() < 0.7] + [src(d - 1) for _ in range(r.randint(0, 4))]
    for _ in range(w.n(250, 8000)):
        q = []
        for _ in range(r.randint(2, 9)):
            o = r.choice(['provide', 'provide', 'setenv', 'put'])
            q.append(O('provide') if o == 'provide' else O('setenv', r.choice(['unset', '12', ' 7 ', 'junk', '{"a": [1]}'])) if o == 'setenv'
                     else O('put', r.choice(['x', 'y', 'sub/z']), r.choice([['gone'], ['broken'], ['empty'], ['text', r.choice(['JSON', 'YAML', 'TOML']), pairs(2)]])))
        s = r.choice([src(3), src(2), ['dir', r.random() < 0.7, r.random() < 0.5, r.choice(['', '', 'x', 'sub'])] + r.choice([['JSON', 'YAML', 'TOML'], r.sample(['JSON', 'YAML', 'TOML'], 2)]), ['merge', True, True, ['dir', True, True, '', 'JSON', 'YAML', 'TOML'], src(1)]])
        w.seq(dict(src=s, form=r.choice(['direct', 'dict'])), q + [O('provide'), O('provide')], Sources)


class Merge:
    def __init__(self, cfg):
        from satella.exceptions import ConfigurationError
        self.known = ConfigurationError,

    def op_load(self, what):
        from satella.configuration.sources import load_source_from_dict, load_source_from_list
        d = dict(unknown=dict(type='SomeSource'), notype=dict(args=[1]), badargs=dict(type='FileSource', no_such_argument=5), notadict=[1], notasource=dict(type='load_source_from_list'))[what]
        if what == 'unknown':
            try:
                load_source_from_list([dict(type='StaticSource', arg={}), d])
            except self.known:
                return load_source_from_dict(d)
        else:
            return load_source_from_dict(d)

    def op_merge(self, x, y, z):
        from drive import Raw
        from satella.coding import merge_dicts
        a, b, c = value(x), value(y), value(z)
        q = merge_dicts(a, b)
        # "v1 will be updated in-place" if it can be
        assert q is a if type(a) is type(b) and isinstance(a, (dict, list)) else q is b
        if q is b and isinstance(b, (dict, list)):
            q = value(tree(b))
        q = merge_dicts(q, c)
        return Raw('seq', tree(q), tree(b), tree(c))


def gen_merge(w):
    import satella.coding
    w.replay_spec(Merge, [dict(x=0)], final=[])


PROP = dict(
    title='Configuration sources: evaluation, merging, failures and loading from a dict',
    statement='provide() of any tree of sources gives, each time it is called, what the environment and the files contain at that time: an alternative gives the first that does not fail, an optional one an empty dict, merging (of dicts recursively, of lists by concatenation, later sources winning) gives the same each time and never changes what the merged sources gave; files and directories, however their path was given, are parsed by the requested formats. '
              'All failures are ConfigurationError and are raised exactly if demanded. A source loaded from a dict is the same as built directly, dicts that are not sources being passed as they are. merge_dicts updates its first argument only.',
    over=['inputs', 'histories'], text='54 trees of sources in two forms in all histories of 3 (4) operations, random trees of depth 4; 1728 merges', why='tests call provide() once, on single sources, with absolute paths',
    files=['satella/configuration/sources/base.py', 'satella/configuration/sources/derivative.py', 'satella/configuration/sources/envvars.py', 'satella/configuration/sources/file.py', 'satella/configuration/sources/format.py', 'satella/configuration/sources/from_dict.py', 'satella/configuration/sources/object_from.py', 'satella/coding/algos.py'],
    mech=[('sources', 'configuration/sources'), ('merging', 'coding/algos.py')], note='the order in which files of a directory are merged is unspecified; requests.request is replaced by a stand-in')
