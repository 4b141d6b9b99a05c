"""
plant.py SPEC.py [id ..]: SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)..], needs, breaks, demo)].
Each is confirmed in a scratch copy (demo passes without it and fails with it, stable tests pass with it) and saved to seeded/<id>/.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd = the repository
d="$(cd "$(dirname "$0")" && pwd)"
s="$(mktemp -d)"
trap 'rm -rf "$s"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" SCRATCH="$s" timeout -k 5 120 /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def tests(root):
    """the set of stable tests that do not pass in root"""
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    out = tempfile.mkdtemp()
    base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120', '--continue-on-collection-errors', '-o', 'junit_family=xunit2']

    def run(rep, args):
        try:
            subprocess.run(base + ['--junitxml=%s/%s.xml' % (out, rep)] + args, cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        except subprocess.TimeoutExpired:
            pass
        subprocess.run('rm -rf lock test temp.tmp test.tmp test.txt test.1.txt test3.txt test.json test2.json test3.json directory test_d', shell=True, cwd=root)
    run('serial', ['-p', 'no:xdist', 'tests/test_files.py', 'tests/test_configuration'])
    run('par', ['-n', '4', '--dist', 'loadfile', '--ignore=tests/test_files.py', '--ignore=tests/test_configuration', 'tests'])
    ok = set()
    for n in os.listdir(out):
        for tc in ET.parse(os.path.join(out, n)).getroot().iter('testcase'):
            if not [c for c in tc if c.tag in ('failure', 'error', 'skipped')]:
                ok.add(tc.get('classname') + '::' + tc.get('name'))
    shutil.rmtree(out)
    return ok


def norm(x):
    return x


def one(s):
    d = tempfile.mkdtemp(prefix='plant-')
    root = os.path.join(d, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', root])
        demo = os.path.join(d, 'demo')
        os.mkdir(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(s['demo'])
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        run = lambda: subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = run()
        if p.returncode:
            return s['id'], 'demo fails without the change:\n' + p.stdout[-1500:]
        for fn, old, new in s['edits']:
            fn = os.path.join(root, fn)
            t = open(fn).read()
            if t.count(old) != 1:
                return s['id'], '%d occurrences of %r' % (t.count(old), old)
            open(fn, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=root, text=True)
        p = run()
        if not p.returncode:
            return s['id'], 'demo passes with the change'
        want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = want - tests(root)
        if miss:
            miss = miss - tests(root)
        if miss:
            return s['id'], 'tests fail: %s' % sorted(miss)[:5]
        t = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(t, exist_ok=True)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, n), t)
        with open(os.path.join(t, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(t, 'meta.json'), 'w') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        return s['id'], 'saved'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    seeds = [s for s in g['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, seeds):
            print(i, r, flush=True)
