"""catch.py [-p] [id ..]: run the property's quick check against each seeded change, in scratch copies of /repo"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    s = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(os.path.join(s, 'meta.json')))
    d = tempfile.mkdtemp(prefix='catch-')
    root = os.path.join(d, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', root])
        p = subprocess.run(['git', 'apply', os.path.join(s, 'patch.diff')], cwd=root)
        if p.returncode:
            return i, meta['property'], 'DOES NOT APPLY', ''
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), meta['property']], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=root, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=os.path.join(d, 'ev')),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, meta['property'], 'caught' if p.returncode == 1 and v else 'MISSED rc=%s' % p.returncode, '' if v else p.stdout[-800:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    bad = 0
    fn = os.path.join(VERIF, 'tools', 'caught.json')
    res = json.load(open(fn)) if os.path.exists(fn) else {}
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)
            bad += r[2] != 'caught'
            res[r[0]] = 'Caught by the check of %s.' % r[1] if r[2] == 'caught' else 'Not caught.'
    print('missed', bad)
    json.dump(res, open(fn, 'w'), indent=1, sort_keys=True)
