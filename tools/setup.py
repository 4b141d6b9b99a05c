"""sanity of the toolchain: every specification parses (nothing is built; the checks import /repo directly)"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
bad = 0
for d, _, fs in os.walk(os.path.join(HERE, 'specs')):
    for f in sorted(fs):
        if f.endswith('.tla'):
            p = subprocess.run(['java', '-DTLA-Library=' + os.path.join(HERE, 'specs') + ':' + os.path.join(HERE, 'specs', 'lib'), '-cp', CP,
                                'tla2sany.SANY', os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode or 'Errors' in p.stdout or 'rror:' in p.stdout:
                bad += 1
                print(f, p.stdout[-600:])
print('specifications parsed, %d bad' % bad)
sys.exit(1 if bad else 0)
