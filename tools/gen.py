"""writes properties.jsonl and MANIFEST.json from the PROP records of the check modules"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'lib')]
sys.dont_write_bytecode = True
props, checks = [], []
for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'P*.py'))):
    i = os.path.basename(f)[:-3]
    p = importlib.import_module('checks.' + i).PROP
    assert len(p['title']) <= 80, (i, len(p['title']))
    props.append(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                      why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    for fn in p['files']:
        assert os.path.exists(os.path.join('/repo', fn)), (i, fn)
    checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                       technique=p.get('technique', 'TLA+ specification checked with TLC; its behaviours are replayed into the real code and traces '
                                       'recorded from the real code under a deterministic scheduler are validated against it by TLC'),
                       level='model_checking', level_note=p['note']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[]), f, indent=1)
    f.write('\n')
print(len(props), 'properties')

# ---------------------------------------------------------------- DESIGN.md
out = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
out += '\n## The properties\n'
for p in props:
    m = importlib.import_module('checks.' + p['id'])
    P = m.PROP
    out += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    for part in m.PARTS:
        out += '* part `%s`: `specs/%s.tla` (operators `%s*`), %s; ' % (
            part.name, part.spec, part.prefix, 'concurrent histories checked for a linearization' if part.mode == 'lin' else 'call/answer traces')
        out += ('design explored to depth %s (quick) / %s (thorough), every explored transition replayed into the code.\n' % part.depth) if part.design and part.replay else (
            ('design explored to depth %s / %s.\n' % part.depth) if part.design else 'the design exploration is shared with another part.\n')
    for mo in getattr(m, 'MODELS', ()):
        out += '* model `specs/%s.tla` with `%s.cfg`%s.\n' % (mo.module, mo.cfg, ', a defective variant which TLC must reject' if mo.fails else '')
    out += '\nQuantification: %s. Bounds: %s. Why tests cannot: %s.\n' % (P['text'], P['note'], P['why'])
    if P.get('design'):
        out += '\n' + P['design'] + '\n'
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
out += '\n## Genuine defects found\n\nRepaired in /repo (one `fix:` commit each; the check of the property fails on the tree before the commit):\n\n'
for l in kf['fixed']:
    out += '* %s\n' % l[len('fixed: '):]
out += '\nRecorded, not repaired (see known_findings.json):\n\n'
for k in kf['findings']:
    out += '* %s: %s\n' % (k['property'], k['what'])
if not kf['findings']:
    out += '* none\n'
out += '\n## Planted changes\n\n'
sd = os.path.join(HERE, 'tools', 'caught.json')
caught = json.load(open(sd)) if os.path.exists(sd) else {}
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    me = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    out += '* `%s` (%s): %s. Needs: %s. %s\n' % (i, me['property'], me['what_it_breaks'], me['needs'], caught.get(i, ''))
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out += '\n' + open(tail).read()
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(out)
