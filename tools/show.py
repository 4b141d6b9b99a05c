import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f if '/' in f else '/verif/evidence/replays/%s.json' % f))
    print('==', f, 'cfg', d['trace']['cfg'], 'failing', d['failing_event_index'], d['trace'].get('meta'))
    for n, e in enumerate(d['trace']['ev'], 1):
        if 'k' in e:
            print(n, '  ' * e.get('t', 0), e['k'], e.get('t', ''), e.get('op', ''), e.get('a', ''), '->' + json.dumps(e['r']) if 'r' in e else '', e.get('c', ''), e.get('rc', ''))
        else:
            print(n, e['op'], e.get('a'), '->', json.dumps(e['r']), e.get('c', ''), e.get('rc', ''))
    print(d['specification_allowed'][:1200])
