"""Prints the violations a check recorded: show.py PROPERTY [HOW_MANY]"""
import json
import sys
d = json.load(open('/verif/evidence/%s.replay.json' % sys.argv[1]))
for c in d['crashes'][:1]:
    print('CRASH', c[-1500:])
for v in d['violations'][:int(sys.argv[2]) if len(sys.argv) > 2 else 3]:
    print(v['clauses'])
    for e in v['session'][-4:]:
        print('   ', json.dumps({a: b for a, b in e.items() if a != 'regs'})[:500])
    print('  EV', json.dumps(v['event'].get('obs', v['event']))[:700])
