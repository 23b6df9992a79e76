"""Shows all the operations of the case in a replay file."""
import json
import os
import sys

src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'show.py')).read()
exec(src.split('\nfor f in')[0])
for f in sys.argv[1:]:
    d = json.load(open(f))
    print('---', f, d.get('clause'), 'step', d.get('step'))
    print({k: v for k, v in d['case'].items() if k != 'ops'})
    for i, op in enumerate(d['case']['ops']):
        print('%2d' % (i + 1), '!' if i + 1 == d.get('step') else ' ', show(op))
