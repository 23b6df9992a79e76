"""Executes the case in a replay file and shows what the code did at each step (under the interpreter of the repository)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'harness'), os.path.join(HERE, '..', 'lib')]
import props
src = open(os.path.join(HERE, 'show.py')).read()
exec(src.split('\nfor f in')[0])
for f in sys.argv[1:]:
    d = json.load(open(f))
    t = importlib.import_module(props.PROPS[d['property']]['harness']).execute(d['property'], d['case'])
    print('---', f, d['clause'], d['step'])
    for i, op in enumerate(t['ops'][:d['step']]):
        print(i + 1, show(op)[:int(os.environ.get('W', 1500))])
