"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import props

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    mcs = ', '.join(sorted({m['module'] for m in p.get('mc', ())}))
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
        'technique': 'TLA+ specification checked with TLC (%s), bound to the code by replaying its behaviours and checking recorded '
                     'traces against it (Trace_%s)' % (mcs + ', ' + p['spec'] if mcs else p['spec'], p['spec']),
        'level': 'model_checking',
        'level_note': p.get('note', 'Every recorded behaviour of the real code is decided by TLC against the specification; the '
                                    'inputs are those enumerated by the model plus seeded random ones, so the code is covered up to '
                                    'that sample, and the design up to the bounds of the model.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in props.PROPS],
           'notes': 'No hooks in /repo: all observations are made through its public interface.'},
          open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
