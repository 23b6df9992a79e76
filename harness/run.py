"""run.py MODULE PROP SEED TIER CASES_IN OUT SHARD NSHARDS

Executes cases (from the file CASES_IN, one JSON per line, and from the generator of the
harness module) against the real code and writes the recorded behaviours to OUT.
CASES_IN can be "-" (none); PROP "replay" only executes the file.
"""
from __future__ import print_function
import importlib
import json
import os
import random
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(4000)


def main():
    module, prop, seed, tier, cases_in, out, shard, nshards = sys.argv[1:9]
    shard, nshards = int(shard), int(nshards)
    import warnings
    warnings.simplefilter('ignore')
    import common
    h = importlib.import_module(module)
    n = 0
    with open(out, 'w') as f:
        def do(case):
            # The case about to be executed, should it take the process down
            with open(out + '.now', 'w') as g:
                json.dump(case, g)
            try:
                trace = common.with_timeout(lambda: h.execute(prop, case), getattr(h, 'CASE_SECONDS', 20))
            except common.Timeout:
                trace = {'cfg': {}, 'ops': [], 'timeout': True}
            except Exception as e:
                trace = {'cfg': {}, 'ops': [], 'crash': ''.join(traceback.format_exc())[-2000:]}
            trace['case'] = case
            f.write(json.dumps(trace) + '\n')
        if cases_in != '-':
            with open(cases_in) as g:
                for i, line in enumerate(g):
                    if i % nshards == shard:
                        do(json.loads(line))
                        n += 1
        if hasattr(h, 'generate') and not prop.startswith('replay'):
            for i, case in enumerate(h.generate(prop, random.Random('%s-%s-%s' % (prop, seed, tier)), tier)):
                if i % nshards == shard:
                    do(case)
                    n += 1
    os.remove(out + '.now') if os.path.exists(out + '.now') else None
    print('DONE %d' % n)
    sys.stdout.flush()
    os._exit(0)


main()
