"""What decides each property: harness module, specification module, models to explore."""
import json
import os

import findings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = ['TLC evaluates the specification faithfully',
               'the projection of Python values to the specification (harness/common.py) loses nothing the property talks about']

LANG = {'harness': 'lang', 'spec': 'Lang'}

PROPS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C18', 'C19', 'C20', 'C22', 'C26', 'C31'):
    PROPS[_p] = dict(LANG)
for _p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C09', 'C18', 'C22', 'C26', 'C31'):
    _n = 1 if _p in ('C09', 'C18') else 2
    PROPS[_p]['mc'] = [{'module': 'MC_Conf', 'cfg': 'MC_Conf_%s.cfg' % _p, 'cfg_thorough': 'MC_Conf_%s_thorough.cfg' % _p,
                        'limit': {'quick': 1000 * _n, 'thorough': 8000 * _n}},
                       {'module': 'MC_Conf', 'cfg': 'MC_Conf_%s_nest.cfg' % _p, 'only': 'thorough', 'limit': {'thorough': 8000 * _n}}]
PROPS['C03']['mc'] = [{'module': 'MC_Tokens', 'cfg': 'MC_Tokens_new.cfg', 'cfg_thorough': 'MC_Tokens_new_thorough.cfg',
                       'limit': {'quick': 1700, 'thorough': 10000}}]
PROPS['C20']['mc'] = [{'module': 'MC_Tokens', 'cfg': 'MC_Tokens_old.cfg', 'cfg_thorough': 'MC_Tokens_old_thorough.cfg',
                       'limit': {'quick': 1700, 'thorough': 16000}}]
PROPS['C19']['mc'] = [{'module': 'MC_Rows', 'cfg': 'MC_Rows.cfg', 'cfg_thorough': 'MC_Rows_thorough.cfg',
                       'limit': {'quick': 350, 'thorough': 8000}}]

PROPS['C10'] = {'harness': 'plugins_h', 'spec': 'Plugins',
                'mc': [{'module': 'MC_Plugins', 'cfg': 'MC_Plugins.cfg', 'cfg_thorough': 'MC_Plugins_thorough.cfg', 'walk': 60}]}
PROPS['C14'] = {'harness': 'nick_h', 'spec': 'Nick',
                'mc': [{'module': 'MC_Nick', 'cfg': 'MC_Nick.cfg', 'cfg_thorough': 'MC_Nick_thorough.cfg', 'walk': 60}]}
PROPS['C08'] = {'harness': 'heap_h', 'spec': 'Heap',
                'mc': [{'module': 'MC_Heap', 'cfg': 'MC_Heap.cfg', 'cfg_thorough': 'MC_Heap_thorough.cfg',
                        'limit': {'quick': 4000, 'thorough': 60000}}]}
PROPS['C21'] = {'harness': 'hist_h', 'spec': 'ParserHist',
                'mc': [{'module': 'MC_ParserHist', 'cfg': 'MC_ParserHist.cfg', 'cfg_thorough': 'MC_ParserHist_thorough.cfg',
                        'limit': {'quick': 3000, 'thorough': 40000}}]}
PROPS['C12'] = {'harness': 'bind_h', 'spec': 'Bind',
                'mc': [{'module': 'MC_Bind', 'cfg': 'MC_Bind.cfg', 'cfg_thorough': 'MC_Bind_thorough.cfg',
                        'limit': {'quick': 3000, 'thorough': 30000}}]}
PROPS['C11'] = {'harness': 'intro_h', 'spec': 'Introspect',
                'mc': [{'module': 'MC_Introspect', 'cfg': 'MC_Introspect.cfg', 'cfg_thorough': 'MC_Introspect_thorough.cfg',
                        'limit': {'quick': 1000, 'thorough': 12000}}]}
PROPS['C13'] = {'harness': 'decor_h', 'spec': 'Decor',
                'mc': [{'module': 'MC_Decor', 'cfg': 'MC_Decor.cfg', 'cfg_thorough': 'MC_Decor_thorough.cfg',
                        'limit': {'quick': 2500, 'thorough': 40000}}]}
PROPS['C27'] = {'harness': 'classes_h', 'spec': 'Classes',
                'mc': [{'module': 'MC_Classes', 'cfg': 'MC_Classes.cfg', 'cfg_thorough': 'MC_Classes_thorough.cfg',
                        'limit': {'quick': 3000, 'thorough': 60000}}]}
PROPS['C23'] = {'harness': 'hash_h', 'spec': 'Arrays',
                'mc': [{'module': 'MC_Arrays', 'cfg': 'MC_Arrays.cfg', 'cfg_thorough': 'MC_Arrays_thorough.cfg',
                        'limit': {'quick': 3000, 'thorough': 15000}}]}
PROPS['C24'] = {'harness': 'sk_h', 'spec': 'Sklearn',
                'mc': [{'module': 'MC_Sklearn', 'cfg': 'MC_Sklearn.cfg', 'cfg_thorough': 'MC_Sklearn_thorough.cfg',
                        'limit': {'quick': 1500, 'thorough': 30000}}]}
PROPS['C28'] = {'harness': 'imports_h', 'spec': 'Imports',
                'mc': [{'module': 'MC_Imports', 'cfg': 'MC_Imports.cfg', 'cfg_thorough': 'MC_Imports_thorough.cfg',
                        'limit': {'quick': 2500, 'thorough': 30000}}]}
PROPS['C29'] = {'harness': 'env_h', 'spec': 'Env', 'shards': 8,
                'mc': [{'module': 'MC_Env', 'cfg': 'MC_Env.cfg', 'cfg_thorough': 'MC_Env_thorough.cfg', 'walk': 60,
                        'limit': {'quick': 60, 'thorough': 900}}]}
PROPS['C30'] = {'harness': 'threads_h', 'spec': 'Threads', 'shards': 8,
                'mc': [{'module': 'MC_Threads', 'cfg': 'MC_Threads.cfg', 'cfg_thorough': 'MC_Threads_thorough.cfg',
                        'limit': {'quick': 320, 'thorough': 6000}},
                       {'module': 'MC_Threads', 'cfg': 'MC_Threads_chain.cfg', 'cfg_thorough': 'MC_Threads_chain_thorough.cfg',
                        'limit': {'quick': 160, 'thorough': 3000}}]}
PROPS['C25'] = {'harness': 'calls_h', 'spec': 'Calls',
                'mc': [{'module': 'MC_Calls', 'cfg': 'MC_Calls.cfg', 'cfg_thorough': 'MC_Calls_thorough.cfg',
                        'limit': {'quick': 3000, 'thorough': 60000}}]}
for _p in ('C15', 'C16', 'C17'):
    PROPS[_p] = {'harness': 'recorder_h', 'spec': 'Recorder',
                 'mc': [{'module': 'MC_Recorder', 'cfg': 'MC_Recorder.cfg', 'cfg_thorough': 'MC_Recorder_thorough.cfg',
                         'limit': {'quick': 3000, 'thorough': 50000}}]}


def corpus(prop):
    """Directed cases: the inputs of defects once found, and of the known findings."""
    path = os.path.join(VERIF, 'corpus', prop + '.jsonl')
    cases = []
    if os.path.exists(path):
        with open(path) as f:
            cases = [json.loads(line) for line in f if line.strip()]
    return cases + findings.corpus(prop)


def cover(edges, mc):
    """Walks from the initial state that take every transition of the explored specification.

    edges: [source, operation, target, ...]; the first one starts at the initial state."""
    succ = {}
    order = []
    for e in edges:
        a, op, b = json.dumps(e[0], sort_keys=True), e[1], json.dumps(e[2], sort_keys=True)
        if a not in succ:
            succ[a] = []
            order.append(a)
        succ[a].append((op, b))
    init = json.dumps(edges[0][0], sort_keys=True)
    length = mc.get('walk', 40)
    todo = {a: list(range(len(es))) for a, es in succ.items()}
    left = sum(map(len, todo.values()))
    rank = {}

    def nearest(a):
        """Operations to get from a to a state with pending transitions."""
        if todo.get(a):
            return []
        seen = {a: None}
        queue = [a]
        for x in queue:
            for i, (op, b) in enumerate(succ.get(x, ())):
                if b not in seen:
                    seen[b] = (x, op)
                    if todo.get(b):
                        path = []
                        while seen[b] is not None:
                            b, o = seen[b]
                            path.append(o)
                        return path[::-1]
                    queue.append(b)
        return None
    step = {a: {json.dumps(op, sort_keys=True): b for op, b in es} for a, es in succ.items()}
    walks = []
    while left:
        at, walk = init, []
        while len(walk) < length or not walk:
            way = nearest(at)
            if way is None:
                break
            if walk and len(walk) + len(way) + 1 > length:
                break
            for op in way:
                walk.append(op)
                at = step[at][json.dumps(op, sort_keys=True)]
            i = todo[at].pop()
            left -= 1
            op, b = succ[at][i]
            walk.append(op)
            at = b
        if not walk:
            raise ValueError('unreachable transitions')
        walks.append(walk)
    return [{'ops': w} for w in walks]
