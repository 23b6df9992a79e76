"""The registries of nicknames: executes the operations of spec/Nick.tla."""
from __future__ import print_function
import random

from whatami import What, whatable, id2what
from whatami.registry import WhatamiRegistry
from common import codes, text, outcome, WhatableProbe

NOTHING = [0]

# Ids that are ids, with things that have them
WHATS = [lambda: What('f', {}), lambda: What('f', {'a': 1}), lambda: What('f', {'a': 1}, out_name='o'),
         lambda: What('g', {'a': "it's", 'b': What('f', {'a': 1})}), lambda: What('f', {'a': '1'}), lambda: What('n1', {}),
         lambda: What('g', {'z': None}, out_name='n1'), lambda: What('f', {'a': 1.0})]
BY_ID = {}
for _w in WHATS:
    BY_ID[{0: 'f()', 1: 'f(a=1)', 2: 'o=f(a=1)', 3: "g(a='it\\'s',b=f(a=1))", 4: "f(a='1')", 5: 'n1()', 6: 'n1=g(z=None)',
           7: 'f(a=1.0)'}[WHATS.index(_w)]] = _w


def arg(cs):
    return None if cs == NOTHING else text(cs)


def thing(op, key='id'):
    """What is registered: a text, a configuration or something whatable with that id."""
    i = arg(op[key])
    how = op.get('how', 'text')
    if how == 'text' or i not in BY_ID:
        return i
    w = BY_ID[i]()
    if how == 'nonid':  # parameters that do not make it to the id
        w.conf['hidden'] = 5
        w.non_id_keys.add('hidden')
    return w if how in ('what', 'nonid') else WhatableProbe(w)


def back(r):
    """What a lookup gave."""
    return NOTHING if r is None else codes(r)


def execute(prop, case):
    n = case.get('registries', 1)
    regs = [WhatamiRegistry() if i else WhatamiRegistry(name='other') for i in range(n)]
    nicks = [NOTHING]
    ids = [NOTHING]
    for op in case['ops']:
        for k, pool in (('nick', nicks), ('id', ids)):
            if k in op and op[k] not in pool:
                pool.append(op[k])
    # Nicknames and ids are different worlds
    nicks, ids = nicks + ids[1:], ids + [x for x in nicks[1:] if x not in ids]
    held = []
    ops = []
    for op in case['ops']:
        op = dict(op)
        reg = regs[op['r'] - 1]
        k = op['op']
        if k == 'register':
            t = thing(op)
            got = []
            obs = outcome(lambda: got.append(reg.register(t, arg(op['nick']))), lambda r: 0)
            op['fluent'] = bool(got) and got[0] is t
        elif k == 'remove':
            t = thing(op)
            if op.get('how2') == 'pos':
                obs = outcome(lambda: reg.remove(arg(op['nick']), t), lambda r: 0)
            else:
                kw = {}
                if op['nick'] != NOTHING:
                    kw['nickname'] = arg(op['nick'])
                if op['id'] != NOTHING:
                    kw['what'] = t
                obs = outcome(lambda: reg.remove(**kw), lambda r: 0)
        elif k == 'reset':
            obs = outcome(reg.reset, lambda r: 0)
        op['obs'] = obs
        # Listings handed out belong to the user
        for got in held:
            del got[:]
        held = [r.list() for r in regs]
        op['seen'] = [{'list': [[codes(a), codes(b)] for a, b in r.list()],
                       'nicks': [[x, back(r.nick2id(arg(x)))] for x in nicks],
                       'ids': [[x, back(r.id2nick(arg(x)))] for x in ids],
                       'either': [[x, back(r.nick_or_id(thing({'id': x, 'how': op.get('how', 'text')})))] for x in ids]} for r in regs]
        ops.append(op)
    return {'cfg': {'registries': n}, 'ops': ops}


def generate(prop, rng, tier):
    pool_ids = sorted(BY_ID) + ['anything', '', 'f(', 'not an id', u'\xf1and\xfa', 'n2', 'None']
    pool_nicks = ['n1', 'n2', 'the nick', '', 'f()', 'None', u'\xf1', 'N1', 'f(a=1)', 'n3']
    for _ in range(300 * (10 if tier == 'thorough' else 1)):
        n = rng.choice([1, 1, 2, 3])
        ids = [codes(x) for x in rng.sample(pool_ids, rng.randint(2, 6))]
        nicks = [codes(x) for x in rng.sample(pool_nicks, rng.randint(2, 6))]
        ops = []
        for _ in range(rng.randint(3, 30)):
            k = rng.random()
            op = {'op': 'register' if k < 0.6 else 'remove' if k < 0.97 else 'reset', 'r': rng.randint(1, n),
                  'nick': rng.choice(nicks) if rng.random() < 0.85 else NOTHING,
                  'id': rng.choice(ids) if rng.random() < 0.8 else NOTHING,
                  'how': rng.choice(['text', 'what', 'whatable', 'nonid']), 'how2': rng.choice(['kw', 'pos'])}
            if op['op'] == 'remove' and rng.random() < 0.6:
                op[rng.choice(['nick', 'id'])] = NOTHING
            ops.append(op)
        yield {'registries': n, 'ops': ops}
