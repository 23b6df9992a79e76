"""Copies and updates of configurations: executes the operations of spec/Heap.tla."""
from __future__ import print_function

from whatami import What
from whatami.whatutils import whatadd
from common import enc, dec, codes, text, outcome, enc_what, Unencodable


def poke(v):
    """Changes a mutable value, in place."""
    if isinstance(v, list):
        v.append(9)
    elif isinstance(v, dict):
        v[len(v)] = 9
    elif isinstance(v, What):
        v.set('poked', 9)


def walk(v, path):
    """The value at the end of a path, or nothing."""
    for step in path:
        if isinstance(v, What):
            if text(step) not in v.conf:
                return None
            v = v.conf[text(step)]
        elif isinstance(v, (list, tuple, dict)):
            if len(step) != 1 or not 0 < step[0] <= len(v):
                return None
            v = (list(v.values()) if isinstance(v, dict) else v)[step[0] - 1]
        else:
            return None
    return v


def texts(r):
    if not isinstance(r, (list, tuple)):
        raise Unencodable(type(r).__name__)
    return [codes(x) for x in r]


def execute(prop, case):
    hands = []
    ops = []

    def hold(w):
        if not isinstance(w, What):
            raise Unencodable(type(w).__name__)
        hands.append(w)
        return 0
    for op in case['ops']:
        op = dict(op)
        k = op['op']
        w = None if k == 'new' else hands[op['h'] - 1]
        if k == 'new':
            v = dec(op['v'])
            obs = outcome(lambda: v, hold)
        elif k == 'copy':
            obs = outcome(lambda: w.copy(deep=op['deep']) if op['deep'] or op.get('explicit') else w.copy(), hold)
        elif k == 'set':
            v = dec(op['v'])
            obs = outcome(lambda: w.set(text(op['k']), v, copy=op['copy']) if op['copy'] or op.get('explicit') else w.set(text(op['k']), v), hold)
        elif k == 'poke':
            obs = outcome(lambda: poke(walk(w, op['p'])), lambda r: 0)
        elif k == 'hide':
            obs = outcome(lambda: w.non_id_keys.add(text(op['k'])), lambda r: 0)
        elif k == 'whatadd':
            vs = [dec(v) for v in op['vs']]
            arg = tuple(vs) if op.get('vals') == 'tuple' else iter(vs) if op.get('vals') == 'iter' else vs
            obs = outcome(lambda: whatadd(w, text(op['k']), arg), texts)
        op['obs'] = obs
        op['hands'] = [{'v': enc_what(h), 'id': codes(h.id()), 'full': codes(h.id(nonids_too=True)),
                        'is': [g is h for g in hands].index(True) + 1, 'eq': bool(h == hands[-1])} for h in hands]
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


KEYS = [codes(k) for k in ('a', 'b', 'c', 'd', 'poked')]


def value(rng, depth=0):
    k = rng.random()
    if depth > 3 or k < 0.35:
        return enc(rng.choice([None, True, 1, 0, 1.0, 2.5, 'x', "it's", '', -3]))
    if k < 0.55:
        return {'t': rng.choice(['list', 'list', 'tuple']), 'e': [value(rng, depth + 1) for _ in range(rng.randint(0, 3))]}
    if k < 0.75:
        return {'t': 'dict', 'm': [[enc('k%d' % i), value(rng, depth + 1)] for i in range(rng.randint(0, 3))]}
    return what(rng, depth + 1)


def what(rng, depth=0):
    ks = rng.sample(KEYS[:4], rng.randint(0, 3))
    return {'t': 'what', 'n': codes(rng.choice(['f', 'g'])), 'o': enc(rng.choice([None, None, 'o'])),
            'c': [[k, value(rng, depth)] for k in ks], 'x': sorted(rng.sample(KEYS, rng.choice([0, 0, 1, 2])))}


def paths(v):
    """All the paths in a value, while it has not changed."""
    res = []
    kids = []
    if v['t'] == 'what':
        kids = v['c']
    elif v['t'] in ('list', 'tuple'):
        kids = [[[i + 1], x] for i, x in enumerate(v['e'])]
    elif v['t'] == 'dict':
        kids = [[[i + 1], x[1]] for i, x in enumerate(v['m'])]
    for k, x in kids:
        if x['t'] in ('list', 'dict', 'what'):
            res.append([k])
        res += [[k] + p for p in paths(x)]
    return res


def generate(prop, rng, tier):
    for _ in range(400 * (10 if tier == 'thorough' else 1)):
        ops = []
        n = 0
        ps = [[k] for k in KEYS]
        for _ in range(rng.randint(3, 12)):
            k = rng.random()
            h = rng.randint(1, max(n, 1))
            if n == 0 or k < 0.08:
                w = what(rng)
                ps += paths(w) * 3
                ops.append({'op': 'new', 'v': w})
                n += 1
            elif k < 0.32:
                ops.append({'op': 'copy', 'h': h, 'deep': rng.random() < 0.5, 'explicit': rng.random() < 0.5})
                n += 1
            elif k < 0.52:
                v = value(rng)
                key = rng.choice(KEYS)
                ps += [[key]] * (v['t'] in ('list', 'dict', 'what')) + [[key] + p for p in paths(v)]
                ops.append({'op': 'set', 'h': h, 'k': key, 'v': v, 'copy': rng.random() < 0.6, 'explicit': rng.random() < 0.5})
                n += 1
            elif k < 0.8:
                ops.append({'op': 'poke', 'h': h, 'p': rng.choice(ps)})
            elif k < 0.88:
                ops.append({'op': 'hide', 'h': h, 'k': rng.choice(KEYS)})
            else:
                ops.append({'op': 'whatadd', 'h': h, 'k': rng.choice(KEYS + [codes('new')] * 6), 'vs': [value(rng, 2) for _ in range(rng.randint(0, 4))],
                            'vals': rng.choice(['list', 'tuple', 'iter'])})
        yield {'ops': ops}
