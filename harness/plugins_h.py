"""The chain of plugins: executes the operations of spec/Plugins.tla."""
from __future__ import print_function
import array
import datetime
import decimal
import enum
import fractions
import json
import math
import pathlib
import re
import types
import uuid

from whatami import plugins as P
from whatami import What
from whatami.plugins import WhatamiPluginManager as M
from common import enc, dec, codes, text, outcome, as_text, enc_str, WhatableProbe


def answering(handles, answer):
    """Plugins with the same name and the same code."""
    def plugin(v):
        return answer if handles(v) else None
    return plugin


def c5(v):
    return 'c5' if type(v) is list else None


CUSTOM = {'c1': answering(lambda v: type(v) is int, 'c1'),
          'c2': answering(lambda v: type(v) in (int, str), 'c2'),
          'c3': lambda v: None,
          'c4': lambda v: '' if type(v) is str else None,
          'c5': c5,
          'c6': answering(lambda v: True, 'c6'),
          'deep': lambda v: P.anyobject0x_plugin(v, deep=True)}


class Thing(object):
    """With members, and no text of its own."""
    def __init__(self, **members):
        self.__dict__.update(members)

    @property
    def size(self):
        return len(self.__dict__)


class Slotted(object):
    __slots__ = ('a', '_b')

    def __init__(self, a):
        self.a = a


OBJECTS = {'Thing': Thing, 'Slotted': Slotted}


class Told(object):
    """With a text of its own, that is like that of objects without one."""
    def __str__(self):
        return '<told at 0x7>'


class Color(enum.Enum):
    RED = 1


# Things that no plugin knows about
OTHERS = [b'x', b" at 0x1", bytearray(b'b'), decimal.Decimal('1.50'), fractions.Fraction(1, 3), datetime.date(2020, 1, 2), datetime.timedelta(1),
          range(3), Ellipsis, NotImplemented, slice(1, 2), 1j, complex(0, -1), Color.RED, Color, re.compile('a b'), ValueError('v'), array.array('i', [1]),
          pathlib.PurePosixPath('/a b'), uuid.UUID(int=5), type(None), ValueError, Told(), object(), types.SimpleNamespace(a=1), math]


def members(v):
    d = {k: getattr(v, k) for k in ('a', '_b') if hasattr(v, k)} if isinstance(v, Slotted) else dict(v.__dict__, size=v.size)
    return sorted(d.items())


def enc_(v):
    for k, other in enumerate(OTHERS):
        if other is v:
            return {'t': 'obj', 'n': codes(type(v).__name__), 'c': [], 'k': k + 1}
    if isinstance(v, tuple(OBJECTS.values())):
        return {'t': 'obj', 'n': codes(type(v).__name__), 'c': [[codes(k), enc_(x)] for k, x in members(v)]}
    if type(v) in (list, tuple):
        return dict(enc(type(v)()), e=[enc_(x) for x in v])
    if type(v) is dict:
        return {'t': 'dict', 'm': [[enc_(k), enc_(x)] for k, x in v.items()]}
    if isinstance(v, What):
        return dict(enc(What(v.name, {})), c=[[codes(k), enc_(x)] for k, x in v.conf.items()])
    return enc(v)


def dec_(e):
    t = e['t']
    if 'k' in e:
        return OTHERS[e['k'] - 1]
    if t == 'obj':
        if text(e['n']) == 'Slotted':
            return Slotted(dec_(e['c'][-1][1]))
        return Thing(**{text(k): dec_(x) for k, x in e['c'] if text(k) != 'size'})
    if t in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[t](dec_(x) for x in e['e'])
    if t == 'dict':
        return {dec_(k): dec_(x) for k, x in e['m']}
    if t == 'what' and e['o']['t'] == 'none':
        return What(text(e['n']), {text(k): dec_(x) for k, x in e['c']})
    return dec(e)


def names(chain):
    return [next((n for n, c in CUSTOM.items() if c is p), None) or p.__name__ for p in chain]


# The chain of a fresh process
DEFAULT = M.plugins()


def plugin(name):
    if name in CUSTOM:
        return CUSTOM[name]
    for p in DEFAULT:
        if p.__name__ == name:
            return p
    return getattr(P, name, None) or _nosuch


def _nosuch(v):
    raise AssertionError('this plugin is never inserted')


def pys(v, enc_v):
    """Adds what str gives for each value."""
    e = dict(enc_v, py=codes(str(v))) if not isinstance(v, (What, WhatableProbe)) else dict(enc_v)
    t = e['t']
    if t in ('list', 'tuple', 'set'):
        e['e'] = [pys(x, y) for x, y in zip(v, e['e'])]
    elif t == 'dict':
        e['m'] = [[pys(k, ke), pys(x, xe)] for (k, x), (ke, xe) in zip(v.items(), e['m'])]
    elif t == 'obj' and 'k' not in e:
        e['c'] = [[k, pys(x, xe)] for (_, x), (k, xe) in zip(members(v), e['c'])]
    elif t == 'what':
        e['c'] = [[k, pys(x, xe)] for x, (k, xe) in zip(v.conf.values(), e['c'])]
    elif t == 'whatable':
        e['w'] = pys(v.w, e['w'])
    return e


def execute(prop, case):
    taken = []
    ops = []
    M.reset()
    for op in [{'op': 'reset'}] + case['ops']:
        op = dict(op)
        k = op['op']
        if k == 'insert':
            p = plugin(op['p'])
            if op['before'] == 'default':
                obs = outcome(lambda: M.insert(p), lambda r: 0)
            else:
                b = None if op['before'] == 'last' else plugin(op['before'])
                obs = outcome(lambda: M.insert(p, before=b), lambda r: 0)
        elif k == 'drop':
            p = plugin(op['p'])
            obs = outcome(lambda: M.drop(p), lambda r: 0)
        elif k == 'reset':
            obs = outcome(M.reset, lambda r: 0)
        elif k == 'take':
            obs = outcome(lambda: taken.append(M.plugins()), lambda r: 0)
        elif k == 'render':
            v = dec_(op['v'])
            op['v'] = pys(v, op['v'])
            if op['how'] == 'id':  # at the depth of a parameter
                op['v'] = {'t': 'what', 'n': codes('f'), 'o': {'t': 'none'}, 'c': [[codes('p'), op['v']]], 'x': []}
                obs = outcome(lambda: M.build_string(What('f', {'p': v})), as_text)
            else:
                obs = outcome(lambda: M.build_string(v), as_text)
        op['obs'] = obs
        op['chain'] = names(M.plugins())
        op['taken'] = [names(t) for t in taken]
        ops.append(op)
    M.reset()
    return {'cfg': {'default': names(DEFAULT)}, 'ops': ops}


def values():
    W = What('w', {'a': 1, 'b': 'x'})
    return [1, 'a', "it's", '', [1, 'a'], (1, 'b'), {'k': [1]}, {1: 'a', 'b': 2}, {1, 'a'}, W, [W, 2], {'k': W}, ((1,), ['z', [3]]),
            What('v', {'w': W, 'l': [1, W]}), WhatableProbe(What('u', {'p': 5})), [WhatableProbe(W)], [], (), set(), {}, None, 1.5, True,
            Thing(), Thing(a=1, _p='x', z_=[2]), Slotted(3), [Thing(b=Slotted('y')), 1], Thing(t=Thing(a=(1, Thing(c=W)))), What('v', {'t': Thing(a=2), 'u': 1}),
            'it is at 0x1', ['f at 0x2', 2], {'k': Thing(w=What('u', {}), d={1: 'a at 0x3'})}, Slotted(' at 0x'),
            [OTHERS[0], OTHERS[-4]], {'k': OTHERS[3]}, What('v', {'a': OTHERS[5]})] + OTHERS


def generate(prop, rng, tier):
    vals = [enc_(v) for v in values()]
    anchors = ['default'] * 4 + ['last', 'last', 'c1', 'c2', 'c3', 'string_plugin', 'what_plugin', 'list_plugin', 'anyobject_plugin',
                                 'anyobject0x_plugin', 'nosuch', 'c6', 'whatable_plugin']
    for _ in range(250 * (10 if tier == 'thorough' else 1)):
        ops = []
        for _ in range(rng.randint(3, 25)):
            k = rng.random()
            if k < 0.35:
                ops.append({'op': 'insert', 'p': rng.choice(['c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'deep', 'string_plugin', 'list_plugin']),
                            'before': rng.choice(anchors)})
            elif k < 0.5:
                ops.append({'op': 'drop', 'p': rng.choice(['c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'deep', 'string_plugin', 'list_plugin', 'dict_plugin',
                                                           'tuple_plugin', 'set_plugin', 'anyobject0x_plugin', 'numpy_plugin', 'nosuch'])})
            elif k < 0.53:
                ops.append({'op': 'reset'})
            elif k < 0.63:
                ops.append({'op': 'take'})
            else:
                ops.append({'op': 'render', 'v': rng.choice(vals), 'how': rng.choice(['id', 'plain'])})
        yield {'ops': ops}
