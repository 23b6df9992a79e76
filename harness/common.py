"""Shared by all the harnesses: the projection of Python values to the values of the
specification (enc) and back (dec), and the recording of outcomes.

Nothing here decides anything: it executes operations of the specification against the
real code and writes down what came out.  Runs under the interpreter of the repository.
"""
from __future__ import print_function

import functools
import importlib
import keyword
import math
import random
import re
import signal
import sys
from collections import OrderedDict
from fractions import Fraction

import whatami
from whatami import What


# --- Texts

def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return ''.join(map(chr, cs))


# --- Values -> specification

NONE = {'t': 'none'}


def exact(v):
    """The exact value of a number, as a text."""
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        return codes(repr(v))
    f = Fraction(v)
    return codes(str(f))  # "n" or "n/d"


def enc_str(s):
    return {'t': 'str', 's': codes(s)}


def class_text(cls):
    module = cls.__module__
    return cls.__qualname__ if module == 'builtins' else module + '.' + cls.__qualname__


class Unencodable(Exception):
    pass


def key_codes(k):
    if not isinstance(k, str):
        raise Unencodable('parameter name %r' % (k,))
    return codes(k)


def enc(v):
    t = type(v)
    if v is None:
        return {'t': 'none'}
    if t is bool:
        return {'t': 'bool', 'b': v, 'q': codes('1' if v else '0')}
    if t is int:
        return {'t': 'int', 's': codes(str(v)), 'q': codes(str(v))}
    if t is float:
        return {'t': 'float', 's': codes(repr(v)), 'q': exact(v)}
    if t is complex:
        return {'t': 'cplx', 's': codes(repr(v))}
    if t is str:
        return {'t': 'str', 's': codes(v)}
    if t is list:
        return {'t': 'list', 'e': [enc(x) for x in v]}
    if t is tuple:
        return {'t': 'tuple', 'e': [enc(x) for x in v]}
    if t is set:
        return {'t': 'set', 'e': [enc(x) for x in v]}
    if t is frozenset:
        return {'t': 'fset', 'e': [enc(x) for x in v]}
    if t is dict:
        return {'t': 'dict', 'm': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, OrderedDict):
        return {'t': 'odict', 'n': codes(t.__name__), 'm': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, What):
        return enc_what(v)
    if isinstance(v, type):
        return {'t': 'class', 's': codes(class_text(v))}
    for base in (list, tuple, set, frozenset, dict):
        if isinstance(v, base):
            return {'t': 'sub', 'n': codes(t.__name__), 'v': enc(base(v))}
    if isinstance(v, WhatableProbe):
        return {'t': 'whatable', 'w': enc_what(v.w)}
    if id(v) in MADE and MADE[id(v)][0] is v:
        return {'t': 'whatable', 'w': enc_what(MADE[id(v)][1]), 'how': MADE[id(v)][2]}
    # numpy scalars that pandas hands out
    if hasattr(v, 'item') and hasattr(v, 'dtype') and getattr(v, 'shape', None) == ():
        return enc(v.item())
    return {'t': 'opaque', 's': codes(str(v))}


def enc_what(w):
    out = w.out_name
    return {'t': 'what',
            'n': key_codes(w.name),
            'o': {'t': 'none'} if out is None else enc_str(out) if isinstance(out, str) else enc(out),
            'c': [[key_codes(k), enc(x)] for k, x in w.conf.items()],
            'x': sorted(key_codes(k) for k in w.non_id_keys)}


class WhatableProbe(object):
    """A plain whatable: an object with a method what() returning a configuration."""
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


# --- Specification -> values

def decorated(f, w):
    ids = sorted(w.non_id_keys)
    k = len(w.name) % 3  # the same configuration always becomes the same
    return whatami.whatable(f, non_id_keys=ids if k == 0 else iter(ids) if k == 1 else frozenset(ids), modify_func_inplace=len(ids) > 1)


def as_function(w):
    """A function whose defaults are the configuration."""
    space = {'D%d' % i: x for i, x in enumerate(w.conf.values())}
    exec('def f(%s): pass' % ', '.join('%s=D%d' % (k, i) for i, k in enumerate(w.conf)), space)
    space['f'].__name__ = w.name
    return space['f']


def as_partial(w):
    space = {}
    exec('def f(%s): pass' % ', '.join(w.conf), space)
    space['f'].__name__ = w.name
    return functools.partial(space['f'], **w.conf)


def as_object(w):
    """An instance of a class made whatable, with the configuration as attributes."""
    c = whatami.whatable(type(w.name, (object,), {}), non_id_keys=w.non_id_keys)
    o = c()
    o.__dict__.update(w.conf)
    return o


WHATABLES = ('probe', 'object', 'wfunction', 'wpartial')
MADE = {}  # the things below, so that they can be told
DISGUISES = {'probe': lambda w: WhatableProbe(w), 'function': as_function, 'partial': as_partial,
             'wfunction': lambda w: decorated(as_function(w), w), 'wpartial': lambda w: decorated(as_partial(w), w),
             'object': as_object}


def can_disguise(v, how):
    if how == 'probe':
        return True
    names = [text(k) for k, _ in v['c']]
    name = text(v['n'])
    return (v['o']['t'] == 'none' and name.isidentifier() and not keyword.iskeyword(name) and
            all(k.isidentifier() and not keyword.iskeyword(k) and k[0] != '_' and k[-1] != '_' and k not in ('what', 'self') for k in names) and
            (how in WHATABLES or not v['x']))


@whatami.whatable
class Marked(object):
    """A whatable class is a value like any other class."""


@whatami.whatable
class MarkedList(list):
    def __init__(self, a=1):
        super(MarkedList, self).__init__()
        self.a = a


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyFrozenSet(frozenset):
    pass


class MyDict(dict):
    pass


class MyOrderedDict(OrderedDict):
    pass


SUBS = {c.__name__: c for c in (MyList, MyTuple, MySet, MyFrozenSet, MyDict)}
ODICTS = {c.__name__: c for c in (OrderedDict, MyOrderedDict)}


def resolve_class(name):
    """The object a class name stands for: independent of the parser under test."""
    module, _, attr = name.rpartition('.')
    return getattr(importlib.import_module(module or 'builtins'), attr)


def dec(v):
    t = v['t']
    if t == 'none':
        return None
    if t == 'bool':
        return v['b']
    if t == 'int':
        return int(text(v['s']))
    if t == 'float':
        return float(text(v['s']))
    if t == 'cplx':
        return complex(text(v['s']))
    if t == 'str':
        return text(v['s'])
    if t == 'list':
        return [dec(x) for x in v['e']]
    if t == 'tuple':
        return tuple([dec(x) for x in v['e']])
    if t in ('set', 'fset'):
        r = set()
        for x in v['e']:
            r.add(dec(x))
        return r if t == 'set' else frozenset([dec(x) for x in v['e']])
    if t == 'dict':
        return {dec(k): dec(x) for k, x in v['m']}
    if t == 'odict':
        return ODICTS[text(v['n'])]([(dec(k), dec(x)) for k, x in v['m']])
    if t == 'sub':
        return SUBS[text(v['n'])](dec(v['v']))
    if t == 'class':
        return resolve_class(text(v['s']))
    if t == 'what':
        conf = {}
        for k, x in v['c']:
            conf[text(k)] = dec(x)
        return What(text(v['n']), conf,
                    non_id_keys=[text(k) for k in v['x']] if v['x'] else None,
                    out_name=None if v['o']['t'] == 'none' else text(v['o']['s']))
    if t == 'whatable':
        how, w = v.get('how', 'probe'), dec(v['w'])
        if not can_disguise(v['w'], how):
            raise ValueError('%s cannot have such a configuration' % how)
        o = DISGUISES[how](w)
        if how != 'probe':
            MADE[id(o)] = (o, w, how)
        return o
    raise ValueError(t)


# --- The meaning of literals (floats, classes) within a text, for the specification

NUM = re.compile(r'-?[0-9]+(?:(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)?')
CLS = re.compile(r"<class[ \t\n\r]+'((?:\\[\s\S]|[^'\\])*)'")


def env_of(s, old=False):
    fl = {}
    for i in range(len(s)):
        m = NUM.match(s, i)
        if m:
            lit = m.group(0)
            if lit not in fl:
                try:
                    int(lit)
                except ValueError:
                    fl[lit] = float(lit)
    for lit in ('inf', '-inf', 'nan'):
        if lit in s:
            fl[lit] = float(lit)
    cl = {}
    for m in CLS.finditer(s):
        name = m.group(1).replace("\\'", "'")
        try:
            cl[name] = enc(resolve_class(name))
        except Exception:
            pass
    return {'old': old,
            'fl': [[codes(k), enc(v)] for k, v in sorted(fl.items())],
            'cl': [[codes(k), v] for k, v in sorted(cl.items())]}


def env_of_all(texts, old=False):
    envs = [env_of(s, old) for s in texts]
    fl, cl = [], []
    for e in envs:
        fl += [x for x in e['fl'] if x not in fl]
        cl += [x for x in e['cl'] if x not in cl]
    return {'old': old, 'fl': fl, 'cl': cl}


# --- Outcomes

class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def _reraise():
    e = sys.exc_info()[1]
    if isinstance(e, (Timeout, KeyboardInterrupt)):
        raise e


OP_SECONDS = 10


def outcome(f, project=lambda x: x):
    """Calls f and records what came out, whatever it is."""
    try:
        r = f()
    except Timeout:
        raise
    except RecursionError:
        return {'ok': False, 'err': 'RecursionError'}
    except BaseException as e:
        return {'ok': False, 'err': type(e).__name__}
    try:
        return {'ok': True, 'v': project(r)}
    except Timeout:
        raise
    except BaseException as e:
        return {'ok': False, 'err': 'cannot project %s: %s' % (type(r).__name__, type(e).__name__)}


def as_text(r):
    if not isinstance(r, str):
        raise Unencodable(type(r).__name__)
    return codes(r)


def as_bool(r):
    if not isinstance(r, bool):
        raise Unencodable(type(r).__name__)
    return r


def as_what(r):
    if not isinstance(r, What):
        raise Unencodable(type(r).__name__)
    return enc_what(r)


def with_timeout(f, seconds=OP_SECONDS):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
