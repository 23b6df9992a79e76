"""Arrays, frames and generators: executes the operations of spec/Arrays.tla."""
from __future__ import print_function
import copy
import json
import pickle
import shutil
import struct
import tempfile
import zlib
from collections import OrderedDict
from decimal import Decimal
from functools import partial

import numpy as np
import pandas as pd

from whatami import What, whatable
from common import codes, text, outcome, as_text, MySet, MyFrozenSet


class MyArray(np.ndarray):
    pass


class MyFrame(pd.DataFrame):
    @property
    def _constructor(self):
        return MyFrame


class MyRandomState(np.random.RandomState):
    pass


class MyGenerator(np.random.Generator):
    pass


CLASSES = {c.__name__: c for c in (np.ndarray, MyArray, np.matrix, np.memmap, np.ma.MaskedArray)}
FRAMES = {c.__name__: c for c in (pd.DataFrame, pd.Series, MyFrame)}

# Types by the size of their elements: within a family the same bytes mean something for all
FAMILIES = {'8': {'i8': '<i8', 'u8': '<u8', 'I8': '>i8', 'f8': '<f8', 'M8': '<M8[ns]', 'm8': '<m8[s]', 'c8': '<c8', 'S8': 'S8', 'U2': '<U2',
                  'ab': [('a', '<i4'), ('b', '<i4')], 'ba': [('b', '<i4'), ('a', '<i4')], 'sub': [('a', '<i4', (2,))], 'M8s': '<M8[s]'},
            '4': {'i4': '<i4', 'u4': '<u4', 'f4': '<f4', 'U1': '<U1'},
            '1': {'i1': 'i1', 'u1': 'u1', 'b1': '?', 'S1': 'S1'},
            'O': {'O': 'O'}}
FAMILY = {n: f for f, ns in FAMILIES.items() for n in ns}
DTYPES = {n: np.dtype(d) for f, ns in FAMILIES.items() for n, d in ns.items()}


# Things that arrays of objects can have: each pool, four that differ, each built anew, in an order told by w
def _order(w, *xs):
    return [xs[(i + w) % len(xs)] for i in range(len(xs))][::1 if w % 2 else -1]


def _set(w, *xs):
    r = set()
    for x in _order(w, *xs):
        r.add(x)
    return r


def _fsets(w, *xs):
    return _order(w, *[frozenset(_order(w, *x)) for x in xs])


def _dict(w, *kvs):
    return dict(_order(w, *kvs))


def _with(o, **attributes):
    o.__dict__.update(attributes)
    return o


class Num(object):
    def __init__(self, n):
        self.n = n

    def up(self):
        return self.n + 1

    def down(self):
        return self.n - 1

    def __repr__(self):
        return '%s(%d)' % (type(self).__name__, self.n)


class Num2(Num):
    pass


class MyODict(OrderedDict):
    pass


POOLS = {
    'attrs': lambda w: (_with(MySet(_order(w, 1, 9, 17)), a=1), _with(MySet(_order(w, 1, 9, 17)), a=2), MyFrozenSet(_order(w, 1, 9, 17)),
                        _with(MyFrozenSet(_order(w, 1, 9, 17)), b=[1])),
    'odicts': lambda w: (_with(MyODict([('a', 1), ('b', 2)]), a=1), _with(MyODict([('a', 1), ('b', 2)]), a=2), OrderedDict([('a', 1), ('b', 2)]),
                         MyODict([('b', 2), ('a', 1)])),
    'bound': lambda w: (Num(1).up, Num(2).up, Num(1).down, Num2(1).up),
    'text': lambda w: (''.join(['ob', 'ject']), 7, '-'.join(['other', 'x']), ''.join(map(str, range(200)))),
    'sets': lambda w: (frozenset(_order(w, 1, 9, 17)), _set(w, 1, 9, 17), frozenset(_order(w, 1, 9, 25)), frozenset(_order(w, 'a', 'b', 'zz'))),
    'ofsets': lambda w: (set(_fsets(w, [1], [2], [3, 4])), frozenset(_fsets(w, [1], [2], [3, 4])), set(_fsets(w, [1], [2, 3], [4])),
                         set(_fsets(w, [], [2], [3]))),
    'tuples': lambda w: ((1, int('2')), ((1, int('2')), (1, int('2'))), (1, 2, (3, 4, 5, int('6'))), (int('1'),)),
    'dicts': lambda w: (_dict(w, ('a', 1), ('b', 2)), OrderedDict([('a', 1), ('b', 2)]), OrderedDict([('b', 2), ('a', 1)]), _dict(w, ('a', 2), ('b', 1))),
    'keys': lambda w: (_dict(w, (frozenset([1]), 1), (frozenset([2]), 2), (frozenset([3]), 3)), _dict(w, (frozenset([1]), 1), (frozenset([2]), 3), (frozenset([3]), 2)),
                       _dict(w, (1, 'x'), ('a', 'y')), _dict(w, (1, 'y'), ('a', 'x'))),
    'mixed': lambda w: (_set(w, 1, 'a', None), _set(w, 2, 'a', None), _set(w, True, 'a', None), _set(w, 1.0, 'a', None)),
    'values': lambda w: (_dict(w, (1, None), ('a', {})), _dict(w, (1, {}), ('a', None)), _dict(w, (1, None), (2, {})), _dict(w, (True, None), (2, {}))),
    'numbers': lambda w: (int('1'), True, float('1'), np.int64(1)),
    'sameish': lambda w: (0.0, -0.0, 0, False),
    'inner': lambda w: (np.arange(3), np.arange(3.), [0, 1, 2], np.array([0, 1, 2], dtype='O')),
    'strings': lambda w: (b'ab', ''.join('ab'), 'b' + 'a', None),
    'functions': lambda w: (len, max, int, np.ndarray),
    'methods': lambda w: ('a'.join, ''.join('bc').join, 'a'.split, [1].append),
    'subs': lambda w: (MySet(_order(w, 1, 9, 17)), MyFrozenSet(_order(w, 1, 9, 17)), MyFrozenSet(_order(w, 1, 9, 25)), MySet(_order(w, 'x', 'y', 'z'))),
    'decimals': lambda w: (Decimal('1.0'), Decimal('1.00'), _set(w, Decimal(1), Decimal('nan'), Decimal(2)), _set(w, Decimal(1), Decimal('nan'), Decimal(3))),
    'nans': lambda w: (_set(w, NAN, 1.0, 2.0), _set(w, NAN, 1.0, 3.0), NAN, frozenset(_order(w, 3.0, NAN, 2.0, 0.5))),
    'lists': lambda w: ([1, [2]], [1, [2, 2]], [[1], 2], []),
}
NAN = float('nan')
POOL = ['text', 0]
MUTABLES = ('sets', 'ofsets', 'dicts', 'keys', 'mixed', 'values', 'inner', 'subs', 'decimals', 'nans', 'lists', 'methods', 'attrs', 'odicts', 'bound')


def thing(e, w):
    return POOLS[POOL[0]](w)[e]


def face(x):
    """What an object looks like, whatever the order it was built in."""
    n = type(x).__name__
    if isinstance(x, (MySet, MyFrozenSet, MyODict)):
        n = n, sorted(map(repr, x.__dict__.items()))
    if isinstance(x, (set, frozenset)):
        return n, sorted(map(repr, map(face, x)))
    if isinstance(x, OrderedDict) or isinstance(x, (list, tuple)):
        return n, [face(y) for y in (x.items() if isinstance(x, dict) else x)]
    if isinstance(x, dict):
        return n, sorted(repr(face(y)) for y in x.items())
    if hasattr(x, '__self__'):
        return n, x.__name__, repr(x.__self__)
    return n, repr(x)


def element(family, e):
    if family == '8':
        return struct.pack('<II', 65 + e, 66)
    if family == '4':
        return struct.pack('<I', 65 + e)
    if family == '1':
        return bytes([e])
    POOL[1] += 1
    return thing(e, POOL[1])


def dtname(dtype):
    for n, d in DTYPES.items():
        if dtype == d and str(dtype.descr) == str(d.descr):
            return n
    raise ValueError(dtype)


def elements(a, big=1):
    """The elements of the array, as numbers, the last dimension running fastest.

    big: that many times each, in a dimension of their own, the last one."""
    n = dtname(a.dtype)
    if isinstance(a, np.ma.MaskedArray):
        mask = np.array(np.ma.getmaskarray(a)).ravel('C').tolist()
        return [e + 10 * m for e, m in zip(elements(a.data), mask)]
    if n == 'O':
        known = [face(thing(e, 0)) for e in range(4)]
        raw = np.asarray(a).ravel('C')
        return [known.index(face(raw[i])) for i in range(len(raw))]
    size = a.dtype.itemsize * big
    raw = np.asarray(a).tobytes('C')
    known = [element(FAMILY[n], e) * big for e in range(4)]
    return [known.index(raw[i:i + size]) for i in range(0, len(raw), size)]


def array(op, scratch, big=1):
    cls, dt, shape, order = text(op['cls']), text(op['dt']), tuple(op['shape']), op['order']
    es, masks = [e % 10 for e in op['e']], [e >= 10 for e in op['e']]
    family, dtype, how = FAMILY[dt], DTYPES[dt], op.get('how') or op['alt']
    if big > 1:
        shape += (big,)
        es = [e for e in es for _ in range(big)]
    if dt == 'O':
        flat = np.empty(len(es), dtype='O')
        shared = [element('O', e) for e in range(4)]  # a change to one of these would be a change to all
        keep = how in HOWS[:4] and POOL[0] not in MUTABLES
        for i, e in enumerate(es):
            flat[i] = shared[e] if keep else element('O', e)
        a = np.array(flat.reshape(shape), order=order)
    else:
        flat = np.frombuffer(bytearray(b''.join(element(family, e) for e in es)), dtype) if es else np.empty(0, dtype)
        c = flat.reshape(shape)
        raw = bytearray(c.tobytes(order))
        if (how == 'memmap' or cls == 'memmap') and es:
            f = tempfile.NamedTemporaryFile(dir=scratch, delete=False)
            f.write(raw)
            f.close()
            a = np.memmap(f.name, dtype=dtype, mode='r+' if cls == 'memmap' else 'c', shape=shape, order=order)
        elif how == 'buffer' and es:
            a = np.frombuffer(raw, dtype).reshape(shape, order=order)
        elif how == 'readonly' and es:
            a = np.frombuffer(bytes(raw), dtype).reshape(shape, order=order)
        elif how == 'unaligned' and es:
            a = np.frombuffer(bytearray(b'x') + raw, dtype, offset=1).reshape(shape, order=order)
        elif how == 'pickle' and dt != 'I8':  # comes back in the order of the machine
            a = pickle.loads(pickle.dumps(np.array(c, order=order)))
        elif how == 'stack' and order == 'C' and shape and es:
            a = np.stack([c[i] for i in range(shape[0])]).astype(dtype)
        elif how == 'view' and es and shape:
            wide = np.zeros(tuple(n + 1 for n in shape), dtype, order)
            wide[tuple(slice(0, n) for n in shape)] = c
            a = np.array(wide[tuple(slice(0, n) for n in shape)], order=order)
        else:
            a = np.empty(shape, dtype, order)
            a[...] = c
    if cls == 'MaskedArray':
        a = a.view(np.ndarray)
        if how == 'nomask' and not any(masks):
            return np.ma.MaskedArray(a)
        return np.ma.MaskedArray(a, mask=np.array(np.array(masks, dtype=bool).reshape(shape), order='CF'[len(es) % 2]))
    if cls != 'memmap' and how == 'memmap' or type(a).__name__ != cls:
        a = a.view(CLASSES[cls])
    return a


def cut(a, cuts):
    if any(step == 0 and n > 1 for _, n, step in cuts):
        base = cut(a, [(s, 1 if step == 0 and n > 1 else n, step or 1) for s, n, step in cuts])
        return np.broadcast_to(base, tuple(n for _, n, _ in cuts), subok=True)
    slices = []
    for start, n, step in cuts:
        step = step or 1
        stop = start + n * step
        slices.append(slice(start, start if not n else stop if stop >= 0 else None, step))
    return a[tuple(slices)]


# --- Frames

LABELS = {'str': lambda n: 'l%d' % n, 'int': lambda n: n, 'float': lambda n: n + 0.5,
          'ts': lambda n: pd.Timestamp(2020, 1, 1 + n), 'tuple': lambda n: ('t', n)}
VALUES = {'i8': (lambda e: e, 'int64'), 'i4': (lambda e: e, 'int32'), 'f8': (lambda e: float(e), 'float64'), 'f4': (lambda e: float(e), 'float32'),
          'O': (lambda e: 'v%d' % e, 'object'), 'M8': (lambda e: pd.Timestamp(2000, 1, 1 + e), 'datetime64[ns]'),
          'cat': (lambda e: 'abcd'[e], pd.CategoricalDtype(list('abcd')))}
EMPTY = {'none': 0}


def name(n):
    return 'n%d' % n if n else None


def index(kind, labels, nm):
    values = [LABELS[kind](n) for n in labels]
    if kind == 'tuple':
        return pd.MultiIndex.from_tuples(values, names=[name(nm), None])
    return pd.Index(values, name=name(nm))


def column(col, idx):
    f, dtype = VALUES[text(col['dt'])]
    return pd.Series([f(e) for e in col['e']], index=idx, dtype=dtype)


def frame(f, how):
    idx = index(f['ik'], f['index'], f['iname'])
    cls = FRAMES[text(f['cls'])]
    if cls is pd.Series:
        s = column(f['cols'][0], idx)
        s.name = LABELS[f['ck']](f['cols'][0]['label'])
        return s
    cols = [column(c, idx) for c in f['cols']]
    if how == 'concat':
        df = cls(pd.concat(cols, axis=1))
    else:
        df = cls({i: c for i, c in enumerate(cols)})
    df.columns = index(f['ck'], [c['label'] for c in f['cols']], f['cname'])
    return df


def unlabel(idx):
    for kind in ('str', 'int', 'float', 'ts', 'tuple'):
        known = [LABELS[kind](n) for n in range(8)]
        got = [x for x in idx]
        if all(type(x) in (type(known[0]), np.int64, np.float64) and x in known for x in got):
            return kind, [known.index(x) for x in got]
    raise ValueError(idx)


def unname(n):
    return int(n[1:]) if n is not None else 0


def uncolumn(s):
    for dt, (f, dtype) in VALUES.items():
        if s.dtype == dtype:
            known = [f(e) for e in range(4)]
            return codes(dt), [known.index(x) for x in s]
    raise ValueError(s.dtype)


def contents(x, big=1):
    if isinstance(x, np.ndarray) and big > 1:
        assert x.shape[-1] == big and x.strides[-1] == x.dtype.itemsize
        return {'e': elements(x, big), 'shape': list(x.shape[:-1]), 'strides': [s // x.dtype.itemsize // big for s in x.strides[:-1]],
                'dt': codes(dtname(x.dtype)), 'cls': codes(type(x).__name__)}
    if isinstance(x, np.ndarray):
        return {'e': elements(x), 'shape': list(x.shape), 'strides': [s // x.dtype.itemsize for s in x.strides], 'dt': codes(dtname(x.dtype)),
                'cls': codes(type(x).__name__)}
    if isinstance(x, (pd.DataFrame, pd.Series)):
        ik, ix = unlabel(x.index)
        if isinstance(x, pd.Series):
            ck, (label,) = unlabel([x.name])
            dt, e = uncolumn(x)
            cols, cname = [{'label': label, 'dt': dt, 'e': e}], 0
        else:
            ck, labels = unlabel(x.columns)
            cols = []
            for i, n in enumerate(labels):
                dt, e = uncolumn(x.iloc[:, i])
                cols.append({'label': n, 'dt': dt, 'e': e})
            cname = unname(x.columns.names[0])
        return {'cls': codes(type(x).__name__), 'ik': ik, 'index': ix, 'iname': unname(x.index.names[0]), 'ck': ck, 'cols': cols, 'cname': cname}
    return {'state': zlib.crc32(repr(x.__getstate__()).encode())}


@whatable
class Obj(object):
    def __init__(self, kids):
        for k, v in kids:
            setattr(self, k, v)


class Slotted(object):
    """Identified by an explicit configuration."""
    def __init__(self, kids):
        self.kids = kids

    def what(self):
        return What('Obj', dict(self.kids))


def as_partial(kids):
    space = {}
    exec('def Obj(%s): pass' % ', '.join(k for k, _ in kids), space)
    return partial(space['Obj'], **dict(kids))


def as_default(kids):
    space = {'D%d' % i: v for i, (_, v) in enumerate(kids)}
    exec('def Obj(%s): pass' % ', '.join('%s=D%d' % (k, i) for i, (k, _) in enumerate(kids)), space)
    return space['Obj']


def build(x, things):
    t = x['t']
    if t == 'leaf':
        return things[x['i'] - 1]
    if t == 'int':
        return x['n']
    kids = [(text(k['n']), build(k['x'], things)) for k in x['kids']]
    if t == 'list':
        return [v for _, v in kids]
    if t == 'tuple':
        return tuple(v for _, v in kids)
    if t == 'dict':
        return dict(kids)
    return {'obj': Obj, 'whatable': Slotted, 'partial': as_partial, 'default': as_default, 'what': lambda kids: What('Obj', dict(kids))}[t](kids)


def execute(prop, case):
    scratch = tempfile.mkdtemp(prefix='verif-hash-')
    try:
        return run(case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(case, scratch):
    things = []
    ops = []
    big = (case.get('cfg') or {}).get('big', 1)
    POOL[:] = [(case.get('cfg') or {}).get('pool', 'text'), 0]
    salt = zlib.crc32(json.dumps(case, sort_keys=True).encode())

    def do(op):
        k = op['op']
        a = things[op['a'] - 1] if 'a' in op else None
        how = op.get('how')
        if k == 'new':
            things.append(array(dict(op, alt=WRITEABLE[(salt + len(things)) % len(WRITEABLE)]), scratch, big))
        elif k == 'slice':
            things.append(cut(a, op['cuts'] + ([[0, big, 1]] if big > 1 else [])))
        elif k == 'transpose':
            perm = [p - 1 for p in op['perm']] + ([len(op['perm'])] if big > 1 else [])
            things.append(a.transpose(*perm) if perm else a.transpose())
        elif k == 'newaxis':
            things.append(a[tuple([slice(None)] * (op['at'] - 1) + [None])])
        elif k == 'ascls':
            things.append(a.view(CLASSES[text(op['cls'])]))
        elif k == 'asdt':
            things.append(a.view(DTYPES[text(op['dt'])]))
        elif k == 'copy':
            things.append(a.copy(order=op['order']))
        elif k == 'clone':
            things.append(copy.deepcopy(a) if how == 'deepcopy' else pickle.loads(pickle.dumps(a, protocol=2 + len(things) % 3)))
        elif k == 'put':
            n = dtname(a.dtype)
            e = element(FAMILY[n], op['v'])
            a[tuple(op['at'])] = e if n == 'O' else np.frombuffer(e, a.dtype).reshape(())
        elif k == 'rng':
            cls, seed = text(op['cls']), op['seed']
            if cls in ('RandomState', 'MyRandomState'):
                c = np.random.RandomState if cls == 'RandomState' else MyRandomState
                r = c(seed) if how != 'reseed' else c()
                if how == 'reseed':
                    r.random_sample(3)
                    r.seed(seed)
            else:
                r = (np.random.Generator if cls == 'Generator' else MyGenerator)(np.random.PCG64(seed))
            things.append(r)
        elif k == 'draw':
            if not isinstance(a, np.random.RandomState):
                a.random(op['n'])
            elif how == 'bytes' or op['n'] % 2:
                a.bytes(4 * op['n'])
            else:
                a.random_sample(op['n'] // 2)
        elif k == 'gauss':
            a.standard_normal()
        elif k == 'frame':
            things.append(frame(op['f'], how))
        elif k == 'fcopy':
            things.append(pickle.loads(pickle.dumps(a)) if how == 'pickle' else a.copy())
        elif k == 'fput':
            if isinstance(a, pd.Series):
                a.iloc[op['r'] - 1] = VALUES[uncolumn_name(a)][0](op['v'])
            else:
                a.iloc[op['r'] - 1, op['c'] - 1] = VALUES[uncolumn_name(a.iloc[:, op['c'] - 1])][0](op['v'])
        elif k == 'flabel':
            if op['c'] == 0:
                kind, labels = unlabel(a.index)
                labels[op['r'] - 1] = op['v']
                a.index = index(kind, labels, unname(a.index.names[0]))
            elif isinstance(a, pd.Series):
                a.name = LABELS[unlabel([a.name])[0]](op['v'])
            else:
                kind, labels = unlabel(a.columns)
                labels[op['c'] - 1] = op['v']
                a.columns = index(kind, labels, unname(a.columns.names[0]))
        elif k == 'fname':
            idx = a.index if op['c'] == 0 else a.columns
            idx.names = [name(op['v'])] + list(idx.names[1:])
        elif k == 'ftype':
            c = a.columns[op['c'] - 1]
            e = uncolumn(a.iloc[:, op['c'] - 1])[1]
            a[c] = column({'dt': op['v'], 'e': e}, a.index)
        elif k == 'ask':
            return What('v', {'x': build(op['x'], things)}).id()
        return ''

    for op in case['ops']:
        op = dict(op)
        if op['op'][0] == 'f':
            op['code'] = [zlib.crc32(json.dumps({k: v for k, v in op.items() if k != 'a'}, sort_keys=True).encode()) & 0x7fffffff]
        if op['op'] == 'ask':
            before = [contents(x, big) for x in things]
        op['obs'] = outcome(lambda: do(op), as_text)
        op['now'] = []
        if op['op'] == 'ask':
            for b, x in zip(before, things):
                c = contents(x, big)
                op['now'].append(dict(c, kept=b == c))
        ops.append(op)
    return {'cfg': {'big': big}, 'ops': ops}


def uncolumn_name(s):
    return text(uncolumn(s)[0])


# --- Generation

def leaf(i):
    return {'t': 'leaf', 'i': i}


def generate(prop, rng, tier):
    for i in range(700 * (15 if tier == 'thorough' else 1)):
        yield arrays(rng)
        if i % 4 == 0:
            yield arrays(rng, rng.choice([100, 600, 3000]))
        if i % 3 == 0:
            yield generators(rng)
            yield frames(rng)


def tree(rng, n, depth=0):
    """Something with the things 1..n in it."""
    k = rng.random()
    if k < 0.35 + 0.3 * depth:
        return leaf(rng.randint(1, n)) if rng.random() < 0.85 else {'t': 'int', 'n': rng.randint(0, 2)}
    t = rng.choice(['list', 'tuple', 'dict', 'what', 'obj', 'partial', 'default', 'whatable'])
    names = rng.sample(['a', 'b', 'c', 'x', 'B'], rng.randint(1, 3)) if t not in ('list', 'tuple') else [''] * rng.randint(1, 3)
    return {'t': t, 'kids': [{'n': codes(n_), 'x': tree(rng, n, depth + 1)} for n_ in names]}


def shuffled(rng, x):
    """The same tree, said in another way."""
    if x['t'] in ('leaf', 'int'):
        return x
    kids = [{'n': k['n'], 'x': shuffled(rng, k['x'])} for k in x['kids']]
    t = x['t']
    if t not in ('list', 'tuple'):
        rng.shuffle(kids)
        if t != 'dict':
            t = rng.choice(['what', 'obj', 'partial', 'default', 'whatable'])
    return {'t': t, 'kids': kids}


def renamed(x, i, j):
    if x['t'] == 'leaf':
        return leaf(j if x['i'] == i else x['i'])
    return dict(x, kids=[dict(k, x=renamed(k['x'], i, j)) for k in x['kids']]) if 'kids' in x else x


def asks(rng, ops, n):
    for i in range(1, n + 1):
        ops.append({'op': 'ask', 'x': leaf(i)})
    for _ in range(rng.choice([0, 1, 2])):
        x = tree(rng, n)
        ops.append({'op': 'ask', 'x': x})
        ops.append({'op': 'ask', 'x': shuffled(rng, x)})
        ops.append({'op': 'ask', 'x': renamed(x, rng.randint(1, n), rng.randint(1, n))})


WRITEABLE = ['empty', 'buffer', 'unaligned', 'pickle', 'stack', 'view']
HOWS = ['empty', 'buffer', 'readonly', 'unaligned', 'memmap', 'pickle', 'stack', 'view', 'nomask']


def arrays(rng, big=1):
    family = rng.choice(['8', '8', '8', '4', '1'] + ['O', 'O'] * (big == 1))
    clss = rng.choice([['ndarray'], ['ndarray', 'MyArray'], ['ndarray', 'matrix'], ['MaskedArray'], ['ndarray', 'MaskedArray', 'MyArray'],
                       ['memmap', 'ndarray'], ['matrix', 'MyArray']])
    objs = rng.choice(sorted(POOLS)) if family == 'O' else 'text'
    if big > 1:
        clss = rng.choice([['ndarray'], ['ndarray', 'MyArray'], ['memmap', 'ndarray']])
    dts = rng.sample(sorted(FAMILIES[family]), min(2, len(FAMILIES[family])))
    if any(n in dts for n in ('ab', 'ba', 'sub')) and ('MaskedArray' in clss or big > 1):
        dts = ['i8', 'f8']
    nd = 2 if 'matrix' in clss else rng.choice([0, 1, 1, 2, 2, 2, 3] if big == 1 else [1, 2, 2])
    shape0 = [rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3 else rng.choice([1, 2, 3]) for _ in range(nd)]
    top = 1 if family == '1' else 3
    ops, things = [], []

    def es(n, cls):
        return [rng.randint(0, top) + (10 if cls == 'MaskedArray' and rng.random() < 0.3 else 0) for _ in range(n)]

    def size(shape):
        n = 1
        for d in shape:
            n *= d
        return n
    pool = es(size(shape0), '')

    def new():
        cls = rng.choice(clss)
        shape = list(shape0)
        if rng.random() < 0.3:
            rng.shuffle(shape)
        if cls == 'memmap' and (not size(shape) or family == 'O' or not nd):
            cls = 'ndarray'
        e = list(pool) if rng.random() < 0.7 else es(size(shape), cls)
        if cls == 'MaskedArray' and family == 'O':
            cls = 'ndarray'
            e = [x % 10 for x in e]
        if cls == 'MaskedArray' and rng.random() < 0.3:
            e = [x % 10 + 10 * (rng.random() < 0.3) for x in e]
        how = rng.choice(HOWS) if cls != 'memmap' else 'memmap'
        order = rng.choice('CCF') if big == 1 else 'C'
        ops.append({'op': 'new', 'cls': codes(cls), 'dt': codes(rng.choice(dts)), 'shape': shape, 'order': order, 'e': e, 'how': how})
        things.append({'cls': cls, 'shape': shape, 'dt': text(ops[-1]['dt']), 'ro': how == 'readonly', 'plain': True})
    new()
    for _ in range(rng.randint(1, 7)):
        k = rng.random()
        i = rng.randrange(len(things))
        a = things[i]
        op = {'a': i + 1}
        b = dict(a)
        masked, mat, obj = a['cls'] == 'MaskedArray', a['cls'] == 'matrix', a['dt'] == 'O'
        nd_ = len(a['shape'])
        if a['cls'] == 'memmap' and 0.25 <= k < 0.88:  # what comes out of a memmap is not always one
            k = 0.65
        if k < 0.25:
            new()
            continue
        elif k < 0.42 and not obj and nd_:
            cuts = []
            for d in a['shape']:
                if not d or rng.random() < 0.15:
                    cuts.append([0, 0 if not d else rng.choice([0, 1]), 1])
                    continue
                start = rng.randrange(d)
                step = rng.choice([1, 1, 1, 2, -1, -1, 0 if not masked and not mat and a['cls'] != 'memmap' else 1])
                if rng.random() < 0.5:
                    start = 0 if step >= 0 else d - 1
                most = 3 if step == 0 else (d - 1 - start) // step + 1 if step > 0 else start // -step + 1
                cuts.append([start, rng.choice([most, rng.randint(1, most)]), step])
            op.update(op='slice', cuts=cuts)
            b['shape'] = [c[1] for c in cuts]
            if any(c[2] == 0 and c[1] > 1 for c in cuts):
                b['ro'] = True
        elif k < 0.57:
            perm = list(range(1, nd_ + 1))
            rng.shuffle(perm)
            op.update(op='transpose', perm=perm)
            b['shape'] = [a['shape'][p - 1] for p in perm]
        elif k < 0.64 and not mat and a['cls'] != 'memmap' and nd_ < 4 and not obj:
            at = rng.randint(1, nd_ + 1)
            op.update(op='newaxis', at=at)
            b['shape'] = a['shape'][:at - 1] + [1] + a['shape'][at - 1:]
        elif k < 0.7 and not masked:
            cls = rng.choice(['ndarray', 'MyArray'] + ['matrix'] * (nd_ == 2 and big == 1))
            op.update(op='ascls', cls=codes(cls))
            b['cls'] = cls
        elif k < 0.76 and not masked and not obj:
            dt = rng.choice(sorted(n for n in FAMILIES[family] if n != 'sub' and (big == 1 or n not in ('ab', 'ba'))))
            if a['dt'] == 'sub':
                continue
            op.update(op='asdt', dt=codes(dt))
            b['dt'] = dt
        elif k < 0.84:
            op.update(op='copy', order=rng.choice('CF') if big == 1 else 'C')
            b['ro'] = False
        elif k < 0.88 and big == 1 and a['dt'] != 'I8' and a['cls'] in ('ndarray', 'MyArray', 'MaskedArray'):
            op.update(op='clone', how='pickle')
            b['ro'] = False
        elif not masked and not a['ro'] and size(a['shape']):
            op.update(op='put', at=[rng.randrange(d) for d in a['shape']], v=rng.randint(0, top))
            if rng.random() < 0.4:
                asks(rng, ops, len(things))
            ops.append(op)
            continue
        else:
            continue
        ops.append(op)
        things.append(b)
        if not masked and not b['ro'] and size(b['shape']) and b['cls'] != 'memmap' and rng.random() < (0.1 if big == 1 else 0.6):
            ops.append({'op': 'ask', 'x': leaf(len(things))})
            ops.append({'op': 'put', 'a': len(things), 'at': [rng.choice([0, d - 1, d - 1]) for d in b['shape']], 'v': rng.randint(0, top)})
            ops.append({'op': 'ask', 'x': leaf(len(things))})
    asks(rng, ops, len(things))
    return {'cfg': {'big': big, 'pool': objs}, 'ops': ops}


def generators(rng):
    ops, things = [], []
    clss = rng.choice([['RandomState'], ['RandomState', 'MyRandomState'], ['Generator'], ['Generator', 'MyGenerator'], ['RandomState', 'Generator']])
    for _ in range(rng.randint(2, 9)):
        k = rng.random()
        if not things or k < 0.35:
            cls = rng.choice(clss)
            ops.append({'op': 'rng', 'cls': codes(cls), 'seed': rng.randint(0, 2), 'how': rng.choice(['plain', 'reseed'])})
            things.append({'cls': cls, 'done': False})
            continue
        i = rng.randrange(len(things))
        a = things[i]
        if k < 0.5 and not a['cls'].startswith('My'):
            ops.append({'op': 'clone', 'a': i + 1, 'how': rng.choice(['pickle', 'deepcopy'])})
            things.append(dict(a))
        elif k < 0.8 and not a['done']:
            ops.append({'op': 'draw', 'a': i + 1, 'n': rng.choice([1, 2, 2, 4, 6, 623, 624, 1248]), 'how': rng.choice(['bytes', 'sample'])})
        elif k < 0.85 and not a['done'] and 'RandomState' in a['cls']:
            ops.append({'op': 'gauss', 'a': i + 1})
            a['done'] = True
        else:
            asks(rng, ops, len(things))
    asks(rng, ops, len(things))
    return {'ops': ops}


def frames(rng):
    ops, things = [], []

    def new():
        cls = rng.choice(['DataFrame', 'DataFrame', 'Series', 'MyFrame'])
        rows, cols = rng.randint(1, 3), 1 if cls == 'Series' else rng.randint(1, 3)
        f = {'cls': codes(cls), 'ik': rng.choice(['str', 'int', 'float', 'ts', 'tuple']), 'index': rng.sample(range(5), rows), 'iname': rng.choice([0, 0, 1]),
             'ck': rng.choice(['str', 'str', 'int', 'tuple' if cls != 'Series' else 'str']), 'cname': rng.choice([0, 0, 1]) if cls != 'Series' else 0,
             'cols': [{'label': n, 'dt': codes(rng.choice(sorted(VALUES))), 'e': [rng.randint(0, 3) for _ in range(rows)]}
                      for n in rng.sample(range(5), cols)]}
        op = {'op': 'frame', 'f': f, 'how': rng.choice(['dict', 'dict', 'concat'])}
        ops.append(op)
        things.append(json.loads(json.dumps(f)))
        if rng.random() < 0.5:
            ops.append(op)
            things.append(json.loads(json.dumps(f)))
    new()
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        i = rng.randrange(len(things))
        f = things[i]
        op = {'a': i + 1}
        r, c = rng.randint(1, len(f['index'])), rng.randint(1, len(f['cols']))
        if k < 0.15:
            new()
            continue
        elif k < 0.35:
            op.update(op='fcopy', how=rng.choice(['copy', 'pickle']))
            ops.append(op)
            things.append(json.loads(json.dumps(f)))
            continue
        elif k < 0.6:
            op.update(op='fput', c=c, r=r, v=rng.randint(0, 3))
            f['cols'][c - 1]['e'][r - 1] = op['v']
        elif k < 0.75:
            c = rng.choice([0, c])
            used = f['index'] if c == 0 else [x['label'] for x in f['cols']]
            op.update(op='flabel', c=c, r=r, v=rng.choice([n for n in range(6) if n not in used]))
            if c == 0:
                f['index'][r - 1] = op['v']
            else:
                f['cols'][c - 1]['label'] = op['v']
        elif k < 0.87:
            c = rng.choice([0, 1]) if text(f['cls']) != 'Series' else 0
            op.update(op='fname', c=c, v=rng.choice([0, 1, 2]))
        elif text(f['cls']) != 'Series' and f['ck'] != 'tuple':
            dt = rng.choice(sorted(VALUES))
            op.update(op='ftype', c=c, v=codes(dt))
            f['cols'][c - 1]['dt'] = codes(dt)
        else:
            continue
        if rng.random() < 0.3:
            ops.append({'op': 'ask', 'x': leaf(i + 1)})
        ops.append(op)
    asks(rng, ops, len(things))
    return {'ops': ops}
