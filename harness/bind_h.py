"""Callables with bound parameters: executes the operations of spec/Bind.tla."""
from __future__ import print_function
import functools
import json
import zlib
import inspect
import builtins
from functools import partial

import toolz
from whatami import What, whatable, whatareyou, what2id, obj2what
from whatami.misc import callable2call
from common import codes, text, outcome, enc, dec, as_text, Unencodable
from gen import Gen

FILL = 'f'


class Values(object):
    """Values that can be callables themselves: [t: "whatable", w: ..., f: True]."""

    def __init__(self):
        self.known = []

    def dec(self, v):
        if v.get('f'):
            f = function(text(v['w']['n']), [{'n': k, 'has': True, 'd': x} for k, x in v['w']['c']], 'plain', self)
            self.known.append((f, v))
            return f
        return dec(v)

    def enc(self, x):
        for f, v in self.known:
            if f is x:
                return v
        return enc(x)


def captured(*_):
    return 5


def function(name, sig, kind, values):
    """A function that gives back what it got."""
    space = {'D%d' % i: values.dec(p['d']) for i, p in enumerate(sig) if p['has']}
    names = [text(p['n']) for p in sig]
    args = ', '.join(n + ('=D%d' % i if p['has'] else '') for i, (n, p) in enumerate(zip(names, sig)))
    got = '[%s]' % ', '.join('(%r, %s)' % (n, n) for n in names)
    if name == 'lambda':
        exec('it = lambda %s: %s' % (args, got), space)
        return space['it']
    if kind == 'plain':
        exec('def %s(%s):\n    "doc of it"\n    return %s' % (name, args, got), space)
        return space[name]
    space['outer0'] = 5 if kind == 'number' else captured
    exec('def outer_(a_, w_):\n    def %s(%s):\n        "doc of it"\n        %sw_\n        return %s\n    return %s\nit_ = outer_(outer0, outer0)'
         % (name, args, 'a_, ' if kind == 'many' else '', got, name), space)
    it = space['it_']
    # Wrappers can capture functions other than the one they wrap
    return functools.update_wrapper(it, aside, assigned=()) if kind == 'wrapper' else it


def aside(z=1):
    return z


def open_callable(name):
    """A builtin, or a class that takes anything."""
    if hasattr(builtins, name):
        return getattr(builtins, name)
    return type(name, (object,), {'__init__': lambda self, *args, **kwargs: None, '__doc__': 'doc of it'})


def handmade(c):
    """Made whatable without the help of the library."""
    def wrapper(*args, **kwargs):
        return c(*args, **kwargs)
    wrapper.what = lambda: whatareyou(c)
    return wrapper


def wrapped(c, by_hand=False, inplace=False):
    try:
        callable2call(c)
    except ValueError:
        return c
    if inplace and inspect.isfunction(c) and not hasattr(c, 'what'):
        return whatable(c, modify_func_inplace=True)
    if inspect.isclass(c) or inspect.isbuiltin(c):  # there are other ways with these
        return c
    return handmade(c) if by_hand and (inspect.isfunction(c) or type(c) is partial) else whatable(c)


def execute(prop, case):
    cfg = case['cfg']
    values = Values()
    salt = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    kind = cfg.get('kind') or ('plain', 'closure', 'number', 'many', 'wrapper')[salt % 5]
    f = open_callable(text(cfg['n'])) if cfg.get('open') else function(text(cfg['n']), cfg['sig'], kind, values)
    names = [text(p['n']) for p in cfg['sig']]

    def conf(w):
        if not isinstance(w, What):
            raise Unencodable(type(w).__name__)
        return {'t': 'what', 'n': codes(w.name), 'o': enc(w.out_name), 'c': [[codes(k), values.enc(v)] for k, v in w.conf.items()], 'x': []}

    def called(c):
        def do():
            try:
                bound = callable2call(c)[1]
            except ValueError:
                bound = names
            got = c(**{n: FILL for n in names if n not in bound})
            return [[codes(k), values.enc(v)] for k, v in got]
        return do

    def fresh(c):
        # Curried functions get decorated like any other object, in place
        return toolz.curry(c.func, *c.args, **c.keywords) if isinstance(c, toolz.curry) else c

    def see(c):
        like = 'object_' if isinstance(c, toolz.curry) else ''
        def poked(f):
            # What others do with what they got is not seen here
            try:
                r = f()
            except ValueError:
                pass
            else:
                r[1].update(poked=9) if isinstance(r, tuple) else r.conf.update(poked=9)
            return f()
        obs = [['callable2call', outcome(lambda: callable2call(c), lambda r: conf(What(*r)))],
               ['callable2call_again', outcome(lambda: poked(lambda: callable2call(c)), lambda r: conf(What(*r)))],
               ['whatareyou', outcome(lambda: poked(lambda: whatareyou(c)), conf)],
               ['obj2what', outcome(lambda: poked(lambda: obj2what(c)), conf)],
               ['what2id', outcome(lambda: what2id(c), as_text)],
               ['str', outcome(lambda: str(whatareyou(c)), as_text)],
               ['nested', outcome(lambda: What('w', {'x': c}).id(), as_text)],
               ['listed', outcome(lambda: What('w', {'x': [c, 1]}).id(), as_text)],
               [like + 'decorated', outcome(lambda: whatable(fresh(c)).what(), conf)],
               [like + 'decorated_id', outcome(lambda: whatable(fresh(c)).what().id(), as_text)],
               ['curried', outcome(lambda: whatareyou(toolz.curry(c)), conf)],
               ['call', outcome(called(c), lambda r: r)]]
        if cfg.get('open'):
            # Calling tells nothing of what they got; by themselves they are not values with parameters
            bare = not isinstance(c, partial) and not inspect.isfunction(c) and not isinstance(c, toolz.curry)
            obs = [o for o in obs if o[0] != 'call' and (not bare or o[0] in ('callable2call', 'whatareyou', 'obj2what', 'what2id', 'str'))]
        # All the routes to a refused application are not interesting for what is not a refusal
        if not obs[0][1]['ok']:
            obs = [o for o in obs if o[0] not in ('callable2call_again', 'curried')]
        return obs

    ops = []
    c = f
    for i, op in enumerate([{'op': 'start'}] + case['ops']):
        op = dict(op)
        how = op.get('how') or ('partial', 'curry', 'partial', 'whatable')[(salt >> (2 * i)) & 3]
        # N.B. closures over just one function pass for decorated functions, once they have a configuration
        inplace = kind != 'closure' and (salt >> (i + 3)) & 1
        # What decorated functions have was looked into when they were decorated
        decorate = not any(o['op'] == 'redefault' for o in case['ops'][i:])
        if op['op'] == 'apply':
            if how == 'whatable' and decorate:
                c = wrapped(c, salt >> i & 16, inplace)
            pos = [values.dec(v) for v in op['pos']]
            kw = {text(k): values.dec(v) for k, v in op['kw']}
            c = (toolz.curry if how == 'curry' else partial)(c, *pos, **kw)
        elif op['op'] == 'wrap' and decorate:
            c = wrapped(c, salt >> i & 16, inplace)
        elif op['op'] == 'redefault' and op['ds']:
            f.__defaults__ = tuple(values.dec(v) for v in op['ds'])
        op['obs'] = see(c)
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


PARAMS = ['a', 'b', 'c', 'x', 'y', 'args', 'kwargs', 'func', 'positional', 'keywords', 'n_jobs', 'seq', 'B', 'name', 'x1', 'x10', 'obj']
OPEN = ['max', 'sorted', 'map', 'zip', 'int', 'Opener', '_Opener', 'Model2']
FUNCS = ['f', 'normalize', 'lambda', 'F', 'map', '_hidden', 'g2']


def generate(prop, rng, tier):
    g = Gen(rng, names=['p', 'q', 'n'], maxwidth=2)

    def value():
        k = rng.random()
        if k < 0.15:
            return {'t': 'whatable', 'f': True,
                    'w': {'t': 'what', 'n': codes(rng.choice(['lambda', 'g', 'helper'])), 'o': {'t': 'none'},
                          'c': [[codes(n), g.atom()] for n in rng.sample(['u', 'v'], rng.randint(0, 2))], 'x': []}}
        if k < 0.7:
            return g.atom()
        return enc(dec(g.value(1)))
    for _ in range(700 * (10 if tier == 'thorough' else 1)):
        opened = rng.random() < 0.1
        n = 0 if opened else rng.randint(0, 6)
        d = rng.randint(0, n)
        sig = [{'n': codes(p), 'has': i >= n - d, 'd': value() if i >= n - d else {'t': 'none'}}
               for i, p in enumerate(rng.sample(PARAMS, n))]
        ops = []
        free = [p['n'] for p in sig] if not opened else [codes(p) for p in rng.sample(PARAMS, 4)]
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.15:
                ops.append({'op': 'wrap'})
                continue
            if rng.random() < 0.1:
                ops.append({'op': 'redefault', 'ds': [value() for p in sig if p['has']]})
                continue
            pos = [value() for _ in range(rng.choice([0, 0, 1, 1, 2] if not opened else [0] * 9 + [1, 2]))]
            if rng.random() < 0.9:
                pos = pos[:len(free)]
            free = free[len(pos):]
            kws = [k for k in free if rng.random() < 0.3] if rng.random() < 0.95 else [codes(rng.choice(PARAMS))]
            if kws:
                # Only what comes before can still be bound by position
                free = free[:min([free.index(k) for k in kws if k in free] or [len(free)])] \
                    if rng.random() < 0.7 else free
            ops.append({'op': 'apply', 'pos': pos, 'kw': [[k, value()] for k in kws],
                        'how': rng.choice(['partial', 'curry', 'whatable', 'partial'])})
        if opened:
            yield {'cfg': {'n': codes(rng.choice(OPEN)), 'sig': [], 'open': True}, 'ops': ops}
            continue
        yield {'cfg': {'n': codes(rng.choice(FUNCS)), 'sig': sig, 'kind': rng.choice(['plain', 'closure', 'number', 'many', 'wrapper'])}, 'ops': ops}
