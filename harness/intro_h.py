"""Introspection of objects: executes the operations of spec/Introspect.tla."""
from __future__ import print_function
import itertools
import types
from collections import OrderedDict

from whatami import What, whatable, whatareyou, obj2what
from whatami.whatutils import FunctionLike
from common import codes, text, outcome, enc, dec, Unencodable
from gen import Gen

BASES = {'object': object, 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict, 'odict': OrderedDict}


def prop(m):
    v = m['v']
    if m['k'] == 'prop':
        value = dec(v)
        return property(lambda self: value)
    name = text(v['s'])

    def mirror(self):
        try:
            return getattr(self, name)
        except AttributeError:
            return None
    return property(mirror)


def build(cfg):
    """The classes, in method resolution order."""
    made = []
    n = len(cfg['classes'])
    base = BASES[cfg['base']]
    for i in reversed(range(n)):
        c = cfg['classes'][i]
        if cfg.get('functionlike') and i == n - 1:
            made.append(FunctionLike)
            continue
        d = {}
        if c['slots']:
            slots = [text(s) for s in c['slots'][0]]
            d['__slots__'] = slots[0] if len(slots) == 1 and cfg.get('single') else slots
        for m in c['members']:
            d[text(m['n'])] = (dec(m['v']) if m['k'] == 'plain' else
                               (lambda self, x=3: x) if m['k'] == 'method' else prop(m))
        if cfg.get('callable') and (i == n - 1 or cfg.get('functionlike')):
            d['__call__'] = lambda self, x=3, y=5: (x, y)
        if cfg.get('diamond') and n == 4:
            bases = {3: (base,), 2: made[:1], 1: made[:1], 0: tuple(made[1:][::-1])}[i]
        else:
            bases = (made[-1],) if made else (base,)
        made.append(type(text(cfg['n']) if i == 0 else 'Base%d' % i, tuple(bases), d))
    classes = made[::-1]
    return classes


def instance(cls, cfg):
    contents = dec(cfg['contents'])
    if cfg['base'] == 'object':
        return cls()
    if cfg['base'] == 'odict':
        return cls(contents)
    return cls(contents)


def project(base):
    inherited = set(dir(BASES[base])) if base != 'object' else ()
    members = (types.FunctionType, types.MethodType, property, types.BuiltinFunctionType, type(Probe.s))

    def value(x):
        return {'t': 'opaque', 's': codes('member')} if isinstance(x, members) else enc(x)

    def conf(w):
        if not isinstance(w, What):
            raise Unencodable(type(w).__name__)
        return {'t': 'what', 'n': codes(w.name), 'o': enc(w.out_name), 'x': [codes(k) for k in w.non_id_keys],
                'c': [[codes(k), value(v)] for k, v in w.conf.items() if k not in inherited and k not in ALWAYS]}
    return conf


class Probe(object):
    __slots__ = ('s',)


class Plain(object):
    pass


# What python adds to any class
ALWAYS = set(dir(Plain)) | {'__slots__', '__call__', '__mro__', '__abstractmethods__', '__name__', '__qualname__', '__bases__'}


def see(o, obj, how=0):
    kw = {'add_dict': o['dict'], 'add_slots': o['slots'], 'add_properties': o['props'], 'add_class': o['class'],
          'exclude_prefix': (None if o.get('none') else '') if o['prefix'] == [] else text(o['prefix']),
          'exclude_postfix': (None if o.get('none') else '') if o['postfix'] == [] else text(o['postfix']),
          'non_id_keys': [text(k) for k in o['nonids']] if o['nonids'] else None}
    ex = [text(k) for k in o['excludes']]
    kw['excludes'] = {0: tuple, 1: list, 2: set, 3: iter, 4: frozenset}[o.get('how', 0)](ex)
    if o.get('defaults'):
        kw = {}
    if o['name']:
        kw['name_override'] = text(o['name'][0])
    if how == 1:  # what is not said has these values
        kw = {k: v for k, v in kw.items() if v != {'add_dict': True, 'add_slots': True, 'add_properties': True, 'add_class': False, 'exclude_prefix': '_',
                                                   'exclude_postfix': '_', 'non_id_keys': None, 'excludes': ('what',)}.get(k, 'nothing')}
    if how == 2:  # through obj2what, that does not look into classes
        kw.pop('add_class', None)
        return lambda: obj2what(obj, force_inspect=True, **kw)
    return lambda: whatareyou(obj, **kw)


def execute(prop_, case):
    case = complete(case)
    cfg = case['cfg']
    classes = build(cfg)
    obj = instance(classes[0], cfg)
    conf = project(cfg['base'])
    # The same object, with the class made whatable
    wopts = [o for o in cfg['opts'] if not o['name'] and codes('what') in o['excludes']][:1] if cfg['whatable'] else []
    wcls = wobj = None
    if wopts:
        o = wopts[0]
        wclasses = build(cfg)
        kw = {} if o.get('defaults') else {
            'add_dict': o['dict'], 'add_slots': o['slots'], 'add_properties': o['props'], 'add_class': o['class'],
            'exclude_prefix': text(o['prefix']), 'exclude_postfix': text(o['postfix']),
            'excludes': iter([text(k) for k in o['excludes']]) if o.get('how') == 3 else [text(k) for k in o['excludes']],
            'non_id_keys': iter([text(k) for k in o['nonids']]) if o['nonids'] else None}
        wobj = instance(wclasses[0], cfg)
        if cfg['whatable'] == 'object':
            wobj = whatable(wobj, **kw)
        elif cfg['whatable'] == 'decorator':
            whatable(**kw)(wclasses[0])
        else:
            whatable(wclasses[0], **kw)
    targets = [(obj, classes)] + ([(wobj, wclasses)] if wopts else [])
    ops = []
    for op in [{'op': 'start'}] + case['ops']:
        op = dict(op)
        done = []
        for target, cls in targets:
            try:
                if op['op'] == 'set':
                    setattr(target, text(op['n']), dec(op['v']))
                elif op['op'] == 'del':
                    delattr(target, text(op['n']))
                elif op['op'] == 'class':
                    setattr(cls[op['i'] - 1], text(op['n']), dec(op['v']))
                done.append(True)
            except AttributeError:
                done.append(False)
        op['done'] = done[0]
        op['obs'] = []
        if cfg.get('functionlike'):
            op['obs'] = [{'o': LIKE, 'r': outcome(ask, conf)} for ask in (lambda: obj.what(), lambda: obj2what(obj))]
        for o in () if cfg.get('functionlike') else cfg['opts']:
            op['obs'].append({'o': o, 'r': outcome(see(o, obj), conf)})
        for o in () if cfg.get('functionlike') else cfg['opts'][:2]:
            op['obs'].append({'o': o, 'r': outcome(see(o, obj, 1), conf)})
            if not o['class']:
                op['obs'].append({'o': o, 'r': outcome(see(o, obj, 2), conf)})
        if wopts:
            op['obs'].append({'o': wopts[0], 'r': outcome(lambda: wobj.what(), conf)})
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


NAMES = ['a', 'b', 'c', '_p', 'q_', '_', '__', 'x', 'x1', 'xa', 'what', 'whatever', 'seq', 'name', '_x_', 'ax', 'n_jobs', 'conf', 'a_x',
         u'\xf1']
FIXES = ['', '_', 'x', 'xa', 'a', 'q_', 'wh', '__']


def options(rng, names):
    o = {'dict': rng.random() < 0.7, 'slots': rng.random() < 0.7, 'props': rng.random() < 0.7, 'class': rng.random() < 0.35,
         'prefix': codes(rng.choice(FIXES)), 'postfix': codes(rng.choice(FIXES)),
         'excludes': [codes(n) for n in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2])))] + (
             [codes('what')] if rng.random() < 0.7 else []),
         'name': [codes(rng.choice(['Other', 'x', u'\xe9']))] if rng.random() < 0.2 else [],
         'nonids': [codes(n) for n in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2])))], 'how': rng.randint(0, 4)}
    if rng.random() < 0.2:
        o['none'] = True
    if rng.random() < 0.25:
        o.update(DEFAULT)
    return o


DEFAULT = {'dict': True, 'slots': True, 'props': True, 'class': False, 'prefix': codes('_'), 'postfix': codes('_'),
           'excludes': [codes('what')], 'name': [], 'nonids': [], 'defaults': True}


# What functions-like look at
LIKE = dict(DEFAULT, excludes=[])


def complete(case):
    """A case of the model has all the combinations of sources, with and without exclusions."""
    cfg = dict(case['cfg'])
    if 'opts' not in cfg:
        cfg['opts'] = [dict(DEFAULT, **{'dict': d, 'slots': s, 'props': p, 'class': c, 'prefix': codes('_' if x else ''), 'defaults': False})
                       for d, s, p, c, x in itertools.product([True, False], repeat=5)]
        cfg['whatable'] = ''
    return {'cfg': cfg, 'ops': case['ops']}


def generate(prop_, rng, tier):
    g = Gen(rng, names=['p', 'q', 'n'], maxwidth=2)

    def value():
        return g.atom() if rng.random() < 0.8 else enc(dec(g.value(1)))
    for _ in range(1800 * (12 if tier == 'thorough' else 1)):
        names = rng.sample(NAMES, rng.randint(2, 7))
        base = 'object' if rng.random() < 0.75 else rng.choice(sorted(BASES))
        n = rng.choice([1, 1, 2, 2, 3, 4])
        diamond = n == 4 and rng.random() < 0.8
        classes = []
        slotted = [False] * n
        p_slots = rng.choice([0.2, 0.5, 1.0])
        for i in range(n):
            mine = [x for x in names if rng.random() < 0.5]
            slots = []
            members = []
            has_slots = base == 'object' and rng.random() < p_slots
            for x in mine:
                k = rng.random()
                if k < 0.35 and has_slots and not (diamond and i in (1, 2)):
                    # An already declared slot can be declared again; class members cannot
                    slots.append(codes(x))
                elif k < 0.65:
                    members.append({'n': codes(x), 'k': 'plain', 'v': value()})
                elif k < 0.8:
                    members.append({'n': codes(x), 'k': 'prop', 'v': value()})
                elif k < 0.92:
                    members.append({'n': codes(x), 'k': 'mirror', 'v': {'t': 'str', 's': codes(rng.choice([y for y in names if y != x]))}})
                else:
                    members.append({'n': codes(x), 'k': 'method', 'v': {'t': 'none'}})
            classes.append({'slots': [slots] if has_slots else [], 'members': members})
        # No mirrors of mirrors, nor of methods
        kinds = {}
        for c in classes:
            for s in (c['slots'] or [[]])[0]:
                kinds.setdefault(text(s), set()).add('slot')
            for m in c['members']:
                kinds.setdefault(text(m['n']), set()).add(m['k'])
        for c in classes:
            for m in c['members']:
                if m['k'] == 'mirror' and kinds.get(text(m['v']['s']), set()) & {'prop', 'mirror', 'method'}:
                    m['k'], m['v'] = 'prop', {'t': 'none'}
                if text(m['n']) == 'what' and m['k'] != 'plain':
                    m['k'], m['v'] = 'plain', enc(3)
        contents = {'object': None, 'list': [1, 'a'], 'tuple': (1, (2,)), 'set': {1, 2}, 'frozenset': frozenset([1]), 'dict': {'k': 1},
                    'odict': [('k', 1), ('a', 2)]}[base]
        has_what = any(text(m['n']) == 'what' for c in classes for m in c['members']) or 'what' in names
        cfg = {'n': codes(rng.choice(['C', 'Klass', '_Hidden', 'None1', 'seq'])), 'classes': classes, 'base': base,
               'contents': enc(contents), 'diamond': diamond, 'single': rng.random() < 0.5,
               'callable': base == 'object' and rng.random() < 0.25,
               'opts': [options(rng, names) for _ in range(4)],
               'whatable': rng.choice(['class', 'decorator', 'object', '']) if not has_what else ''}
        if cfg['whatable'] == 'object' and any(c['slots'] for c in classes) and base == 'object' and all(c['slots'] for c in classes):
            cfg['whatable'] = 'class'
        if base == 'object' and not diamond and not has_what and rng.random() < 0.15:
            cfg['functionlike'] = True
            cfg['whatable'] = ''
            classes.append({'slots': [], 'members': []})
        if cfg['whatable'] and cfg['opts']:
            o = cfg['opts'][0]
            o['name'] = []
            o.pop('none', None)
            if codes('what') not in o['excludes']:
                o['excludes'] = o['excludes'] + [codes('what')]
        ops = []
        assigned = []
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < 0.7:
                x = rng.choice(names)
                ops.append({'op': 'set', 'n': codes(x), 'v': value()})
                assigned.append(x)
            elif k < 0.9:
                ops.append({'op': 'del', 'n': codes(rng.choice(assigned or names))})
            else:
                i = rng.randrange(n)
                plain = [m['n'] for m in classes[i]['members'] if m['k'] == 'plain']
                if plain:
                    ops.append({'op': 'class', 'i': i + 1, 'n': rng.choice(plain), 'v': value()})
        # A method resolved first can hide what a mirror looks for
        yield {'cfg': cfg, 'ops': ops}
