"""Routes to the id of an object (C26): executes the operations routes, verbatim and iswhatable of spec/Lang.tla."""
from __future__ import print_function
from collections import OrderedDict
from functools import partial

from whatami import What, whatable, is_whatable, what2id, obj2what
from whatami.what import whatareyou
from whatami.whatutils import FunctionLike
from common import enc, dec, codes, text, outcome, as_text, as_bool, WhatableProbe, enc_str
from gen import Gen, norm

NONE = {'t': 'none'}


def conf_of(w):
    return {text(k): dec(x) for k, x in w['c']}


def make_instance(w, subclass=False, decorate='class', base=object, slots=False):
    """A whatable object that should be described by w (parameters without leading or trailing underscores)."""
    conf = conf_of(w)

    def init(self):
        for k, v in conf.items():
            setattr(self, k, v)
    name = text(w['n'])
    members = {'__init__': init}
    if base is not object:
        members['what'] = lambda self: What(name, dict(conf))
        return type(base)(name, (base,), members)()
    cls = type(name, (object,), members)
    if subclass:
        parent = whatable(non_id_keys=[text(x) for x in w['x']])(type('Parent', (object,), {}))
        return type(name, (parent,), members)()
    if decorate == 'class':
        return whatable(non_id_keys=[text(x) for x in w['x']])(cls)()
    return whatable(cls(), non_id_keys=[text(x) for x in w['x']])


def make_function(w):
    names = [text(k) for k, _ in w['c']]
    src = 'def %s(%s):\n    return 1\n' % (text(w['n']), ', '.join('%s=_c[%r]' % (k, k) for k in names))
    ns = {'_c': conf_of(w)}
    exec(src, ns)
    return ns[text(w['n'])]


class Duck(object):
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w

    def id(self):
        return 'not this id'


def make(kind, w):
    if kind == 'probe':
        return WhatableProbe(dec(w))
    if kind == 'duck':
        return Duck(dec(w))
    if kind == 'instance':
        return make_instance(w)
    if kind == 'subclass':
        return make_instance(w, subclass=True)
    if kind == 'object':
        return make_instance(w, decorate='object')
    if kind in ('dict', 'list', 'str'):
        return make_instance(w, base={'dict': dict, 'list': list, 'str': str}[kind])
    if kind == 'function':
        return whatable(make_function(w), non_id_keys=[text(x) for x in w['x']])
    if kind == 'inplace':
        return whatable(make_function(w), non_id_keys=[text(x) for x in w['x']], modify_func_inplace=True)
    if kind == 'partial':
        f = make_function(dict(w, c=[[k, enc(0)] for k, _ in w['c']]))
        return whatable(partial(f, **conf_of(w)), non_id_keys=[text(x) for x in w['x']])
    if kind == 'whatfunc':
        what = dec(w)
        return whatable(lambda x=1: x, whatfunc=lambda f: what)
    if kind == 'functionlike':
        cls = type(text(w['n']), (FunctionLike,), {'__init__': lambda self: self.__dict__.update(conf_of(w)),
                                                    '__call__': lambda self: 1})
        return cls()
    if kind == 'attribute':
        o = Duck(None)
        what = dec(w)
        o.what = lambda: what
        return o
    if kind == 'static':
        what = dec(w)
        return type('Static', (object,), {'what': staticmethod(lambda: what)})()
    if kind == 'classmethod':
        what = dec(w)
        return type('Classy', (object,), {'what': classmethod(lambda cls: what)})()
    raise ValueError(kind)


# Things described by a configuration that cannot be encoded
HOLDERS = {'probe': WhatableProbe, 'duck': Duck, 'whatfunc': lambda w: whatable(lambda x=1: x, whatfunc=lambda f: w),
           'instance': lambda w: whatable(whatfunc=lambda self: w)(type('Holder', (object,), {'__init__': lambda self: self.__dict__.update(a=1)}))(),
           'object': lambda w: whatable(type('Holder', (object,), {})(), whatfunc=lambda self: w),
           'static': lambda w: type('Static', (object,), {'what': staticmethod(lambda: w)})(),
           'classmethod': lambda w: type('Classy', (object,), {'what': classmethod(lambda cls: w)})()}
KINDS = ['probe', 'duck', 'instance', 'subclass', 'object', 'dict', 'list', 'function', 'inplace', 'partial', 'whatfunc',
         'functionlike', 'attribute', 'static', 'classmethod']
# what can go without non-id keys
NO_NONIDS = ('dict', 'list', 'partial2', 'functionlike')


def do_routes(op, broken=None):
    from whatami.plugins import WhatamiPluginManager
    from whatami.registry import WhatamiRegistry, Recorder
    from whatami.misc import mlexp_info_helper
    if broken is None:
        o = make(op['kind'], op['w'])
    else:
        w = dec(op['w'])
        w.conf['zz'] = broken
        if op['hidden']:
            w.non_id_keys.add('zz')
        o = HOLDERS[op['kind']](w)

    def registry():
        r = WhatamiRegistry()
        r.register(o, 'nick')
        return r.nick2id('nick')

    def registry_back():
        r = WhatamiRegistry()
        r.register(o, 'nick')
        return [i for n, i in r.list() if n == r.nick_or_id(o)][0]

    def recorder():
        r = Recorder(id_extractor=what2id)
        rec = r.add(ids=[o])
        return list(rec)[0]
    routes = [['what', lambda: o.what().id()],
              ['obj2what', lambda: obj2what(o).id()],
              ['what2id', lambda: what2id(o)],
              ['render', lambda: WhatamiPluginManager.build_string(o)],
              ['nested', lambda: What('holder', {'p': o}).id()],
              ['registry', registry], ['registry_back', registry_back], ['recorder', recorder],
              ['experiment', lambda: mlexp_info_helper('t', o)['data_setup'] if op['kind'] != 'list' else what2id(o)]]
    return dict(op, routes=[[name, outcome(f, as_text)] for name, f in routes])


def do_verbatim(op):
    return dict(op, obs=outcome(lambda: what2id(dec(op['v'])), enc))


def an_experiment():
    """The function of an experiment."""


def do_experiment(op):
    from whatami.misc import mlexp_info_helper
    names = ['data_setup', 'model_setup', 'eval_setup']
    setups = [make(s['kind'], s['w']) if 'kind' in s else dec(s['v']) for s in op['setups']]
    given = [('comments', dec(op['comments'])), ('exp_function', an_experiment if op['function'] else None),
             ('itime', (lambda: dec(op['time'])) if op['time']['t'] != 'none' else None)]
    title = dec(op['title'])
    how = len(repr(op)) % 3

    def go():
        if how == 0:
            return mlexp_info_helper(title, *(setups + [given[1][1], given[0][1], given[2][1]]))
        kw = dict(zip(names, setups), **dict(given))
        return mlexp_info_helper(title=title, **{k: v for k, v in kw.items() if how == 1 or v is not None})

    def tell(r):
        return [[codes(k), enc(''.join(v[0])) if k == 'fsource' and v is not None else enc(v)] for k, v in r.items()]
    return dict(op, obs=outcome(go, tell))


# --- What is whatable

class Weird(object):
    @property
    def what(self):
        raise ValueError('no what for you')


def _raises(*_):
    raise KeyError('no')


def candidate(kind):
    """An object, and the facts about it."""
    W = What('w', {'a': 1})
    mk = lambda f: type('K', (object,), {'what': f})
    cases = {
        'duck': (mk(lambda self: W)(), 'what'),
        'text': (mk(lambda self: 'w(a=1)')(), 'other'),
        'none': (mk(lambda self: None)(), 'other'),
        'needsarg': (mk(lambda self, x: W)(), 'raises'),
        'optarg': (mk(lambda self, x=1: W)(), 'what'),
        'raising': (mk(_raises)(), 'raises'),
        'property_raises': (Weird(), 'absent'),
        'property_what': (mk(property(lambda self: W))(), 'notcallable'),
        'attribute_what': (_with(object, W), 'notcallable'),
        'attribute_fn': (_with(object, lambda: W), 'what'),
        'attribute_bad': (_with(object, lambda: 3), 'other'),
        'attribute_text': (_with(object, 'what'), 'notcallable'),
        'attribute_none': (_with(object, None), 'notcallable'),
        'attribute_partial': (_with(object, partial(What, 'w', {})), 'what'),
        'attribute_class': (_with(object, What), 'raises'),
        'static': (mk(staticmethod(lambda: W))(), 'what'),
        'static_bad': (mk(staticmethod(lambda: 'x'))(), 'other'),
        'classmethod': (mk(classmethod(lambda cls: W))(), 'what'),
        'classmethod_bad': (mk(classmethod(lambda cls: {}))(), 'other'),
        'callable_object': (_with(object, type('C', (object,), {'__call__': lambda self: W})()), 'what'),
        'decorated_function': (whatable(lambda x=1: x), 'what'),
        'decorated_partial': (whatable(partial(max, 3), whatfunc=lambda f: W), 'what'),
        'decorated_raising': (whatable(lambda x=1: x, whatfunc=_raises), 'raises'),
        'decorated_other': (whatable(lambda x=1: x, whatfunc=lambda f: 'text'), 'other'),
        'decorated_instance': (whatable(type('D', (object,), {}))(), 'what'),
        'decorated_sub': (type('E', (whatable(type('D', (object,), {})),), {})(), 'what'),
        'getattr_raises': (type('G', (object,), {'__getattr__': lambda self, n: _raises()})(), 'absent'),
        'function': (lambda x=1: x, 'absent'), 'int': (3, 'absent'), 'str': ('what', 'absent'), 'nothing': (None, 'absent'),
        'list': ([1], 'absent'), 'dict': ({'what': W}, 'absent'), 'what': (W, 'absent'), 'partial': (partial(max), 'absent'),
        'module': (codes.__globals__['__builtins__'] if False else __import__('math'), 'absent'), 'builtin': (len, 'absent'),
        # classes
        'class_decorated': (whatable(type('D', (object,), {})), 'marked'),
        'class_decorated_sub': (type('E', (whatable(type('D', (object,), {})),), {}), 'marked'),
        'class_duck': (mk(lambda self: W), 'unmarked'),
        'class_duck_default': (mk(lambda self=None: W), 'unmarked'),
        'class_override': (type('E', (whatable(type('D', (object,), {})),), {'what': lambda self: W}), 'unmarked'),
        'class_classmethod': (mk(classmethod(lambda cls: W)), 'bound_what'),
        'class_classmethod_bad': (mk(classmethod(lambda cls: 1)), 'bound_other'),
        'class_plain': (type('P', (object,), {}), 'absent'), 'class_builtin': (str, 'absent'), 'class_what': (What, 'absent'),
        'class_forced': (whatable(mk(lambda self: W), force_flag_as_whatami=True), 'marked'),
    }
    if kind is None:
        return sorted(cases)
    return cases[kind]


def _with(cls, v):
    o = type('O', (cls,), {})()
    o.what = v
    return o


# Texts and nothing are ids themselves; with these two, nobody can know
NOT_AN_OBJECT = ('str', 'nothing', 'what', 'property_raises', 'getattr_raises')


def do_iswhatable(op):
    o, facts = candidate(op['kind'])
    return dict(op, facts=facts, obs=outcome(lambda: is_whatable(o), as_bool), again=outcome(lambda: is_whatable(o), as_bool),
                object=op['kind'] not in NOT_AN_OBJECT,
                id=outcome(lambda: what2id(o), as_text), inferred=outcome(lambda: obj2what(o).id(), as_text))


# --- What has an id of its own

def with_own_id(op):
    """An object with the attributes w, and something called id (and what, not a method)."""
    given, own = conf_of(op['w']), text(op['own'])
    members, attributes = {}, {}
    has = op['has']
    if has in ('method', 'class'):
        members['id'] = lambda self, *args: own
    elif has == 'static':
        members['id'] = staticmethod(lambda: own)
    elif has in ('classmethod', 'class_classmethod'):
        members['id'] = classmethod(lambda cls: own)
    elif has == 'callable':
        attributes['id'] = type('Ider', (object,), {'__call__': lambda self: own})()
    elif has == 'attribute':
        given['id'] = dec(op['attribute'])
    elif has == 'property':
        members['id'] = property(lambda self: dec(op['attribute']))
    if op['what']:
        attributes['what'] = dec(op['attribute'])
    c = type(text(op['w']['n']), (object,), members)
    if has in ('class', 'class_classmethod'):
        return c
    o = c()
    o.__dict__.update(given, **attributes)
    return o


def do_ownid(op):
    o = with_own_id(op)
    return dict(op, id=outcome(lambda: what2id(o), as_text), inferred=outcome(lambda: obj2what(o).id(), as_text))


# --- What cannot be identified at all

ERRORS = {'AttributeError': AttributeError, 'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError,
          'RuntimeError': RuntimeError, 'IndexError': IndexError, 'ImportError': ImportError, 'Exception': Exception}


class Unspeakable(object):
    def __init__(self, error):
        self.error = ERRORS[error]

    def __str__(self):
        raise self.error('nothing to say')
    __repr__ = __str__


# These are refused by the library itself
UNTOLD = {'builtin': lambda: len, 'property': lambda: property(lambda self: 1),
          'unknown': lambda: partial(lambda a=1: a, zz=3), 'unnamed': lambda: partial(max, 3), 'twice': lambda: partial(lambda a, b=2: a, 1, a=2)}


def do_broken(op):
    routes = do_routes(op, broken=WRAPS[op['wrap']](UNTOLD[op['error']]() if op['error'] in UNTOLD else Unspeakable(op['error'])))['routes']
    return dict(op, routes=[r for r in routes if r[0] != 'experiment'])


WRAPS = {'itself': lambda x: x, 'list': lambda x: [1, x], 'dict': lambda x: {'k': x}, 'key': lambda x: {x: 1}, 'set': lambda x: {x, 1},
         'nested': lambda x: What('n', {'p': x}), 'probe': lambda x: WhatableProbe(What('n', {'p': x})),
         'function': lambda x: (lambda y=x: y), 'partial': lambda x: partial(lambda y: y, y=x), 'odict': lambda x: OrderedDict([('k', x)])}


OPS = {'routes': do_routes, 'verbatim': do_verbatim, 'iswhatable': do_iswhatable, 'experiment': do_experiment,
       'ownid': do_ownid, 'broken': do_broken}


def generate(rng, n):
    names = ['a', 'b', 'c', 'x1', 'B', 'n_jobs', 'verbose', 'Zeta', 'nano', 'value']
    g = Gen(rng, plain=False, nan=True, names=names)
    for k in candidate(None):
        yield {'ops': [{'op': 'iswhatable', 'kind': k}]}
    wraps, errors, holders = sorted(WRAPS), sorted(ERRORS) + sorted(UNTOLD), sorted(HOLDERS)
    for i in range(90 * n):
        w = norm(g.what(1))
        w['o'], w['x'] = dict(NONE), []
        yield {'ops': [{'op': 'broken', 'w': w, 'kind': rng.choice(holders), 'wrap': wraps[i % len(wraps)], 'error': rng.choice(errors[:1] + errors),
                        'hidden': rng.random() < 0.15}]}
    for i in range(60 * n):
        k = rng.sample(['a', 'b', 'name', 'B'], rng.randint(0, 3))
        has = ('method', 'static', 'classmethod', 'callable', 'attribute', 'property', 'class', 'class_classmethod', 'nothing')[i % 9]
        att = rng.choice([enc(1), enc_str('one'), dict(NONE), enc_str('f(x=1)'), enc([1])])
        w = {'t': 'what', 'n': codes(rng.choice(['Foo', 'Model'])), 'o': dict(NONE), 'c': [[codes(x), g.atom()] for x in k], 'x': []}
        yield {'ops': [{'op': 'ownid', 'w': w, 'has': has, 'what': rng.random() < 0.4, 'attribute': att, 'own': codes('my id')}]}
    for v in (dict(NONE), enc_str(''), enc_str('f(x=1)'), enc_str('not an id'), enc_str("it's"), enc_str(' f( x = 1)')):
        yield {'ops': [{'op': 'verbatim', 'v': v}]}
    for i in range(400 * n):
        kind = KINDS[i % len(KINDS)]
        w = g.what(rng.choice([0, 1, 2]))
        w['o'] = dict(NONE)
        w['n'] = codes(rng.choice(['Foo', 'rfc', 'PCA', 'Nonesuch', 'infra', 'B2']))
        w['x'] = [] if kind in NO_NONIDS else [x for x in w['x'] if x in [k for k, _ in w['c']]]
        if kind == 'whatfunc' or kind in ('probe', 'duck', 'attribute', 'static', 'classmethod'):
            if rng.random() < 0.3:
                w['o'] = enc_str('out')
        if kind in ('function', 'inplace', 'partial'):
            w['n'] = codes(rng.choice(['foo', 'rfc', 'nonesuch', 'infra']))
        if i % 4 == 0:
            def setup():
                if rng.random() < 0.5:
                    return {'v': rng.choice([dict(NONE), enc_str('f(x=1)'), enc_str('some data'), enc_str('')])}
                w = norm(g.what(1))
                w.update(o=dict(NONE), x=[])
                return {'kind': rng.choice(['probe', 'duck', 'attribute', 'static']), 'w': w}
            yield {'ops': [{'op': 'experiment', 'setups': [setup() for _ in range(3)], 'title': enc_str(rng.choice(['t', 'Ridge vs SVC', ''])),
                            'comments': rng.choice([dict(NONE), enc_str('none'), enc_str('slow')]), 'function': rng.random() < 0.5,
                            'time': rng.choice([dict(NONE), enc_str('2014-02-01 10:00:00')])}]}
        # callable instance values or classes as attributes are introspected as they are
        yield {'ops': [{'op': 'routes', 'kind': kind, 'w': norm(w)}]}
