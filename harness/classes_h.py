"""Metaclasses that decorate: executes the operations of spec/Classes.tla."""
from __future__ import print_function
import inspect
import sys
import types
from functools import partial, wraps

from future.utils import with_metaclass
from whatami.misc import decorate_some, ensure_has_positional_args, required_args
from common import codes, text, outcome, as_bool, _reraise

LOG = []
FIRST = ['alpha', 'beta', 'gamma', 'delta', 'omega']
MEMBERS = ['foo', 'bar', 'add', '_hidden', '__call__', 'other']


class Boxed(object):
    """Something that is not a function, decorated."""
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


class Const(object):
    def __init__(self, id):
        self.id = id


def tag(t):
    def decorator(f):
        if not isinstance(f, types.FunctionType):
            return Boxed(t, f)

        @wraps(f)
        def wrapper(*args, **kwargs):
            LOG.append(t)
            return f(*args, **kwargs)
        wrapper.tag = t
        return wrapper
    return decorator


def project(v):
    """The tags that wrap something, and what it is."""
    tags = []
    while True:
        if isinstance(v, Boxed):
            tags.append(v.tag)
            v = v.value
        elif isinstance(v, Const):
            return {'tags': tags, 'id': v.id}
        elif isinstance(v, property):
            return {'tags': tags, 'id': v.fget.id}
        elif isinstance(v, (staticmethod, classmethod)):
            return {'tags': tags, 'id': v.__func__.id}
        elif 'tag' in v.__dict__ and '__wrapped__' in v.__dict__:
            tags.append(v.tag)
            v = v.__wrapped__
        else:
            return {'tags': tags, 'id': v.id}


def source(sig, body):
    ps, star, slash = [], False, any(p['k'] == 'only' for p in sig)
    for i, p in enumerate(sig):
        n = text(p['n'])
        if slash and p['k'] != 'only':
            ps.append('/')
            slash = False
        if p['k'] == 'kwonly' and not star:
            ps.append('*')
            star = True
        if p['k'] == 'va':
            star = True
            n = '*' + n
        if p['k'] == 'kw':
            n = '**' + n
        ps.append(n + ('=7' if p['has'] and n[0] != '*' else ''))
    if slash:
        ps.append('/')
    return 'def it(%s):\n    %s\n' % (', '.join(ps), body)


def function(sig, id, name='it', holder=None, member=None):
    def run(args):
        LOG.append(id)
        if holder is not None:
            mro = type(args['self']).__mro__
            raw = [k.__dict__[member] for k in mro[mro.index(holder[0]) + 1:] if member in k.__dict__]
            if raw and isinstance(raw[0], types.FunctionType):
                f = raw[0]
                while '__wrapped__' in f.__dict__:
                    f = f.__wrapped__
                call(getattr(super(holder[0], args['self']), member), f.sig, True)
            elif raw:
                LOG.extend(project(raw[0])['tags'] + [project(raw[0])['id']])
    space = {'__run': run}
    exec(source(sig, '__run(dict(locals()))'), space)
    f = space['it']
    f.__name__ = name
    f.id, f.sig = id, sig
    return f


def call(f, sig, bound):
    need = [p for p in sig if not p['has']]
    pos = [p for p in need if p['k'] in ('only', 'pos')][1 if bound else 0:]
    f(*[0] * len(pos), **{text(p['n']): 0 for p in need if p['k'] == 'kwonly'})


def value(v, holder, member):
    if v['fn']:
        return function(v['sig'], v['id'], member, holder if v['coop'] else None, member)
    kind = v.get('kind')
    if kind in ('property', 'staticmethod', 'classmethod'):
        return {'property': property, 'staticmethod': staticmethod, 'classmethod': classmethod}[kind](function(v['sig'], v['id']))
    return Const(v['id'])


def decorator(d):
    if d['t'] == 'tag':
        return tag(d['id'])
    return partial(ensure_has_positional_args, args=[text(n) for n in d['args']])


def execute(prop, case):
    metas, classes, dicts, names = [], [], [], []
    ops = []

    def meta(op):
        kw = {}
        for (a, ds), form in zip(op['decs'], op['forms']):
            ds = [decorator(d) for d in ds]
            kw[text(a)] = ds[0] if form == 'single' and len(ds) == 1 else iter(ds) if form == 'iter' else \
                tuple(ds) if form == 'tuple' else ds
        name = text(op['name'])
        m = decorate_some(**kw) if op.get('unnamed') else decorate_some(name=name, **kw)
        metas.append(m)
        return isinstance(m, type) and issubclass(m, type) and (op.get('unnamed') or m.__name__ == name)

    def make(op):
        holder = [None]
        d = dicts[op['reuse'] - 1] if op.get('reuse') else {text(a): value(v, holder, text(a)) for a, v in op['own']}
        bases = tuple(classes[b - 1] for b in op['bases'])
        m = metas[op['meta'] - 1] if op['meta'] else None
        name = 'C%d' % len(classes)
        how = op['how']
        if how == 'call' and (m or bases):
            c = (m or type(bases[0]))(name, bases, d)
        elif how == 'with' and m:
            c = types.new_class(name, (with_metaclass(m, *bases),), {}, lambda ns: ns.update(d))
        elif how == 'source':
            space = {'d%d__' % i: x for i, x in enumerate(d.values())}
            space.update(bases=bases, m=m or type)
            exec('class %s(*bases%s):\n    def who(self): return __class__\n%s' % (
                name, ', metaclass=m' if m else '',
                ''.join('    %s = d%d__\n' % (n, i) for i, n in enumerate(d))), space)
            c = space[name]
        else:
            c = types.new_class(name, bases, {'metaclass': m} if m else {}, lambda ns: ns.update(d))
        holder[0] = c
        classes.append(c)
        dicts.append(d)
        names.append(name)
        return True

    def need(op):
        f = function(op['f']['sig'], 0)
        args = [text(n) for n in op['args']]
        if op.get('iter'):
            args = iter(args)
        if op.get('via'):
            f = partial(f)  # these have no name
        g = ensure_has_positional_args(f, args=args) if args or not op.get('iter') else ensure_has_positional_args(f)
        return g is f

    def do(op):
        k = op['op']
        if k == 'meta':
            return meta(op)
        if k == 'class':
            return make(op)
        if k == 'need':
            return need(op)
        return [codes(n) for n in required_args(function(op['f']['sig'], 0))]

    def trace(c, a):
        del LOG[:]
        o = c()
        f = inspect.getattr_static(c, a)
        while '__wrapped__' in f.__dict__:
            f = f.__wrapped__
        call(getattr(o, a), f.sig, True)
        return list(LOG)

    def members(c):
        res = []
        for a in MEMBERS:
            own = c.__dict__.get(a)
            found = inspect.getattr_static(c, a, None) if a != '__call__' else \
                next((k.__dict__[a] for k in c.__mro__ if a in k.__dict__), None)
            res.append({'a': codes(a), 'own': [] if own is None else [project(own)], 'found': [] if found is None else [project(found)],
                        'call': outcome(lambda: trace(c, a)) if isinstance(found, types.FunctionType) else {'ok': False, 'err': ''}})
        return res

    def look(i):
        c = classes[i]
        own = outcome(lambda: members(c))
        return {'name': c.__name__ == names[i] and ('who' not in c.__dict__ or c().who() is c),
                'members': own.get('v', []),
                'members_own': [codes(a) for a in c.__dict__ if a not in ('__module__', '__dict__', '__weakref__', '__doc__', 'who',
                                                                          '__qualname__')] if own['ok'] else [[0]]}

    for op in case['ops']:
        op = dict(op)
        try:
            op['obs'] = {'ok': True, 'v': do(op)}
        except BaseException as e:
            _reraise()
            op['obs'] = {'ok': False, 'msg': codes(str(e)), 'err': type(e).__name__}
        op['seen'] = [look(i) for i in range(len(classes))]
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


def generate(prop, rng, tier):
    def sig(member):
        res = []
        names = rng.sample(FIRST, rng.randint(0, 4))
        if member:
            names.insert(0, 'self')
        nonly = rng.choice([0, 0, 0, rng.randint(0, len(names))])
        nkw = rng.choice([0, 0, rng.randint(0, len(names) - nonly)])
        if member:
            nkw = min(nkw, len(names) - 1)
        npos = len(names) - nkw
        first = rng.randint(1 if member else 0, npos)
        for j, n in enumerate(names):
            res.append({'n': codes(n), 'k': 'only' if j < nonly else 'pos' if j < npos else 'kwonly',
                        'has': first <= j < npos or (j >= npos and rng.random() < 0.5)})
        if rng.random() < 0.2:
            res.insert(npos, {'n': codes('args'), 'k': 'va', 'has': True})
        if rng.random() < 0.2:
            res.append({'n': codes('kwargs'), 'k': 'kw', 'has': True})
        return res

    n = [0]

    def ident():
        n[0] += 1
        return n[0]

    def val(coop=True):
        if rng.random() < 0.8:
            return {'tags': [], 'id': ident(), 'fn': True, 'coop': coop and rng.random() < 0.7, 'sig': sig(True)}
        return {'tags': [], 'id': ident(), 'fn': False, 'coop': False, 'sig': [],
                'kind': rng.choice(['const', 'property', 'staticmethod', 'classmethod'])}

    def need():
        return {'t': 'need', 'args': [codes(x) for x in rng.sample(FIRST + ['self'], rng.choice([0, 1, 1, 2]))]}
    for _ in range(700 * (12 if tier == 'thorough' else 1)):
        n[0] = 0
        ops, metas, classes = [], [], []

        def meta():
            decs, forms = [], []
            for a in rng.sample(MEMBERS, rng.randint(0, 3)):
                ds = [{'t': 'tag', 'id': 1000 + ident()} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if rng.random() < 0.3:
                    ds.insert(rng.choice([0, 0, 0, len(ds)]), need())
                decs.append([codes(a), ds])
                forms.append(rng.choice(['list', 'tuple', 'iter', 'single', 'single']))
            ops.append({'op': 'meta', 'decs': decs, 'forms': forms, 'name': codes(rng.choice(['Meta', 'HeyThere', 'DecorateSome'])),
                        'unnamed': rng.random() < 0.2})
            metas.append({text(a) for a, ds in decs if any(d['t'] == 'need' for d in ds)})
        meta()
        for _ in range(rng.randint(2, 9)):
            k = rng.random()
            if k < 0.1 and len(metas) < 3:
                meta()
            elif k < 0.2:
                f = {'tags': [], 'id': 0, 'fn': True, 'coop': False, 'sig': sig(False)}
                if rng.random() < 0.5:
                    ops.append({'op': 'required', 'f': f})
                else:
                    ops.append({'op': 'need', 'f': f, 'args': need()['args'], 'iter': rng.random() < 0.3, 'via': rng.random() < 0.3})
            elif len(classes) < 6:
                bases = sorted(rng.sample(range(1, len(classes) + 1), min(len(classes), rng.choice([0, 1, 1, 1, 2]))), reverse=True)
                # (how they mix is a matter of Python; when they do not, neither here)
                m = rng.randint(0, len(metas)) if not bases or rng.random() < 0.15 else 0
                eff = m or next((classes[b - 1][0] for b in bases if classes[b - 1][0]), 0)
                fresh = rng.random() < 0.85 or not classes
                own = []
                reuse = 0
                if fresh:
                    for a in rng.sample(MEMBERS, rng.randint(0, 4)):
                        v = val(rng.random() < 0.7)
                        if not v['fn'] and any(a in ms for ms in metas):
                            continue
                        own.append([codes(a), v])
                else:
                    ok = [i for i, c in enumerate(classes) if not any(v['coop'] for _, v in c[1])]
                    if not ok:
                        continue
                    reuse = 1 + rng.choice(ok)
                    own = classes[reuse - 1][1]
                op = {'op': 'class', 'meta': m, 'bases': bases, 'own': own, 'reuse': reuse,
                      'how': rng.choice(['call', 'with', 'new', 'source'])}
                made = accepted(op, ops, classes)
                if made:
                    classes.append((eff, own, made))
                ops.append(op)
        yield {'ops': ops}


def accepted(op, ops, classes):
    """A stand-in for the class, if it can be made: the classes to come need to know."""
    decs = [o['decs'] for o in ops if o['op'] == 'meta']
    ms = {m for m in [op['meta']] + [classes[b - 1][0] for b in op['bases']] if m}
    if len(ms) > 1:
        return False
    for m in ms:
        for a, v in op['own']:
            for b, ds in decs[m - 1]:
                if a == b:
                    hidden = False
                    for d in ds:
                        hidden = hidden or d['t'] == 'tag'
                        req = [] if hidden else [p['n'] for p in v['sig'] if p['k'] in ('only', 'pos') and not p['has']]
                        if d['t'] == 'need' and not all(x in req for x in d['args']):
                            return False
    try:
        return type('X', tuple(classes[b - 1][2] for b in op['bases']), {})
    except TypeError:
        return None
