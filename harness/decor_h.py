"""Making things whatable: executes the operations of spec/Decor.tla."""
from __future__ import print_function
import copy
import zlib
import json
from functools import partial

from whatami import What, whatable, is_whatable
from common import codes, text, outcome, enc, dec, as_bool, as_text, as_what, class_text
from gen import Gen


NOT_THEIRS = ('what', '__slotnames__')  # (the copy module puts the latter)


def user_what():
    return lambda: What('mine', {'k': 5})


class Ent(object):
    """Something of the world, with a twin that is never decorated."""

    def __init__(self, spec, obj, twin=None, foreign=None):
        self.spec, self.obj, self.twin, self.foreign = spec, obj, twin, foreign

    def kept(self):
        """Behaves as its twin."""
        k = self.spec['k']
        o, t = self.obj, self.twin
        if k == 'fn':
            args = [((), {}), ((1,), {}), ((1, 2, 3), {}), ((), {'free_': 3}), ((), {'nope': 3})]

            def result(f, a, kw):
                try:
                    return repr(f(*a, **kw))
                except TypeError as e:
                    return 'TypeError'
            return (getattr(o, '__name__', None) == getattr(t, '__name__', None) or isinstance(t, partial)) and \
                o.__doc__ == t.__doc__ and \
                all(result(o, a, kw) == result(t, a, kw) for a, kw in args) and \
                {n: v for n, v in getattr(o, '__dict__', {}).items() if n not in ('what', '__wrapped__')} == \
                {n: v for n, v in getattr(t, '__dict__', {}).items() if n not in ('what', '__wrapped__')} and self.own_what()
        if k == 'cls':
            return o.__name__ == t.__name__ and o.__doc__ == t.__doc__ and o.hello(3) == t.hello(3) and \
                sorted(n for n in o.__dict__ if n not in NOT_THEIRS) == sorted(n for n in t.__dict__ if n not in NOT_THEIRS) and self.own_what()
        return o.hello() == 'hello' and type(o).__name__ == self.cls_name and self.own_what()

    def own_what(self):
        """Attributes that are not ours are still there."""
        if self.foreign is None:
            return True
        got = self.obj.__dict__.get('what')
        return got is self.foreign

    def no_what(self):
        """Has no attribute what of its own."""
        return 'what' not in getattr(self.obj, '__dict__', {})


def function(spec, kind, doc):
    space = {}
    names = [text(k) for k, _ in spec['c']]
    for i, (_, v) in enumerate(spec['c']):
        space['D%d' % i] = dec(v)
    name = text(spec['n'])
    args = ', '.join(['free_=0'] if kind == 'never' else ['free_'] + ['%s=D%d' % (n, i) for i, n in enumerate(names)])
    got = '(free_, %s)' % ''.join(n + ', ' for n in names)
    if kind == 'partial':
        args = ', '.join(['free_'] + names)
    if name == 'lambda':
        exec('it = lambda %s: %s' % (args, got), space)
    else:
        exec('def %s(%s):\n    %r\n    return %s\nit = %s' % (name, args, doc, got, name), space)
    f = space['it']
    f.tag = 'tagged'
    if kind == 'partial':
        f = partial(f, **{n: space['D%d' % i] for i, n in enumerate(names)})
    return f


def execute(prop, case):
    ents = []
    hands = []
    ops = []
    salt = zlib.crc32(json.dumps(case, sort_keys=True).encode())

    def new(op):
        s = op['ent']
        kind = op.get('kind') or ('plain', 'partial')[salt & 1]
        w = s['w']['t']
        foreign = {'none': None, 'what': user_what(), 'value': op.get('value', 3)}[w]
        if s['k'] == 'fn':
            o, t = function(s, kind, 'doc'), function(s, kind, 'doc')
            if foreign is not None:
                o.what = foreign
            ents.append(Ent(s, o, t, foreign))
        elif s['k'] == 'cls':
            base = object if s['base'] == 0 else ents[s['base'] - 1]
            made = []
            if w == 'what':
                def foreign(self):
                    return What('mine', {'k': 5})
            for b in ((base, base) if s['base'] == 0 else (base.obj, base.twin)):
                d = {'hello': lambda self: 'hello', '__doc__': 'doc of it'}
                if op.get('slots'):
                    d['__slots__'] = ('a', 'b', '_c')
                if foreign is not None:
                    d['what'] = foreign
                made.append(type(text(s['n']), (b,), d))
            ents.append(Ent(s, made[0], made[1], foreign))
        else:
            cls = ents[s['cls'] - 1]
            o = cls.obj()
            for k, v in s['c']:
                setattr(o, text(k), dec(v))
            if foreign is not None:
                o.what = foreign
            e = Ent(s, o, None, foreign)
            e.cls_name = text(ents[s['cls'] - 1].spec['n'])
            ents.append(e)

    def decorate(op):
        e = ents[op['e'] - 1]
        kw = {'non_id_keys': [text(k) for k in op['nonids']] or None,
              'excludes': tuple([text(k) for k in op['excl']] + ['what'])}
        if op.get('iters'):
            kw = {k: v and iter(v) for k, v in kw.items()}
        if op['custom']:
            kw['whatfunc'] = lambda x: What('custom', {'k': 6})
        if op['inplace']:
            kw['modify_func_inplace'] = True
        if op['force']:
            kw['force_flag_as_whatami'] = True
        r = whatable(**kw)(e.obj) if op.get('factory') else whatable(e.obj, **kw)
        if e.spec['k'] == 'fn' and not op['inplace']:
            op['right'] = r is not e.obj and callable(r)
            ents.append(Ent(e.spec, r, e.twin))
        else:
            op['right'] = r is e.obj
            if not op['right']:
                e.obj = r
        return 0

    def do(op):
        k = op['op']
        if k == 'new':
            return new(op)
        if k == 'decorate':
            return decorate(op)
        if k == 'set':
            setattr(ents[op['e'] - 1].obj, text(op['n']), dec(op['v']))
        elif k == 'del':
            delattr(ents[op['e'] - 1].obj, text(op['n']))
        elif k == 'ask':
            w = ents[op['e'] - 1].obj.what()
            if not isinstance(w, What):
                raise TypeError()
            hands.append(w)
        elif k == 'copy':
            e = ents[op['e'] - 1]
            made = Ent(e.spec, {'copy': copy.copy, 'deepcopy': copy.deepcopy}[op['how']](e.obj), None, e.foreign)
            made.cls_name = e.cls_name
            ents.append(made)
        elif k == 'put':
            w = hands[op['h'] - 1]
            if op.get('how') == 'conf':
                w.conf[text(op['n'])] = dec(op['v'])
            else:
                w.set(text(op['n']), dec(op['v']))
        elif k == 'drop':
            del hands[op['h'] - 1].conf[text(op['n'])]
        elif k == 'hide':
            hands[op['h'] - 1].non_id_keys.add(text(op['n']))
        elif k == 'rename':
            hands[op['h'] - 1].name = text(op['n'])

    def asked(e):
        if e.spec['k'] == 'cls':
            return {'ok': False, 'err': 'class'}
        return outcome(lambda: e.obj.what(), as_what)

    for op in case['ops']:
        op = dict(op)
        op['right'] = True
        before = len(ents)
        op['obs'] = outcome(lambda: do(op), lambda r: 0)
        op['seen'] = []
        for e in ents:
            op['seen'].append({'whatable': outcome(lambda: is_whatable(e.obj), as_bool),
                               'asked': asked(e),
                               'value': outcome(lambda: What('v', {'x': e.obj}).id(), as_text),
                               'class': codes(class_text(e.obj)) if e.spec['k'] == 'cls' else [],
                               'kept': outcome(e.kept, as_bool).get('v', False)})
        op['hands'] = [outcome(lambda: w, as_what) for w in hands]
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


NAMES = ['a', 'b', 'c', '_c', 'd_', 'k', 'x', 'name', 'conf', 'obj']
NONE = {'t': 'none', 'nonids': [], 'excl': []}


def generate(prop, rng, tier):
    g = Gen(rng, names=['p', 'q'], maxwidth=2)

    def value():
        return g.atom() if rng.random() < 0.8 else enc(dec(g.value(1)))
    for _ in range(900 * (12 if tier == 'thorough' else 1)):
        ents = []
        hands = []
        ops = []

        def foreign(k='none'):
            x = rng.random()
            return dict(NONE, t='what' if x < 0.12 else 'value' if x < 0.18 else 'none')

        def new():
            k = rng.random()
            classes = [i for i, e in enumerate(ents) if e['k'] == 'cls']
            if k < 0.35 or (k > 0.6 and not classes):
                e = {'k': 'fn', 'n': codes(rng.choice(['f', 'g', 'lambda', 'buy', 'obj'])), 'w': foreign(),
                     'c': [[codes(n), value()] for n in rng.sample([n for n in NAMES if n[0] != '_' and n[-1] != '_'], rng.randint(0, 3))]}
                op = {'op': 'new', 'ent': e, 'kind': rng.choice(['plain', 'partial'])}
            elif k < 0.6:
                base = 1 + rng.choice(classes) if classes and rng.random() < 0.7 else 0
                slots = (base == 0 or ents[base - 1]['slots']) and rng.random() < 0.2 and base == 0
                e = {'k': 'cls', 'n': codes(rng.choice(['A', 'B', 'Company', 'What'])), 'base': base, 'w': foreign(), 'slots': slots}
                if base and ents[base - 1]['slots']:
                    e['base'] = 0
                op = {'op': 'new', 'ent': e, 'slots': slots}
            else:
                c = rng.choice(classes)
                room = not ents[c]['slots']
                pool = NAMES if room else ['a', 'b', '_c']
                e = {'k': 'inst', 'cls': c + 1, 'w': foreign() if room else NONE, 'room': room,
                     'c': [[codes(n), value()] for n in rng.sample(pool, rng.randint(0, 3))]}
                op = {'op': 'new', 'ent': e}
            ents.append(e)
            ops.append(op)
        for _ in range(rng.randint(1, 3)):
            new()
        for _ in range(rng.randint(2, 14)):
            k = rng.random()
            i = rng.randrange(len(ents))
            e = ents[i]
            names = rng.sample(NAMES, rng.choice([0, 0, 1, 2]))
            if k < 0.12 and len(ents) < 8:
                new()
            elif k < 0.4 and len(ents) < 10:
                op = {'op': 'decorate', 'e': i + 1, 'nonids': [codes(n) for n in names],
                      'excl': [codes(n) for n in rng.sample(NAMES, rng.choice([0, 0, 1]))],
                      'custom': rng.random() < 0.15, 'inplace': rng.random() < 0.3, 'force': rng.random() < 0.15,
                      'factory': rng.random() < 0.5, 'iters': rng.random() < 0.2}
                ops.append(op)
                if e['k'] == 'fn' and not op['inplace']:
                    ents.append(e)
            elif k < 0.6:
                insts = [j for j, e in enumerate(ents) if e['k'] == 'inst']
                if insts:
                    j = rng.choice(insts)
                    n = rng.choice(NAMES if ents[j]['room'] else ['a', 'b', '_c'])
                    ops.append({'op': 'set', 'e': j + 1, 'n': codes(n), 'v': value()} if rng.random() < 0.7 else
                               {'op': 'del', 'e': j + 1, 'n': codes(n)})
            elif k < 0.64:
                if e['k'] == 'inst' and len(ents) < 10:
                    ops.append({'op': 'copy', 'e': i + 1, 'how': rng.choice(['copy', 'deepcopy'])})
                    ents.append(e)
            elif k < 0.82:
                if e['k'] != 'cls':
                    ops.append({'op': 'ask', 'e': i + 1})
                    hands.append(0)  # perhaps
            else:
                ops.append({'op': rng.choice(['put', 'put', 'drop', 'hide', 'rename']), 'h': 0, 'n': codes(rng.choice(NAMES)), 'v': value(),
                            'how': rng.choice(['conf', 'set'])})
        yield resolve({'ops': ops}, rng)


def resolve(case, rng):
    """Updates of hands need hands: who answers is simple enough to tell here."""
    n = 0
    ents = []
    ops = []

    def effective(i):
        e = ents[i]
        if e['k'] == 'fn':
            return e['w']
        if e['k'] == 'inst' and e['w'] != 'none':
            return e['w']
        j = e['cls'] - 1 if e['k'] == 'inst' else i
        while True:
            if ents[j]['w'] != 'none':
                return ents[j]['w']
            if not ents[j]['base']:
                return 'none'
            j = ents[j]['base'] - 1
    for op in case['ops']:
        if op['op'] == 'new':
            e = dict(op['ent'], w=op['ent']['w']['t'])
            ents.append(e)
        elif op['op'] == 'decorate':
            e = ents[op['e'] - 1]
            if e['k'] == 'fn' and not op['inplace']:
                ents.append(dict(e, w='ours'))
            elif e['w'] == 'flagged':
                continue
            elif op['force'] and effective(op['e'] - 1) == 'what' and e['k'] != 'fn':
                # The owner of the method
                j = op['e'] - 1
                while ents[j]['w'] == 'none':
                    j = (ents[j]['cls'] if ents[j]['k'] == 'inst' else ents[j]['base']) - 1
                ents[j]['w'] = 'flagged'
            elif effective(op['e'] - 1) not in ('what', 'value') and not (e['k'] == 'inst' and not e['room']):
                e['w'] = 'ours'
        elif op['op'] == 'copy':
            e = ents[op['e'] - 1]
            if e['w'] == 'ours':
                op['how'] = 'deepcopy'
            ents.append(dict(e))
        elif op['op'] == 'ask':
            if effective(op['e'] - 1) in ('ours', 'what', 'flagged'):
                n += 1
        elif op['op'] in ('put', 'drop', 'hide', 'rename'):
            if not n:
                continue
            op = dict(op, h=rng.randint(1, n))
        ops.append(op)
    return {'ops': ops}
