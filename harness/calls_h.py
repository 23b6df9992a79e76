"""Capturing calls: executes the operations of spec/Calls.tla."""
from __future__ import print_function
import sys

from whatami import What
from whatami.misc import call_dict
from whatami.whatutils import call2what
from common import codes, text, outcome, enc, dec, as_text, _reraise
from gen import Gen


def updated(d, n, v):
    d = dict(d)
    d[n] = v
    return d


class Session(object):
    """The program the operations make, and what is seen while it runs."""

    def __init__(self, ops):
        self.ops = ops
        self.hands = []
        self.seen = [None] * len(ops)
        self.space = {}
        self.n = 0

    # --- Called from the program

    def capture(self, i, hand):
        """The operation i captured this."""
        self.hands.append(hand)
        self.seen[i] = {'ok': True, 'v': 0}

    def refused(self, i):
        _reraise()
        self.seen[i] = {'ok': False, 'err': sys.exc_info()[0].__name__}

    def look(self, i, variables):
        """After the operation i, the innermost call sees these variables."""
        self.ops[i]['obs'] = self.seen[i] or {'ok': True, 'v': 0}
        self.ops[i]['hands'] = [outcome(lambda: h, enc) for h in self.hands]
        self.ops[i]['ids'] = [outcome(h.id, as_text) if isinstance(h, What) else {'ok': False, 'err': ''} for h in self.hands]
        self.ops[i]['vars'] = enc(variables)

    def put(self, h, n, v):
        hand = self.hands[h - 1]
        (hand.conf if isinstance(hand, What) else hand)[n] = v

    # --- Writing the program

    def const(self, v):
        self.n += 1
        self.space['K%d__' % self.n] = v
        return 'K%d__' % self.n

    def body(self, i, variables, name):
        """Operations from i on, within a call with some variables, up to its return: (lines, next, function)"""
        lines = []

        def look(j):
            return '__s.look(%d, {%s})' % (j, ', '.join('%r: %s' % (n, n) for n in variables))
        if i:
            lines.append(look(i - 1))
        while i < len(self.ops):
            op = self.ops[i]
            k = op['op']
            if k == 'return':
                return lines, i
            if k == 'call':
                f, i2 = self.function(i)
                args = ['*%s' % self.const([dec(v) for v in op['args']]),
                        '**%s' % self.const({text(n): dec(v) for n, v in op['kws']})]
                lines.append('%s(%s)' % (f, ', '.join(args)))
                if i2 < len(self.ops):
                    lines.append(look(i2))
                i = i2 + 1
                continue
            if k == 'set':
                n = text(op['n'])
                if n not in variables:
                    variables.append(n)
                lines.append('%s = %s' % (n, self.const(dec(op['v']))))
            elif k == 'del':
                n = text(op['n'])
                variables.remove(n)
                lines.append('del %s' % n)
            elif k == 'extra':
                n = text(self.frames[-1]['kw'][0])
                lines.append('%s = __with(%s, %r, %s)' % (n, n, text(op['n']), self.const(dec(op['v']))))
            elif k == 'dict':
                a = []
                if op['depth'] != 1 or op.get('explicit'):
                    a.append('depth=%d' % op['depth'])
                if not op['default']:
                    names = [text(n) for n in op['ignores']]
                    a.append('ignores=' + self.const(iter(names) if op.get('iter') else tuple(names)))
                if op['novar'] or op.get('explicit'):
                    a.append('ignore_varargs=%s' % op['novar'])
                if op['overrides'] or op.get('explicit'):
                    a.append('overrides=' + self.const({text(n): dec(v) for n, v in op['overrides']}))
                if op['over']:
                    a.append('**' + self.const({text(n): dec(v) for n, v in op['over']}))
                lines += ['try:', '    __s.capture(%d, __cd(%s))' % (i, ', '.join(a)),
                          'except Exception:', '    __s.refused(%d)' % i]
            elif k == 'what':
                a = []
                if op['depth'] != 1 or op.get('explicit'):
                    a.append('depth=%d' % op['depth'])
                if op['nonids'] or op.get('explicit'):
                    names = [text(n) for n in op['nonids']]
                    a.append('non_id_keys=' + self.const(iter(names) if op.get('iter') else names))
                lines += ['try:', '    __s.capture(%d, __cw(%s))' % (i, ', '.join(a)),
                          'except Exception:', '    __s.refused(%d)' % i]
            elif k == 'put':
                lines.append('__s.put(%d, %r, %s)' % (op['h'], text(op['n']), self.const(dec(op['v']))))
            lines.append(look(i))
            i += 1
        return lines, i

    frames = []

    def function(self, i):
        """Defines the function that operation i calls: (how to get it, position of its return)"""
        op = self.ops[i]
        ps, star = [], False
        for p in op['sig']:
            if p['k'] == 'kwonly' and not star:
                ps.append('*' + text(op['va'][0]) if op['va'] else '*')
                star = True
            ps.append(text(p['n']) + ('=' + self.const(dec(p['d'])) if p['has'] else ''))
        if op['va'] and not star:
            ps.append('*' + text(op['va'][0]))
        if op['kw']:
            ps.append('**' + text(op['kw'][0]))
        variables = [text(p['n']) for p in op['sig']] + [text(n) for n in op['va'] + op['kw']]
        self.frames = self.frames + [op]
        lines, end = self.body(i + 1, list(variables), text(op['n']))
        self.frames = self.frames[:-1]
        if op.get('cell') and variables:
            lines.append('if 0: (lambda: (%s,))' % ', '.join(variables))
        space = dict(__s=self, __cd=call_dict, __cw=call2what, __with=updated, **self.space)
        src = 'def %s(%s):\n%s' % (text(op['n']), ', '.join(ps), ''.join('    %s\n' % l for l in lines) or '    pass\n')
        self.n += 1
        space.update((k, v) for k, v in self.space.items())
        exec(src, space)
        key = 'K%d__' % self.n
        self.space[key] = space[text(op['n'])]
        return key, end

    def run(self):
        i = 0
        while i < len(self.ops):
            f, end = self.function(i)
            op = self.ops[i]
            self.space[f](*[dec(v) for v in op['args']], **{text(n): dec(v) for n, v in op['kws']})
            if end < len(self.ops):
                self.look(end, {})
            i = end + 1


def execute(prop, case):
    ops = [dict(op) for op in case['ops']]
    Session(ops).run()
    return {'cfg': {}, 'ops': [op for op in ops if 'obs' in op]}


PARAMS = ['x', 'y', 'z', 'self', 'cls', 'depth', 'ignores', 'overrides', 'ignore_varargs', '_p', 'name', 'frame', 'args', 'kwargs', 'h']
EXTRAS = ['e1', 'e2', 'x_', 'varargs', 'frame_locals', 'call_param_value', 'obj']
CALL_DICT = ('depth', 'ignores', 'overrides', 'ignore_varargs')


def generate(prop, rng, tier):
    g = Gen(rng, names=['p', 'q'], maxwidth=2)

    def value():
        return g.atom() if rng.random() < 0.8 else enc(dec(g.value(1)))
    for _ in range(700 * (12 if tier == 'thorough' else 1)):
        stack, ops, hands = [], [], []

        def call():
            names = rng.sample(PARAMS, rng.randint(0, 5))
            if 'self' in names and rng.random() < 0.7:
                names.remove('self')
                names.insert(0, 'self')
            va = [names.pop()] if names and rng.random() < 0.3 else []
            kw = [names.pop()] if names and rng.random() < 0.4 else []
            npos = rng.randint(0, len(names)) if rng.random() < 0.3 else len(names)
            first = rng.randint(0, npos)
            sig = [{'n': codes(n), 'k': 'pos' if j < npos else 'kwonly', 'has': first <= j < npos or (j >= npos and rng.random() < 0.5)}
                   for j, n in enumerate(names)]
            for p in sig:
                p['d'] = value() if p['has'] else {'t': 'none'}
            given = rng.randint(0, npos)
            args = [value() for _ in range(given)]
            kws = [[p['n'], value()] for p in sig[given:] if not p['has'] or rng.random() < 0.4]
            if va and given == npos and rng.random() < 0.6:
                args += [value() for _ in range(rng.randint(1, 2))]
            if kw:
                kws += [[codes(n), value()] for n in rng.sample(EXTRAS + ['x1'], rng.randint(0, 3))]
            rng.shuffle(kws)
            op = {'op': 'call', 'n': codes(rng.choice(['f', 'g', 'run', '__init__', 'caller'])), 'sig': sig, 'va': [codes(n) for n in va],
                  'kw': [codes(n) for n in kw], 'args': args, 'kws': kws, 'cell': rng.random() < 0.3}
            ops.append(op)
            stack.append({'vars': [text(p['n']) for p in sig] + va + kw, 'params': [text(p['n']) for p in sig] + va + kw,
                          'fixed': va + kw, 'named': [text(p['n']) for p in sig], 'kw': kw,
                          'surplus': len(args) > npos,
                          'extras': [text(k) for k, _ in kws if text(k) not in [text(p['n']) for p in sig]]})
        call()
        for _ in range(rng.randint(3, 16)):
            k = rng.random()
            f = stack[-1]
            if k < 0.15 and len(stack) < 4:
                call()
            elif k < 0.25 and len(stack) > 1:
                ops.append({'op': 'return'})
                stack.pop()
            elif k < 0.42:
                free = [n for n in PARAMS + EXTRAS if n not in f['fixed']]
                n = rng.choice(free)
                ops.append({'op': 'set', 'n': codes(n), 'v': value()})
                if n not in f['vars']:
                    f['vars'].append(n)
            elif k < 0.46:
                local = [n for n in f['vars'] if n not in f['params']]
                if local:
                    n = rng.choice(local)
                    ops.append({'op': 'del', 'n': codes(n)})
                    f['vars'].remove(n)
            elif k < 0.5:
                if f['kw']:
                    n = rng.choice(EXTRAS)
                    ops.append({'op': 'extra', 'n': codes(n), 'v': value()})
                    f['extras'].append(n)
            elif k < 0.72:
                depth = rng.choice([1, 1, rng.randint(1, len(stack))])
                d = stack[-depth]
                default = rng.random() < 0.5
                ign = ['self', 'cls'] if default else rng.sample(PARAMS[:8] + ['nope'], rng.randint(0, 3))
                op = {'op': 'dict', 'depth': depth, 'default': default, 'ignores': [codes(n) for n in ign],
                      'novar': rng.random() < 0.6, 'iter': rng.random() < 0.3, 'explicit': rng.random() < 0.3,
                      'overrides': [[codes(n), value()] for n in rng.sample(PARAMS + EXTRAS, rng.choice([0, 0, 1, 2]))],
                      'over': [[codes(n), value()] for n in rng.sample([n for n in PARAMS + EXTRAS if n not in CALL_DICT], rng.choice([0, 0, 1, 2]))]}
                ops.append(op)
                if op['novar'] or not d['surplus']:
                    hands.append('dict')
            elif k < 0.9:
                depth = rng.choice([1, 1, rng.randint(1, len(stack))])
                d = stack[-depth]
                ops.append({'op': 'what', 'depth': depth, 'iter': rng.random() < 0.3, 'explicit': rng.random() < 0.3,
                            'nonids': [codes(n) for n in rng.sample(d['vars'] + ['nope'], rng.choice([0, 0, 1]) if not d['vars'] else rng.randint(0, 2))]})
                hands.append('what')
            elif hands:
                h = rng.randint(1, len(hands))
                ops.append({'op': 'put', 'h': h, 'n': codes(rng.choice(PARAMS + EXTRAS)), 'v': value()})
        yield {'ops': ops}
