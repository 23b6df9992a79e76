"""Random values of the specification, encoded (see common.enc)."""
from __future__ import print_function
import copy

from common import codes, enc, dec, text, enc_str, can_disguise, DISGUISES, WHATABLES

NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'x1', 'x10', 'x2', '_p', 'q_', 'B', 'C', 'seq', 'out', 'n_jobs', 'verbose', 'Zeta',
         'nan', 'inf', 'None', 'True', 'False', 'nano', 'infra', 'Nonesuch', 'Truely', 'setup', 'frozen', 'classy', 'A1',
         'lambda', 'name', 'conf', 'out_name', 'what', 'id']
NESTED_NAMES = NAMES + ['rfc', 'PCA', 'F', 'g', 'OrderedDicty', 'setter', 'frozensetter', 'e10']
TEXTS = ['', ' ', '  ', 'a', 'b', 'A', "it's", "'", "''", '"', 'a b', ' a', 'a ', 'a,b', 'a=b', 'f(x=1)', "f(x='y')", '()',
         '[1]', '{1}', '(1,)', '1', '1.0', 'None', 'True', 'nan', 'inf', '-inf', 'set()', 'frozenset()', '{}', ':', '#',
         '\t', '\n', 'a\nb', '\r\n', u'\xf1', u'\u20ac uro', u'\U0001f600', ',', '=', ')', '(', "',b='", "')", "x'y'z",
         '*-*NoNeNoDe*-*', '<class \'int\'>', 'a#b', '%s', '{0}', u'\xa0', '\x00', 'at 0x7f', ' at 0x', '.', '-1', '1e5', u'f\udce9.txt', u'\ud83d', u'\u0661']
BSL_TEXTS = ['a\\b', 'a\\\nb', '\\n', 'c:\\d', '\\\\x', '\\ ', 'x\\,y']
INTS = [0, 1, -1, 2, 3, 10, 9, 100, -2, -10, 255, 2 ** 31, -2 ** 31 - 1, 2 ** 63, 2 ** 64, 10 ** 25, -10 ** 25, 7, 12, 99]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, -2.5, 1e16, 1e-7, 1e22, 1e300, 1.7976931348623157e308, 5e-324, 3.141592653589793,
          100.0, 123456789.123, float('inf'), float('-inf'), 2.0, 1e5, 10.0, -1e-5, 2.0 ** 63]
CLASSES = ['str', 'list', 'dict', 'object', 'Exception', 'bool', 'type', 'collections.OrderedDict', 'fractions.Fraction',
           'whatami.what.What', 'ValueError', 'common.Marked', 'common.MarkedList', 'set', 'frozenset', 'tuple', 'list', 'dict']
NUMCLASSES = ['int', 'float', 'complex']
NONE = {'t': 'none'}


def norm(v):
    return enc(dec(v))


class Gen(object):

    def __init__(self, rng, plain=True, nan=False, backslashes=True, names=None, maxwidth=3):
        self.r = rng
        self.plain = plain
        self.nan = nan
        self.backslashes = backslashes
        # N.B. names out of ASCII cannot be read back
        self.names = names or (NAMES if plain else NAMES + [u'\xf1', u'\u03a9x', u'_\u540d', u'A\xe9'])
        self.maxwidth = maxwidth

    def name(self):
        return codes(self.r.choice(self.names))

    def text_s(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            s = r.choice(TEXTS)
        elif k < 0.65 and self.backslashes:
            s = r.choice(BSL_TEXTS)
        else:
            s = ''.join(r.choice(u"ab '\",=()[]{}:#1.-\n<>x\xe9\u4e2d") for _ in range(r.randint(0, 8)))
        return s

    def text(self):
        return enc_str(self.text_s())

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return enc(r.choice(INTS))
        if k < 0.5:
            return enc(r.randint(-20, 20))
        if k < 0.85:
            return enc(r.choice(FLOATS))
        if k < 0.9 and self.nan:
            return enc(float('nan'))
        if k < 0.95 and not self.plain:
            return enc(r.choice([1j, 1 + 2j, -0.5j, complex(0, -1)]))
        return enc(float(repr(r.uniform(-100, 100))[:r.randint(4, 12)].rstrip('-e')))

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            return dict(NONE)
        if k < 0.25:
            return enc(r.random() < 0.5)
        if k < 0.55:
            return self.number()
        if k < 0.93:
            return self.text()
        return {'t': 'class', 's': codes(r.choice(CLASSES if self.plain or r.random() < 0.6 else NUMCLASSES))}

    def seq(self, f, lo=0):
        return [f() for _ in range(self.r.randint(lo, self.maxwidth))]

    def hashable(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.6:
            return self.atom()
        if k < 0.85:
            return {'t': 'tuple', 'e': self.seq(lambda: self.hashable(depth - 1))}
        return {'t': 'fset', 'e': self.seq(lambda: self.hashable(depth - 1))}

    def family(self, n):
        """Hashable values that start alike."""
        r = self.r
        k = r.random()
        if k < 0.6:
            stem, sep = r.choice(['', 'a', 'x1', '(', "'", 'long ' * r.randint(7, 30)]), r.choice([':', ',', '=', ' ', '(', ')', "'", '"', '}', '-', '1', '0', '_', u'\xe9'])
            return [enc_str(stem + sep + e) for e in r.sample(['', '0', '1', '10', '2', 'a', 'B', ':', "'", ' '], n)]
        if k < 0.75:
            return [enc(x) for x in r.sample([1, 2, 10, 11, 12, 100, -1, -2, -10, 1.5, 10.5, 0.1, 0.1 + 0.2, 0.3], n)]
        inner = self.family(n)
        first = self.atom()
        return [{'t': 'tuple', 'e': [first, x] if k < 0.9 else [x]} for x in inner]

    def pairs(self, depth):
        if self.r.random() < 0.25:
            ks = self.family(self.r.randint(2, 3))
            return [[k, self.value(depth - 1)] for k in ks]
        return self.seq(lambda: [self.hashable(depth - 1), self.value(depth - 1)])

    def value(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.25:
            return self.atom()
        if not self.plain and k < 0.45:
            j = r.random()
            if j < 0.3:
                return {'t': 'odict', 'n': codes(r.choice(['OrderedDict', 'MyOrderedDict'])), 'm': self.pairs(depth)}
            if j < 0.75:
                kind = r.choice(['list', 'tuple', 'set', 'fset', 'dict'])
                name = {'list': 'MyList', 'tuple': 'MyTuple', 'set': 'MySet', 'fset': 'MyFrozenSet', 'dict': 'MyDict'}[kind]
                inner = self.collection(kind, depth)
                return {'t': 'sub', 'n': codes(name), 'v': inner}
            return {'t': 'whatable', 'w': self.what(depth - 1)}
        if k < 0.62:
            return self.what(depth - 1)
        return self.collection(r.choice(['list', 'tuple', 'set', 'fset', 'dict']), depth)

    def collection(self, kind, depth):
        if kind in ('list', 'tuple'):
            return {'t': kind, 'e': self.seq(lambda: self.value(depth - 1))}
        if kind in ('set', 'fset'):
            if self.r.random() < 0.25:
                return {'t': kind, 'e': self.family(self.r.randint(2, 3))}
            return {'t': kind, 'e': self.seq(lambda: self.hashable(depth - 1))}
        return {'t': 'dict', 'm': self.pairs(depth)}

    def what(self, depth, params=None, nonids=True, top=False):
        r = self.r
        n = r.randint(0, self.maxwidth + (1 if top else 0)) if params is None else params
        names = r.sample(self.names, min(n, len(self.names)))
        c = [[codes(k), self.value(depth)] for k in names]
        x = []
        if nonids and r.random() < 0.4:
            x = [codes(k) for k in names if r.random() < 0.4] + ([codes('undeclared')] if r.random() < 0.3 else [])
        return {'t': 'what', 'n': codes(r.choice(NESTED_NAMES)),
                'o': enc_str(r.choice(NAMES)) if r.random() < 0.25 else dict(NONE),
                'c': c, 'x': sorted(x)}

    def deep(self, depth):
        """Narrow and deep."""
        r = self.r
        v = self.atom()
        for _ in range(depth):
            k = r.random()
            if k < 0.15:
                v = {'t': r.choice(['list', 'tuple']), 'e': [v]}
            elif k < 0.25:
                v = {'t': 'dict', 'm': [[self.atom(), v]]}
            else:
                c = [[codes(x), self.atom()] for x in r.sample(self.names, 2)]
                c[0][1] = v
                v = {'t': 'what', 'n': codes(r.choice(self.names)), 'o': dict(NONE), 'c': c[:r.choice([1, 1, 2])], 'x': []}
        return norm({'t': 'what', 'n': codes('deep'), 'o': dict(NONE), 'c': [[codes('x'), v]], 'x': []})

    def any_name(self):
        r = self.r
        return r.choice('_abcxyzABCXYZ') + ''.join(r.choice('_abcxyzABCXYZ0123456789') for _ in range(r.choice([0, 1, 2, 5, 40])))

    def many(self, n):
        """n different hashable values."""
        r = self.r
        k = r.random()
        if k < 0.3:
            vs = [enc(i) for i in range(n)]
        elif k < 0.5:
            vs = [enc_str('%s%d' % (r.choice('ab'), i)) for i in range(n)]
        elif k < 0.6:
            vs = [{'t': 'tuple', 'e': [enc(i // 4), enc(i % 4)]} for i in range(n)]
        else:
            stem = r.choice(['', 'long ' * r.randint(7, 50), u'\xe9' * 40])
            vs = [enc_str('%s%s%d' % (stem, r.choice(['', 'x', ' ', "'"]), i)) for i in range(n)]
        r.shuffle(vs)
        return vs

    def wide(self):
        """Wide, and hardly deep; or with long texts."""
        r = self.r
        n = r.randint(*r.choice([(4, 10), (5, 20), (10, 40)]))
        kind = r.choice(['what', 'what', 'what', 'what', 'list', 'tuple', 'set', 'fset', 'dict', 'dict', 'str'])

        def leaf():
            return self.value(1) if r.random() < 0.1 else self.atom()
        if kind == 'what':
            names = sorted({self.any_name() for _ in range(n)})
            r.shuffle(names)
            v = {'t': 'what', 'n': codes(self.any_name()), 'o': enc_str(self.any_name()) if r.random() < 0.2 else dict(NONE),
                 'c': [[codes(k), leaf()] for k in names],
                 'x': sorted(codes(k) for k in names if r.random() < 0.3) if r.random() < 0.3 else []}
            if r.random() < 0.6:
                return norm(v)
        elif kind == 'str':
            v = enc_str(''.join(r.choice(TEXTS[:30]) for _ in range(n * 2)))
        elif kind == 'dict':
            v = {'t': 'dict', 'm': [[k, leaf()] for k in self.many(n)]}
        elif kind in ('set', 'fset') or r.random() < 0.3:
            v = {'t': kind, 'e': self.many(n)}
        else:
            v = {'t': kind, 'e': [leaf() for _ in range(n)]}
        c = [[codes(k), self.atom()] for k in r.sample(self.names, 2)]
        c[0][1] = v
        return norm({'t': 'what', 'n': codes('wide'), 'o': dict(NONE), 'c': c[:r.choice([1, 2])], 'x': []})

    def top(self, depth=3, **kw):
        if not kw and depth > 1:
            k = self.r.random()
            if k < 0.08:
                return self.deep(self.r.randint(3, 7))
            if k < 0.16:
                return self.wide()
        return norm(self.what(depth, top=True, **kw))


# --- Variations

def permute(v, rng):
    """The same data, built in another order."""
    t = v['t']
    v = dict(v)
    if t in ('list', 'tuple'):
        v['e'] = [permute(x, rng) for x in v['e']]
    elif t in ('set', 'fset'):
        v['e'] = [permute(x, rng) for x in v['e']]
        rng.shuffle(v['e'])
    elif t in ('dict', 'odict'):
        v['m'] = [[permute(k, rng), permute(x, rng)] for k, x in v['m']]
        if t == 'dict':
            rng.shuffle(v['m'])
    elif t == 'sub':
        v['v'] = permute(v['v'], rng)
    elif t == 'what':
        v['c'] = [[k, permute(x, rng)] for k, x in v['c']]
        rng.shuffle(v['c'])
    elif t == 'whatable':
        v['w'] = permute(v['w'], rng)
    return v


def nodes(v, path=()):
    """Paths (within the encoding) to all the values in a value."""
    yield path
    t = v['t']
    if t in ('list', 'tuple', 'set', 'fset'):
        for i, x in enumerate(v['e']):
            for p in nodes(x, path + ('e', i)):
                yield p
    elif t in ('dict', 'odict'):
        for i, (k, x) in enumerate(v['m']):
            for p in nodes(x, path + ('m', i, 1)):
                yield p
            for p in nodes(k, path + ('m', i, 0)):
                yield p
    elif t == 'sub':
        for p in nodes(v['v'], path + ('v',)):
            yield p
    elif t == 'what':
        for i, (k, x) in enumerate(v['c']):
            for p in nodes(x, path + ('c', i, 1)):
                yield p
    elif t == 'whatable':
        for p in nodes(v['w'], path + ('w',)):
            yield p


def at(v, path):
    for k in path:
        v = v[k]
    return v


def put(v, path, x):
    v = copy.deepcopy(v)
    if not path:
        return x
    at(v, path[:-1])[path[-1]] = x
    return v


def disguise(v, rng, top=True, hows=tuple(DISGUISES)):
    """Nested configurations become things with such a configuration."""
    t = v['t']
    if t in ('list', 'tuple', 'set', 'fset'):
        v = dict(v, e=[disguise(x, rng, False, hows) for x in v['e']])
    elif t in ('dict', 'odict'):
        v = dict(v, m=[[disguise(k, rng, False, hows), disguise(x, rng, False, hows)] for k, x in v['m']])
    elif t == 'what':
        v = dict(v, c=[[k, disguise(x, rng, False, hows)] for k, x in v['c']])
        how = rng.choice(hows)
        if not top and rng.random() < 0.5 and can_disguise(v, how):
            v = {'t': 'whatable', 'w': v, 'how': how}
    return v


def twist(v, rng, g):
    """Something close to v, but different (almost always)."""
    t = v['t']
    r = rng
    if t == 'what':
        v = copy.deepcopy(v)
        k = r.randint(0, 7)
        if k == 0:
            v['n'] = v['n'] + codes('2')
        elif k == 1:
            v['o'] = enc_str('o') if v['o']['t'] == 'none' else dict(NONE)
        elif k == 2 and v['c']:
            v['c'].pop(r.randrange(len(v['c'])))
        elif k == 3:
            v['c'] = v['c'] + [[codes('extra'), g.atom()]]
        elif k == 4 and v['c']:
            i = r.randrange(len(v['c']))
            v['c'][i][0] = v['c'][i][0] + codes('_')
        elif k == 5 and v['c']:
            i = r.randrange(len(v['c']))
            v['c'][i][1] = g.value(1)
        elif k == 6 and len(v['c']) > 1:
            v['c'][0][1], v['c'][1][1] = v['c'][1][1], v['c'][0][1]
        elif k == 7:
            o, n = v['o'], v['n']
            if o['t'] == 'str':
                v['o'], v['n'] = {'t': 'str', 's': n}, o['s']
        return v
    if t in ('list', 'tuple', 'set', 'fset'):
        v = copy.deepcopy(v)
        k = r.randint(0, 4)
        if k == 0:
            v['t'] = r.choice(['list', 'tuple'] + (['set', 'fset'] if t in ('set', 'fset') else []))
        elif k == 1 and v['e']:
            v['e'].pop()
        elif k == 2:
            v['e'].append(g.atom())
        elif k == 3 and v['e']:
            v['e'].reverse()
        elif k == 4 and v['e']:
            return v['e'][0] if len(v['e']) == 1 else {'t': t, 'e': [{'t': 'tuple', 'e': v['e']}]}
        return v
    if t in ('dict', 'odict'):
        v = copy.deepcopy(v)
        k = r.randint(0, 3)
        if k == 0 and t == 'odict':
            return {'t': 'dict', 'm': v['m']}
        if k == 0:
            return {'t': 'odict', 'n': codes('OrderedDict'), 'm': v['m']} if not g.plain else {'t': 'list', 'e': [
                {'t': 'tuple', 'e': [a, b]} for a, b in v['m']]}
        if k == 1 and v['m']:
            v['m'].pop()
        elif k == 2:
            v['m'].append([g.atom(), g.atom()])
        elif k == 3 and len(v['m']) > 1:
            v['m'].reverse()
        return v
    if t == 'sub':
        return v['v'] if r.random() < 0.5 else dict(v, v=twist(v['v'], r, g))
    if t == 'bool':
        return enc(r.choice([int(v['b']), float(v['b']), str(v['b'])]))
    if t == 'int':
        n = int(text(v['s']))
        return r.choice([enc_str(str(n)), enc(n + 1), enc(-n)] + ([enc(float(n))] if abs(n) < 2 ** 53 else [])
                        + ([enc(bool(n))] if n in (0, 1) else []))
    if t == 'float':
        f = float(text(v['s']))
        return r.choice([enc_str(repr(f)), enc(-f)] + ([enc(int(f))] if f == f and abs(f) < 1e300 else []))
    if t == 'str':
        s = text(v['s'])
        return r.choice([enc_str(s + ' '), enc_str(' ' + s), enc_str(s + "'"), enc_str(s.strip()), enc_str(s.upper()),
                         enc_str(repr(s)), {'t': 'list', 'e': [v]}, {'t': 'tuple', 'e': [v]}, enc_str(s[:-1])])
    if t == 'none':
        return r.choice([enc_str('None'), enc(False), enc_str('')])
    if t == 'class':
        return r.choice([enc_str(text(v['s'])), enc_str("<class '%s'>" % text(v['s'])),
                         {'t': 'class', 's': codes(r.choice(CLASSES))}])
    return g.atom()


def near(v, rng, g):
    """v with some value in it twisted."""
    for _ in range(10):
        p = rng.choice(list(nodes(v)))
        w = put(v, p, twist(at(v, p), rng, g))
        try:
            return norm(w)
        except (TypeError, ValueError):  # e.g., unhashable
            continue
    return v


# --- Texts of the language: as lists of tokens

BLANKS = [' ', '  ', '\n', '\t', ' \r\n ']


class TokenGen(object):
    """Token sequences of the id language (new or old style)."""

    def __init__(self, rng, old=False):
        self.r = rng
        self.old = old

    def name(self):
        return self.r.choice(NESTED_NAMES)

    def quoted(self):
        r = self.r
        if r.random() < 0.7:
            s = r.choice([t for t in TEXTS if u'\u0661' not in t])
        else:
            s = ''.join(r.choice("ab '\",=()[]{}:#1.-\n<>") for _ in range(r.randint(0, 6)))
        return "'%s'" % s.replace("'", "\\'")

    def number(self):
        r = self.r
        return r.choice(['0', '1', '-1', '12', '007', '-0', '1.', '1.5', '-2.50', '1e5', '1E5', '1e+16', '1.5e-07', '-1.E3', 'inf',
                         '-inf', 'nan', '10', '123456789012345678901234567890', '0.1', '1e400', '-1e-400'])

    def elements(self, f, sep=',', lo=0):
        n = self.r.randint(lo, 3) if self.r.random() < 0.98 else self.r.randint(4, 14)
        out = []
        for i in range(n):
            if i:
                out.append(sep)
            out += f()
        return out

    def hashable(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.75:
            return self.atom()
        return ['('] + self.elements(lambda: self.hashable(depth - 1)) + [')']

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return ['None']
        if k < 0.2:
            return [r.choice(['True', 'False'])]
        if k < 0.5:
            return [self.number()]
        if k < 0.95 or self.old:
            return [self.quoted()]
        return ['<class ', "'%s'" % r.choice(CLASSES + NUMCLASSES + ['nosuch.mod.C', 'os.nosuch', 'Nosuch', '']), '>']

    def value(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.4:
            return self.atom()
        if k < 0.6:
            return self.what(depth - 1)
        if k < 0.7:
            return ['['] + self.elements(lambda: self.value(depth - 1)) + [']']
        if k < 0.8:
            return ['('] + self.elements(lambda: self.value(depth - 1)) + [')']
        if k < 0.87:
            return ['{'] + self.elements(lambda: self.hashable(depth - 1) + [':'] + self.value(depth - 1)) + ['}']
        if k < 0.93:
            return ['{'] + self.elements(lambda: self.hashable(depth - 1), lo=1) + ['}']
        if k < 0.96 or self.old:
            return ['set()']
        if k < 0.97:
            return ['frozenset()']
        return ['frozenset({'] + self.elements(lambda: self.hashable(depth - 1), lo=1) + ['})']

    def what(self, depth, top=False):
        r = self.r
        sep = '#' if self.old else ','
        kvs = self.elements(lambda: [self.name(), '='] + self.value(depth), sep=sep)
        name = self.name()
        if self.old:
            q = [] if top else ['"']
            return q + [name, '#'] + kvs + q
        if not top and name in ('set', 'frozenset'):
            name = 'f'
        return ([self.name(), '='] if r.random() < 0.2 else []) + [name, '('] + kvs + [')']

    def id(self, depth=3):
        return self.what(depth, top=True)

    def spread(self, tokens):
        """Blanks between tokens (two words never touch anyway)."""
        r = self.r
        p = r.choice([0.1, 0.5, 1.0])
        out = []
        for t in tokens:
            if r.random() < p:
                out.append(r.choice(BLANKS))
            out.append(t)
        if r.random() < p:
            out.append(r.choice(BLANKS))
        return out

    def damage(self, tokens):
        """Damages at the level of tokens or characters."""
        r = self.r
        tokens = list(tokens)
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.randint(0, 9)
            i = r.randrange(len(tokens)) if tokens else 0
            if k == 0 and tokens:
                tokens.pop(i)
            elif k == 1 and tokens:
                tokens.insert(i, tokens[r.randrange(len(tokens))])
            elif k == 2 and tokens:
                j = r.randrange(len(tokens))
                tokens[i], tokens[j] = tokens[j], tokens[i]
            elif k == 3:
                tokens.insert(i, r.choice(['(', ')', '[', ']', '{', '}', ',', '=', ':', '#', '"', "'", 'None', 'True', 'x', '1', ' ',
                                           '-', '.', 'set()', 'frozenset()', 'nan', "''", '<class ', '>', '\\', 'e', '})', 'f()', 'frozenset({', '{}', u'\xe9']))
            elif k == 4 and tokens:
                tokens = tokens[:i]
            elif k == 5 and tokens:
                tokens = tokens[i:]
            elif k == 6 and tokens and tokens[i]:
                s = tokens[i]
                j = r.randrange(len(s))
                tokens[i] = s[:j] + s[j + 1:]
            elif k == 7 and tokens:
                s = tokens[i]
                j = r.randint(0, len(s))
                tokens[i] = s[:j] + r.choice(u" ab1'\"(),=[]{}.-_\xe9\u4e2d") + s[j:]
            elif k == 8:
                tokens.append(r.choice([')', 'x', ',', '1', 'f()', "'", '=', '\x0b', ' x']))
            elif k == 9 and tokens:
                tokens[i] = r.choice(['None', '1', "'t'", 'x', 'f', '(', ')', 'frozenset({})', 'set({1})', 'frozenset([1])', '(,)', '[,]', '{,}', '{:}', '()', '[]', '{}'])
        return tokens
