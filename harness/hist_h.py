"""Histories of parses: executes the operations of spec/ParserHist.tla.

Each history takes place in a process of its own, forked before anything was parsed."""
from __future__ import print_function
import json
import os
import re
import sys
import traceback

import whatami
from whatami import What, parse_whatid, parsers
from whatami.whatutils import id2what, oldid2what, id2whatami4, id2dict
from arpeggio import PTNodeVisitor
from common import enc, dec, codes, text, outcome, env_of, enc_what, Unencodable, with_timeout, Timeout

NONE = {'t': 'none'}

# --- What is parsed: for the default parser, texts only

TEXTS = {
    'ok_num': 'f(a=1)',
    'ok_num2': 'f(a=1)',
    'ok_deep': "o=f(a=[1,2,[3]],b={'k':(1,[2])},c=None,d=g(e=[1],s='x y'))",
    'ok_text': "f(s='it\\'s')",
    'ok_sets': "f(a={1,2},b=frozenset({'x'}),c=set(),d=frozenset(),e={},g=[])",
    'ok_class': "f(a=<class 'str'>,b=<class 'collections.OrderedDict'>)",
    'ok_unknown_class': "f(a=<class 'nosuch.module.Class'>)",
    'ok_blanks': " f ( a = 1 , b = [ 2 , 3 ] ) ",
    'ok_inner_blanks': "f(a=' x  y ',b='\t\n')",
    'ok_floats': 'f(a=nan,b=inf,c=-inf,d=1.5e3,e=-0.0)',
    'ok_empty': 'rfc()',
    'ok_shared': 'f(a=[1],b=[1],c=g(d=[1]),e=g(d=[1]))',
    'ok_literals': "f(a=None,b=True,c=False,d='None',nan=1,inf=set())",
    'ok_marker': "f(a='*-*NoNeNoDe*-*',b=None)",
    'ok_out': 'x=f(a=y=g())',
    'no_empty': '',
    'no_open': 'f(',
    'no_open2': 'f(a=[1,(2',
    'no_close': 'f(a=1))',
    'no_name': '(a=1)',
    'no_sep': 'f(a=1 b=2)',
    'no_quote': "f(a='x)",
    'no_value': 'f(a=)',
    'no_trailing': 'f(a=1) g',
    'no_number': '1',
    'no_old': 'A#x=1',
    'no_old2': 'out=A#x=[1]#y="B#z=None"',
    'no_old3': 'A',
    'no_old4': 'A#',
    'ok_both': 'A()',
    'odd_set': 'f(a={[1]})',
    'odd_dict': 'f(a=1,b={[1]:2})',
    'odd_deep': "o=f(a=g(b=[1,{{1}}]),c='x')",
}

OBJECTS = {'not_none': None, 'not_int': 5, 'not_bytes': b'f()', 'not_list': ['f()'], 'not_what': What('f', {'a': 1})}


class Names(PTNodeVisitor):
    """A visitor of the user: collects the names in the id."""
    def __init__(self):
        super(Names, self).__init__(defaults=True)
        self.names = []

    def visit_an_id(self, node, _):
        self.names.append(node.value)
        return node.value

    def visit_whatami_id_top(self, *_):
        return list(self.names)


class Doubler(parsers.WhatamiTreeVisitor):
    """A visitor that makes something else of the numbers."""
    @staticmethod
    def visit_a_number(node, _):
        return int(node.value) * 2


class Fails(parsers.WhatamiTreeVisitor):
    def __init__(self, e):
        super(Fails, self).__init__()
        self.e = e

    def visit_a_number(self, *_):
        raise self.e('on purpose')


class Reenters(parsers.WhatamiTreeVisitor):
    """A visitor that parses while visiting."""
    @staticmethod
    def visit_a_string(node, _):
        s = parsers.WhatamiTreeVisitor.visit_a_string(node, _)
        try:
            return parse_whatid(s)
        except Exception:
            return 'cannot: ' + s


KEPT = {}


def kept(what, make):
    """Something the user builds once and uses again."""
    if what not in KEPT:
        KEPT[what] = make()
    return KEPT[what]


def first_parser():
    return parsers.DEFAULT_WHATAMI_PARSER


USED = [parsers.DEFAULT_WHATAMI_PARSER, parsers.DEFAULT_WHATAMI_VISITOR]  # got hold of before anything else

OTHERS = {
    'via_id2what': lambda: id2what("f(a=[1],b='x')"),
    'via_id2what_no': lambda: id2what('f(a=[1]'),
    'via_id2dict': lambda: id2dict("o=f(a=[1],b=g(c={}))"),
    'via_id2dict_no': lambda: id2dict("o=f(a=[1],b=g(c={})"),
    'old': lambda: oldid2what('out=A#x=1#y="B#z=[2]"'),
    'old_no': lambda: oldid2what('out=A#x=1#y="B#z=[2]'),
    'old_odd': lambda: oldid2what('A#x={[1]}'),
    'old_twice': lambda: oldid2what('out=A#out=1'),
    'old_not': lambda: oldid2what(None),
    'old_new': lambda: id2whatami4('A#x=1#y="B#z=[2]"'),
    'old_new_no': lambda: id2whatami4('f(a=1)'),
    'own_parser': lambda: parse_whatid('f(a=[1],b=g())', parser=parsers.build_whatami_parser()),
    'own_parser_no': lambda: parse_whatid('f(a=[1],b=g()', parser=parsers.build_whatami_parser()),
    'own_parser_odd': lambda: parse_whatid('f(a={[1]})', parser=kept('own', parsers.build_whatami_parser)),
    'own_parser_not': lambda: parse_whatid(None, parser=kept('own', parsers.build_whatami_parser)),
    'kept_parser': lambda: parse_whatid('f(a=[1],b=g())', parser=kept('own', parsers.build_whatami_parser)),
    'kept_parser_no': lambda: parse_whatid('f(a=[1],b=g()', parser=kept('own', parsers.build_whatami_parser)),
    'old_parser': lambda: parse_whatid('f(a=1)', parser=kept('oldp', parsers.build_oldwhatami_parser)),
    'reduced': lambda: parse_whatid('f(a=[1,2])', parser=parsers.build_whatami_parser(reduce_tree=True)),
    'first_parser': lambda: parse_whatid('f(a=[1],c=None)', parser=USED[0]),
    'first_parser_no': lambda: parse_whatid('f(a=[1],c=None', parser=USED[0]),
    'first_parser_odd': lambda: parse_whatid('f(a={[1]})', parser=USED[0]),
    'first_visitor': lambda: parse_whatid('f(a=[1],c=None)', visitor=USED[1]),
    'names': lambda: parse_whatid('f(a=1,b=g(c=2))', visitor=Names()),
    'doubler': lambda: parse_whatid('f(a=1,b=g(c=[2]))', visitor=Doubler()),
    'kept_doubler': lambda: parse_whatid('f(a=1,b=g(c=[2]))', visitor=kept('doubler', Doubler)),
    'fails_type': lambda: parse_whatid('f(a=[1],b=g(c=2))', visitor=Fails(TypeError)),
    'fails_value': lambda: parse_whatid('f(a=[1],b=g(c=2))', visitor=Fails(ValueError)),
    'fails_key': lambda: parse_whatid('f(a=[1],b=g(c=2))', visitor=Fails(KeyboardInterrupt)),
    'fails_own': lambda: parse_whatid('f(a=[1])', parser=parsers.build_whatami_parser(), visitor=Fails(TypeError)),
    'reenters': lambda: parse_whatid("f(a='g(x=1)',b='nothing(',c='h(y={[1]})',d=[3])", visitor=Reenters()),
}

# The same texts, parsed in other ways: what comes of it must not show when parsing in the usual way, nor the other way round
WAYS = {
    'old': lambda s: oldid2what(s),
    'dict': lambda s: id2dict(s),
    'own': lambda s: parse_whatid(s, parser=parsers.build_whatami_parser()),
    'kept': lambda s: parse_whatid(s, parser=kept('own', parsers.build_whatami_parser)),
    'oldp': lambda s: parse_whatid(s, parser=kept('oldp', parsers.build_oldwhatami_parser)),
    'names': lambda s: parse_whatid(s, visitor=Names()),
    'doubler': lambda s: parse_whatid(s, visitor=kept('doubler', Doubler)),
    'fails': lambda s: parse_whatid(s, visitor=Fails(ValueError)),
    'first': lambda s: parse_whatid(s, parser=USED[0], visitor=USED[1]),
    'new': lambda s: id2whatami4(s),
}
PAIRS = [t + '@' + w for t in sorted(TEXTS) for w in sorted(WAYS)]

KINDS = sorted(TEXTS) + sorted(OBJECTS) + sorted(OTHERS)


def text_of(kind):
    """The text of kinds that are just a text for the default parser, None for other kinds."""
    if kind.startswith('T:'):
        return text([int(c) for c in kind[2:].split(',')])
    return TEXTS.get(kind)


def near(s, rng):
    """Texts that are almost s: what is told of one must not show in what is told of the other."""
    def at(pattern, change):
        found = list(re.finditer(pattern, s))
        if not found:
            return s
        m = rng.choice(found)
        return s[:m.start()] + change(m.group(0)) + s[m.end():]
    return rng.choice([
        lambda: at(r'[ \t\n]+', lambda x: rng.choice([x + ' ', ' ' if x != ' ' else '\t', x + x])),
        lambda: at(r"'[^'\\]*'", lambda x: rng.choice(["' " + x[1:], x[:-1] + " '", x[:2] + ' ' + x[2:] if len(x) > 2 else "' '"])),
        lambda: at(r'[A-Za-z]', lambda x: x.swapcase()),
        lambda: at(r'\d+', lambda x: rng.choice([x + '.0', x + '.', '0' + x, '-' + x, x + 'e0', "'%s'" % x, 'True'])),
        lambda: at(r'True|False|None', lambda x: rng.choice(["'%s'" % x, x.lower(), x + '_', '1', '0'])),
        lambda: at(u'e\u0301|[\xe9\xdfI]', lambda x: {u'\xe9': u'e\u0301', u'e\u0301': u'\xe9', u'\xdf': u'ss', u'I': u'\u0130'}[x]),
        lambda: at(r"\\'", lambda x: rng.choice(["\\\\\\'", '"', ''])),
        lambda: at(r'[,=():\[\]{}]', lambda x: rng.choice(['', x + x, ' ' + x, x + ' ', ';'])),
        lambda: s + rng.choice([' ', ')', ',', '\n', 'x']),
        lambda: at(r'\[', lambda x: '('),
        lambda: s.replace('[', '(').replace(']', ')'),
        lambda: s.replace('(', '[').replace(')', ']'),
    ])()


def call(kind, how=''):
    if text_of(kind) is not None:
        s = text_of(kind)
        if how == 'id2what':
            return id2what(s)
        if how == 'copy':  # an equal text, another object
            s = ''.join(list(s))
        return parse_whatid(s)
    if '@' in kind:
        t, w = kind.split('@')
        return WAYS[w](TEXTS[t])
    if kind in OBJECTS:
        return parse_whatid(OBJECTS[kind])
    return OTHERS[kind]()


def project(r):
    return enc(r)


def change(v):
    """Changes in place everything that can be."""
    if isinstance(v, (list, tuple)):
        for x in v:
            change(x)
        if isinstance(v, list):
            v.append(9)
    elif isinstance(v, set):
        v.add('poked')
    elif isinstance(v, dict):
        for x in v.values():
            change(x)
        v['poked'] = 9
    elif isinstance(v, What):
        for x in v.conf.values():
            change(x)
        v.conf['poked'] = 9
        v.name += '_'
        v.non_id_keys.add('poked')


def forked(f):
    """f() in a forked process: its result as JSON."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = json.dumps({'res': f()})
            except Timeout:
                res = json.dumps({'timeout': True})
            except BaseException:
                res = json.dumps({'crash': traceback.format_exc()})
            with os.fdopen(w, 'w') as g:
                g.write(res)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as g:
            data = g.read()
    finally:
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise Exception('a parse took the process down')
    d = json.loads(data)
    if 'timeout' in d:
        raise Timeout()
    if 'crash' in d:
        raise Exception(d['crash'])
    return d['res']


FRESH = {}


def fresh(kind):
    if kind not in FRESH:
        FRESH[kind] = forked(lambda: outcome(lambda: call(kind), project))
    return FRESH[kind]


def history(ops):
    results = []
    res = []
    for op in ops:
        op = dict(op)
        if op['op'] == 'parse':
            def keep(r):
                e = project(r)
                results.append(r)
                return e
            kind = op['kind']
            op['obs'] = outcome(lambda: call(kind, op.get('how', '')), keep)
            op['meaning'] = text_of(kind) is not None
            if op['meaning']:
                op['s'] = codes(text_of(kind))
                op['env'] = env_of(text_of(kind))
        else:
            if results:
                change(results[(op['i'] - 1) % len(results)])
            op['obs'] = {'ok': True, 'v': NONE}
        op['results'] = [project(r) for r in results]
        res.append(op)
    return res


def execute(prop, case):
    kinds = sorted({op['kind'] for op in case['ops'] if op['op'] == 'parse'})
    table = [[k, fresh(k)] for k in kinds]
    ops = forked(lambda: history(case['ops']))
    return {'cfg': {'fresh': table}, 'ops': ops}


def related(rng):
    """A few texts and ways of parsing them."""
    res = []
    for t in rng.sample(sorted(TEXTS), rng.randint(1, 2)):
        res += [t] + [t + '@' + w for w in rng.sample(sorted(WAYS), rng.randint(1, 3))]
    return res


def generate(prop, rng, tier):
    for k in KINDS:
        yield {'ops': [{'op': 'parse', 'kind': k}, {'op': 'change', 'i': 1}, {'op': 'parse', 'kind': k}, {'op': 'change', 'i': 2},
                       {'op': 'parse', 'kind': 'ok_deep'}, {'op': 'parse', 'kind': 'no_open2'}, {'op': 'parse', 'kind': k}]}
    for p in PAIRS:
        t = p.split('@')[0]
        before, after = {'op': 'parse', 'kind': p}, {'op': 'parse', 'kind': t, 'how': rng.choice(['', 'copy', 'id2what'])}
        first = rng.random() < 0.3
        yield {'ops': [after, before, {'op': 'change', 'i': 1}, before, after] if first else [before, after, {'op': 'change', 'i': 1}, before, after]}
    for _ in range(250 * (12 if tier == 'thorough' else 1)):
        base = rng.choice([TEXTS[t] for t in sorted(TEXTS) if TEXTS[t]])
        if rng.random() < 0.4:
            base = u"f(s='%s',n=%s)" % (rng.choice([u'x y', u'\xe9', u'I \xdf', u'e\u0301', u"it\\'s", u'True', u'1', u'a  b', u'A']), rng.choice(['1', '1.0', 'True', '[1, 2]', '{1}', 'g(x=1)']))
        few = [base]
        for _ in range(rng.choice([1, 2, 3])):
            few.append(near(rng.choice(few), rng))
        few = ['T:' + ','.join(map(str, codes(s))) for s in few if s]
        ops = []
        for _ in range(rng.choice([4, 6, 9])):
            if rng.random() < 0.15:
                ops.append({'op': 'change', 'i': rng.randint(1, 5)})
            else:
                ops.append({'op': 'parse', 'kind': rng.choice(few), 'how': rng.choice(['', '', 'copy', 'id2what'])})
        yield {'ops': ops}
    for _ in range(150 * (20 if tier == 'thorough' else 1)):
        ops = []
        few = rng.choice([rng.sample(KINDS, rng.randint(2, 6)), related(rng)]) if rng.random() < 0.5 else KINDS + PAIRS
        for _ in range(rng.randint(3, 14)):
            if rng.random() < 0.2:
                ops.append({'op': 'change', 'i': rng.randint(1, 5)})
            else:
                ops.append({'op': 'parse', 'kind': rng.choice(few), 'how': rng.choice(['', '', 'copy', 'id2what'])})
        yield {'ops': ops}
