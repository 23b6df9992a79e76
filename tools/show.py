"""Shows a replay file (or a case) in Python notation."""
import json
import sys


def s(cs):
    return ''.join(map(chr, cs))


def show(v):
    if isinstance(v, dict) and 't' in v and isinstance(v['t'], str):
        t = v['t']
        if t == 'none':
            return 'None'
        if t == 'bool':
            return str(v['b'])
        if t in ('int', 'float', 'cplx', 'class', 'opaque'):
            return s(v['s']) if t != 'class' else '<class %s>' % s(v['s'])
        if t == 'str':
            return repr(s(v['s']))
        if t in ('list', 'tuple', 'set', 'fset'):
            return t + '[' + ', '.join(map(show, v['e'])) + ']'
        if t in ('dict', 'odict'):
            return t + '{' + ', '.join('%s: %s' % (show(a), show(b)) for a, b in v['m']) + '}'
        if t == 'sub':
            return s(v['n']) + '(' + show(v['v']) + ')'
        if t == 'what' and 'o' in v:
            return 'What(%s=%s, {%s}, non_ids=%s)' % (show(v['o']), s(v['n']), ', '.join('%s: %s' % (s(k), show(x)) for k, x in v['c']),
                                                     [s(x) for x in v['x']])
        if t == 'whatable':
            return 'Whatable(%s)' % show(v['w'])
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k, show(x)) for k, x in v.items()) + '}'
    if isinstance(v, list):
        if len(v) > 0 and all(isinstance(x, int) for x in v):
            return repr(s(v)) if all(9 <= x for x in v) else repr(v)
        return '[' + ', '.join(map(show, v)) + ']'
    return repr(v)


for f in sys.argv[1:]:
    d = json.load(open(f))
    if 'case' in d:
        print('---', f, d.get('clause'), 'step', d.get('step'))
        ops = d['case']['ops']
        if d.get('step') is not None and d['step'] <= len(ops) and d['step'] > 0 and 'cfg' not in d['case']:
            ops = [ops[d['step'] - 1]]
        for op in ops:
            print('  ', show(op))
