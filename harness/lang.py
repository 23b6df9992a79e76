"""The stateless part of the library: executes the operations of spec/Lang.tla."""
from __future__ import print_function
import copy
import pickle
import random
from collections import OrderedDict
from functools import partial

import whatami
from whatami import What, whatareyou, parse_whatid, is_whatable
from whatami.whatutils import (what2id, id2what, id2dict, obj2what, sort_whats, sort_whatids, match_whatids, whatid2columns,
                               oldid2what, id2whatami4, whatvalues)
from common import (enc, dec, codes, text, outcome, as_text, as_bool, as_what, env_of, env_of_all, enc_str, key_codes,
                    WhatableProbe, WHATABLES)
import gen
from gen import Gen, TokenGen, norm, disguise, permute, near, nodes, at, put, twist

NONE = {'t': 'none'}


# --- Executing operations

def build(v, how='plain'):
    w = dec(v)
    if how == 'deepcopy':
        return copy.deepcopy(w)
    if how == 'copy':
        return w.copy()
    if how == 'deep':
        return w.copy(deep=True)
    return w


def call(f, op, salt, *named):
    """Calls f with named: (name, default, value), in the order of its parameters: by name, by position or leaving the defaults."""
    how = (len(repr(op)) + salt) % 3
    if how == 0:
        return f(**{n: v for n, _, v in named})
    if how == 1:
        return f(**{n: v for n, d, v in named if v is not d})
    return f(*[v for _, _, v in named])


def do_id(op):
    how = op.get('how', 'plain')
    w = build(op['v'], how)
    if how == 'str':
        return dict(op, obs=outcome(lambda: str(w), as_text))
    if how == 'again':
        outcome(lambda: w.id(nonids_too=not op['nonids']))
        outcome(lambda: w.id(nonids_too=op['nonids']))
    return dict(op, obs=outcome(lambda: call(w.id, op, 0, ('nonids_too', False, op['nonids'])), as_text))


def do_posid(op):
    w = build(op['v'])
    return dict(op, obs=outcome(lambda: call(w.positional_id, op, 0, ('non_ids_too', False, op['nonids'])), as_text))


def do_short(op):
    w = build(op['v'])
    if op['kind'] == 'id':
        return dict(op, obs=outcome(lambda: call(w.id, op, 0, ('nonids_too', False, op['nonids']), ('maxlength', 0, op['max'])), as_text))
    return dict(op, obs=outcome(lambda: call(w.positional_id, op, 0, ('non_ids_too', False, op['nonids']), ('maxlength', 0, op['max'])), as_text))


def do_render(op):
    from whatami.plugins import WhatamiPluginManager
    v = dec(op['v'])
    return dict(op, obs=outcome(lambda: WhatamiPluginManager.build_string(v), as_text))


def do_direct(op):
    v = dec(op['v'])
    f = {'whatareyou': lambda: whatareyou(v).id(), 'what2id': lambda: what2id(v), 'obj2what': lambda: obj2what(v).id()}[op['route']]
    return dict(op, obs=outcome(f, as_text))


def do_inj(op):
    if op['direct']:
        return dict(op, ids=[outcome(lambda: what2id(dec(v)), as_text) for v in op['vs']])
    return dict(op, ids=[outcome(lambda: dec(v).id(nonids_too=False), as_text) for v in op['vs']])


def do_parse(op):
    s = text(op['s'])
    return dict(op, env=env_of(s), obs=outcome(lambda: parse_whatid(s), as_what))


def do_roundtrip(op):
    w = build(op['v'])
    i = outcome(lambda: w.id(nonids_too=op['nonids']), as_text)
    if not i['ok']:
        return dict(op, id=i, parsed=i, id2=i)
    s = text(i['v'])
    p = outcome(lambda: id2what(s), as_what)
    return dict(op, id=i, parsed=p, id2=outcome(lambda: id2what(s).id(), as_text))


def do_same(op):
    return dict(op,
                a=outcome(lambda: parse_whatid(text(op['s1'])), as_what),
                b=outcome(lambda: parse_whatid(text(op['s2'])), as_what))


def flags(op):
    return ('non_ids_too', False, op['nonids']), ('collections_too', False, op['colls']), ('recursive', True, op['rec'])


SCALARS = ('str', 'int', 'bool', 'float', 'none')


def refilled(v):
    """The same configuration, its dictionaries filled and its parameters given in the opposite order."""
    if isinstance(v, list):
        return [refilled(x) for x in v]
    if not isinstance(v, dict):
        return v
    r = {k: refilled(x) for k, x in v.items()}
    if v.get('t') == 'dict' and all(k['t'] in SCALARS and text(k.get('s', [])) != 'nan' for k, _ in v['m']):
        r['m'] = r['m'][::-1]
    if v.get('t') == 'what':
        r['c'] = r['c'][::-1]
    return r


def do_flatten(op):
    w = build(op['v'])
    both = outcome(lambda: call(w.flatten, op, 0, *flags(op)), lambda r: (enc(list(r[0])), enc(list(r[1]))))
    k = dict(both, v=both['v'][0]) if both['ok'] else both
    v = dict(both, v=both['v'][1]) if both['ok'] else both
    return dict(op, keys=k, values=v,
                keys2=outcome(lambda: call(w.keys, op, 1, *flags(op)), lambda r: enc(list(r))),
                keys3=outcome(lambda: build(refilled(op['v'])).keys(op['nonids'], op['colls'], op['rec']), lambda r: enc(list(r))),
                values2=outcome(lambda: call(w.values, op, 2, *flags(op)), lambda r: enc(list(r))))


def do_get(op):
    w = build(op['v'])
    k = dec(op['key'])
    d = dec(op['default'])
    return dict(op, item=outcome(lambda: w[k], enc), get=outcome(lambda: call(partial(w.get, k), op, 0, ('default', None, d)), enc))


def do_eq(op):
    a, b = dec(op['a']), dec(op['b'])
    return dict(op, eq=outcome(lambda: a == b, as_bool), qe=outcome(lambda: b == a, as_bool), ne=outcome(lambda: a != b, as_bool))


class HasName(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def foreign(kind, w):
    return {'none': lambda: None, 'int': lambda: 1, 'text': lambda: w.id(), 'name': lambda: w.name, 'dict': lambda: dict(w.conf),
            'list': lambda: [], 'object': lambda: object(), 'class': lambda: What, 'tuple': lambda: (w.name, w.conf),
            'hasname': lambda: HasName(name=w.name), 'hasnameconf': lambda: HasName(name=w.name, conf=w.conf),
            'hasconf': lambda: HasName(conf=w.conf, out_name=w.out_name), 'hasnameout': lambda: HasName(name=w.name, out_name=w.out_name),
            'float': lambda: float('nan'), 'function': lambda: foreign, 'set': lambda: set(), 'probe': lambda: WhatableProbe(w)}[kind]()


def do_foreign(op):
    w = dec(op['v'])
    o = foreign(op['kind'], w)
    return dict(op, eq=outcome(lambda: w == o, as_bool), ne=outcome(lambda: w != o, as_bool))


def iterable(kind, values):
    return {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda v: (x for x in v), 'set': lambda v: set(v),
            'dictkeys': lambda v: {x: 0 for x in v}.keys(), 'fset': frozenset}[kind](values)


NOTHING = ()


def do_match(op):
    ids = [text(s) for s in op['ids']]
    tmpl = text(op['tmpl'])
    ignored = [dec(k) for k in op['ignored']]
    return dict(op, env=env_of_all(ids + [tmpl]),
                obs=outcome(lambda: call(partial(match_whatids, iterable(op.get('idskind', 'list'), ids), tmpl), op, 0,
                                         ('ignored_keys', NOTHING, iterable(op.get('kind', 'list'), ignored) if ignored or len(ids) % 2 else NOTHING),
                                         ('non_ids_too', False, len(ids) % 3 == 0),  # parsed ids have none
                                         ('collections_too', False, op['colls']), ('recursive', True, op['rec'])),
                            lambda r: [as_text(s) for s in r]))


def do_sort(op):
    ids = [text(s) for s in op['ids']]
    keys = [dec(k) for k in op['keys']]
    env = env_of_all(ids)
    if op['route'] == 'ids':
        items = ids

        def position(x, used):
            return next(i for i, y in enumerate(items) if i not in used and y == x)
        f = sort_whatids
    else:
        items = [parse_whatid(s) for s in ids]

        def position(x, used):
            return next(i for i, y in enumerate(items) if y is x)
        f = sort_whats

    def project(r):
        xs, vals = r
        used = []
        for x in xs:
            used.append(position(x, used))
        return {'perm': [i + 1 for i in used], 'vals': {'t': 'tuple', 'e': [enc(tuple(v)) for v in vals]}}
    def go():
        if op['route'] == 'ids':
            alter([list(vals) for vals in f(items, *keys)[1]])
        return f(items, *keys)
    o = outcome(go, project)
    if o['ok']:
        o = dict(o.pop('v'), ok=True)
    return dict(op, env=env, obs=o)


def frame_of(df):
    return {'index': [enc(i) for i in df.index], 'cols': [[key_codes(c), [enc(x) for x in df[c]]] for c in df.columns]}


def do_columns(op):
    import pandas as pd
    ids = [text(s) for s in op['ids']]
    df = pd.DataFrame({'whatid': ids}, columns=['whatid'], dtype=object)
    for c, vals in op['others']:
        df[text(c)] = [dec(v) for v in vals]
    if op['first']:  # the column with the ids does not need to be the first
        df = df[[c for c in df.columns if c != 'whatid'] + ['whatid']]
    df.index = [dec(i) for i in op['index']]
    before = frame_of(df)
    keys = [dec(k) for k in op['keys']]

    kw = {} if op.get('defaults') else {'prefix': None if op.get('nofix') else text(op['prefix']),
                                        'postfix': None if op.get('nofix') else text(op['postfix'])}
    res = []

    def go():
        if not (op['all'] and op.get('defaults')):
            kw['columns'] = None if op['all'] else keys
        if not (op['inplace'] and op.get('defaults')):
            kw['inplace'] = op['inplace']
        # What others do with their columns is not seen here
        alter([list(other[c]) for other in [whatid2columns(df.copy(), 'whatid', **kw)] for c in list(other.columns)[len(df.columns):]])
        r = whatid2columns(df, 'whatid', **kw)
        res.append(r)
        return frame_of(r)
    o = outcome(go)
    ok = o['ok']
    return dict(op, env=env_of_all(ids), before=before, obs=dict(o, v=0) if ok else o, after=o['v'] if ok else before,
                same=bool(res and res[0] is df), given=frame_of(df))


def do_old(op):
    s = text(op['s'])
    out = dict(op, env=env_of(s, old=True), what=outcome(lambda: again(lambda: oldid2what(s)), as_what),
               conv=outcome(lambda: id2whatami4(s), as_text))
    back = out['conv']
    if back['ok']:
        new = text(back['v'])
        back = outcome(lambda: parse_whatid(new), as_what)
    return dict(out, back=back)


def do_plain(op):
    w = dec(op['v'])
    return dict(op, dict=outcome(lambda: again(lambda: w.to_dict(nonids_too=op['nonids']) if op['nonids'] else w.to_dict()), enc),
                iddict=outcome(lambda: again(lambda: id2dict(w.id(nonids_too=op['nonids']))), enc))


def again(f):
    """What f gives the second time, when all that could be altered in what it gave before was."""
    alter(f())
    return f()


def alter(v, seen=None):
    """Alters all that can be altered in v."""
    if isinstance(v, What):
        for x in list(v.conf.values()):
            alter(x)
        v.conf['altered'] = 1
        v.non_id_keys.add('altered')
        v.name, v.out_name = 'altered', 'altered'
    elif isinstance(v, dict):
        for x in list(v.values()):
            alter(x)
        v['altered'] = 1
    elif isinstance(v, (list, tuple)):
        for x in v:
            alter(x)
        if isinstance(v, list):
            v.append('altered')
    elif isinstance(v, set):
        v.add('altered')


AGAIN = {'repr': lambda w: eval(repr(w), {'What': What, 'OrderedDict': OrderedDict, 'nan': float('nan'), 'inf': float('inf')}),
         'pickle': lambda w: pickle.loads(pickle.dumps(w, -1)),
         'pickle2': lambda w: pickle.loads(pickle.dumps(w, 2)),
         'copy': copy.copy,
         'deepcopy': copy.deepcopy,
         'deep': lambda w: w.copy(deep=True)}


def do_again(op):
    back = []
    for how in sorted(AGAIN):
        w = dec(op['v'])
        made = []

        def go():
            made.append(AGAIN[how](w))
            return made[0]
        o = outcome(go, as_what)
        r = {'how': how, 'obs': o, 'id': outcome(lambda: made[0].id(), as_text), 'long': outcome(lambda: str(made[0]), as_text)}
        if made and o['ok'] and how != 'copy':
            alter(made[0])
        back.append(dict(r, after=enc(w)))
    return dict(op, back=back)


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith('do_')}


def execute(prop, case):
    if any(op['op'] in ROUTE_OPS for op in case['ops']):
        import routes
        OPS.update(routes.OPS)
    return {'cfg': {}, 'ops': [OPS[op['op']](op) for op in case['ops']]}


ROUTE_OPS = ('routes', 'verbatim', 'iswhatable', 'experiment', 'ownid', 'broken')


# --- Generating operations

def case(*ops):
    return {'ops': list(ops)}


def real_id(v):
    """An id text for v, straight from the library (only used to make inputs)."""
    try:
        return dec(v).id()
    except Exception:
        return 'f()'


SIZES = {'quick': 2, 'thorough': 20}


def generate(prop, rng, tier):
    n = SIZES.get(tier, 1)
    return GENERATORS[prop](rng, n)


def g_C01(rng, n):
    g = Gen(rng, plain=False, nan=True)
    for i in range(1200 * n):
        v = g.top(rng.choice([1, 2, 2, 3, 4]))
        if rng.random() < 0.25:
            v = disguise(v, rng)
        ops = [{'op': 'id', 'v': v, 'nonids': rng.random() < 0.3, 'how': rng.choice(['plain', 'again', 'deepcopy', 'copy', 'deep'])},
               {'op': 'id', 'v': permute(v, rng), 'nonids': rng.random() < 0.2}]
        if i % 3 == 0:
            ops.append({'op': 'render', 'v': norm(g.value(3))})
        yield case(*ops)


def g_C02(rng, n):
    g = Gen(rng, nan=True)
    for _ in range(900 * n):
        v = g.top(rng.choice([1, 2, 3, 4]))
        yield case({'op': 'roundtrip', 'v': disguise(v, rng) if rng.random() < 0.25 else v, 'nonids': rng.random() < 0.3})


def g_C03(rng, n):
    t = TokenGen(rng)
    for _ in range(700 * n):
        toks = t.id(rng.choice([1, 2, 3]))
        ops = [{'op': 'parse', 's': codes(''.join(toks))},
               {'op': 'same', 's1': codes(''.join(toks)), 's2': codes(''.join(t.spread(toks)))}]
        for _ in range(4):
            bad = t.damage(toks)
            ops.append({'op': 'parse', 's': codes(''.join(t.spread(bad) if rng.random() < 0.3 else bad))})
        # meaningless texts (unhashable members) have no reading that blanks could preserve
        if not _same_ok(toks):
            ops.pop(1)
        yield case(*ops)


def _same_ok(toks):
    try:
        parse_whatid(''.join(toks))
        return True
    except TypeError:
        return False
    except Exception:
        return True


def g_C04(rng, n):
    g = Gen(rng, plain=False, nan=True)
    for i in range(500 * n):
        direct = i % 4 == 0
        if direct:
            base = norm(g.collection(rng.choice(['list', 'tuple', 'set', 'fset', 'dict']), 2))
            k = rng.random()
            if k < 0.3:
                base = norm({'t': 'odict', 'n': codes('OrderedDict'), 'm': g.pairs(2)})
            elif k < 0.6:
                name = {'list': 'MyList', 'tuple': 'MyTuple', 'set': 'MySet', 'fset': 'MyFrozenSet', 'dict': 'MyDict'}[base['t']]
                base = {'t': 'sub', 'n': codes(name), 'v': base}
        else:
            base = g.top(rng.choice([1, 2, 3]))
        vs = [base, permute(base, rng)]
        for _ in range(5):
            w = near(rng.choice(vs), rng, g)
            if rng.random() < 0.2:
                w = disguise(w, rng)
            if direct and w['t'] not in ('list', 'tuple', 'set', 'fset', 'dict', 'odict', 'sub'):
                continue
            vs.append(w)
        yield case({'op': 'inj', 'vs': vs, 'direct': direct})
        if direct:
            yield case({'op': 'direct', 'v': base, 'route': rng.choice(['whatareyou', 'what2id', 'obj2what'])})
    # wide ones, that differ somewhere
    for _ in range(60 * n):
        base = g.wide()
        vs = [base, permute(base, rng)]
        for _ in range(4):
            ps = [p for p in nodes(base)]
            p = rng.choice(ps[-8:] if rng.random() < 0.5 else ps)
            try:
                vs.append(norm(put(base, p, twist(at(base, p), rng, g))))
            except (TypeError, ValueError):  # e.g., unhashable
                pass
        yield case({'op': 'inj', 'vs': vs, 'direct': False})
    # many unrelated configurations at once
    for _ in range(20 * n):
        g2 = Gen(rng, plain=False, names=['a', 'b'], maxwidth=2)
        yield case({'op': 'inj', 'vs': [g2.top(2) for _ in range(40)], 'direct': False})


def g_C05(rng, n):
    g = Gen(rng, plain=False, nan=True)
    for _ in range(500 * n):
        w = g.top(rng.choice([1, 2, 3]), nonids=True)
        names = [k for k, _ in w['c']]
        x = [k for k in names if rng.random() < 0.5] + [codes('undeclared')] * (rng.random() < 0.3)
        w = dict(w, x=sorted(x))
        # change, add or remove what is not part of the id
        w2 = copy.deepcopy(w)
        for kv in w2['c']:
            if kv[0] in x and rng.random() < 0.7:
                kv[1] = g.value(1)
        w2['c'] = [kv for kv in w2['c'] if kv[0] not in x or rng.random() < 0.7]
        if rng.random() < 0.5:
            w2['c'].append([codes('hidden'), g.value(1)])
            w2['x'] = sorted(w2['x'] + [codes('hidden')])
        w2 = norm(w2)
        hold = {'t': 'what', 'n': codes('holder'), 'o': NONE,
                'c': [[codes('p'), rng.choice([w, {'t': 'list', 'e': [w]}, {'t': 'whatable', 'w': w}])]], 'x': []}
        hold2 = norm(put(hold, ('c', 0, 1), w2))
        hold = norm(put(hold, ('c', 0, 1), w))
        if rng.random() < 0.4:
            hold, hold2 = disguise(hold, rng, hows=WHATABLES), disguise(hold2, rng, hows=WHATABLES)
        ops = [{'op': 'inj', 'vs': [w, w2], 'direct': False}, {'op': 'inj', 'vs': [hold, hold2], 'direct': False}]
        for v in (w, w2, hold):
            ops.append({'op': 'id', 'v': v, 'nonids': True, 'how': rng.choice(['plain', 'str', 'again'])})
            ops.append({'op': 'id', 'v': v, 'nonids': False})
            ops.append({'op': 'posid', 'v': v, 'nonids': rng.random() < 0.4})
            ops.append({'op': 'flatten', 'v': v, 'nonids': rng.random() < 0.5, 'colls': rng.random() < 0.4, 'rec': True})
        yield case(*ops)


def g_C06(rng, n):
    g = Gen(rng, plain=False, nan=True)
    for i in range(500 * n):
        w = g.top(rng.choice([0, 1, 2]))
        nonids = rng.random() < 0.3
        try:
            full = len(dec(w).id(nonids_too=nonids))
            pos = len(dec(w).positional_id(non_ids_too=nonids))
        except Exception:
            full = pos = 10
        ops = [{'op': 'posid', 'v': w, 'nonids': nonids}]
        for kind, ln in (('id', full), ('pos', pos)):
            for m in rng.sample([0, -1, -ln, ln, ln + 1, ln - 1, 1, 10 ** 6, ln // 2, 40], 3):
                # digests in the specification take their time
                if 0 < m < ln and ln > 120:
                    continue
                ops.append({'op': 'short', 'kind': kind, 'v': w, 'nonids': nonids, 'max': m})
        yield case(*ops)
    # A few long ones: around the length of a file name, and around the blocks of the digest
    for i in range(10 * n):
        long = text_of(rng, rng.choice([107, 115, 119, 175, 183, 245, 255, 256, 300, 600]))
        w = norm({'t': 'what', 'n': codes('w'), 'o': NONE, 'x': [], 'c': [[codes('long'), enc_str(long)], [codes('a'), g.value(1)]]})
        ops = []
        for kind, ln in (('id', len(dec(w).id())), ('pos', len(dec(w).positional_id()))):
            # the digest itself, once
            for m in [ln, ln - 1] if kind == 'id' else [ln, ln + 1, 0]:
                ops.append({'op': 'short', 'kind': kind, 'v': w, 'nonids': False, 'max': m})
        yield case(*ops)


def text_of(rng, size):
    return u''.join(rng.choice(u'ab1 _.') for _ in range(size))


def keys_for(w, rng, g):
    """Keys that exist and keys that do not."""
    paths = []

    def walk(v, path):
        paths.append((path, v))
        t = v['t']
        if t == 'what':
            for k, x in v['c']:
                walk(x, path + [enc_str(text(k))])
        elif t == 'whatable':
            for k, x in v['w']['c']:
                walk(x, path + [enc_str(text(k))])
        elif t == 'sub':
            for p in [v['v']]:
                if p['t'] in ('list', 'tuple', 'dict'):
                    walk(p, path)
        elif t in ('dict', 'odict'):
            for k, x in v['m']:
                walk(x, path + [k])
        elif t in ('list', 'tuple'):
            for i, x in enumerate(v['e']):
                walk(x, path + [enc(i if rng.random() < 0.7 else i - len(v['e']))])
    walk(w, [])
    out = []
    for _ in range(8):
        path, v = rng.choice(paths)
        path = list(path)
        k = rng.random()
        if k < 0.5 or not path:
            if k < 0.25 or not path:
                bad = [enc_str('nokey'), dict(NONE), enc_str('a'), enc(1.5), {'t': 'tuple', 'e': [enc(7)]}]
                bad += [enc(99), enc(-99), enc(0), enc(True)]
                path.append(rng.choice(bad))
                if rng.random() < 0.3:
                    path.append(enc_str('deeper'))
        elif k < 0.6:
            path[-1] = enc_str('nokey')
        elif k < 0.7 and len(path) > 1:
            path = path[:-1]
        if len(path) == 1:
            key = path[0]
            if key['t'] == 'tuple' and not key['e']:
                continue
            if key['t'] == 'tuple' or rng.random() < 0.2:
                key = {'t': 'tuple', 'e': [key]}
        else:
            key = {'t': 'tuple', 'e': path}
        out.append(key)
    return out


def g_C07(rng, n):
    g = Gen(rng, plain=False)
    for _ in range(450 * n):
        w = g.wide() if rng.random() < 0.1 else g.top(rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.3:
            w = disguise(w, rng, hows=WHATABLES)
        ops = []
        for _ in range(2):
            ops.append({'op': 'flatten', 'v': w, 'nonids': rng.random() < 0.3, 'colls': rng.random() < 0.6, 'rec': rng.random() < 0.8})
        for k in keys_for(w, rng, g):
            ops.append({'op': 'get', 'v': w, 'key': k, 'default': rng.choice([dict(NONE), enc_str('dflt'), enc(0), enc(False)])})
        yield case(*ops)


FOREIGN = ['none', 'int', 'text', 'name', 'dict', 'list', 'object', 'class', 'tuple', 'hasname', 'hasnameconf', 'hasconf',
           'hasnameout', 'float', 'function', 'set', 'probe']


def g_C09(rng, n):
    g = Gen(rng, plain=False)
    for i in range(900 * n):
        w = g.top(rng.choice([1, 2, 3]))
        k = rng.random()
        if k < 0.25:
            b = permute(w, rng)
        elif k < 0.4:
            b = dict(w, x=sorted(c for c, _ in w['c'] if rng.random() < 0.5))
        elif k < 0.5:
            b = g.top(2)
        else:
            b = near(w, rng, g)
        # objects compare by identity: not the business of configurations
        if 'whatable' in repr(w) or 'whatable' in repr(b):
            continue
        yield case({'op': 'eq', 'a': w, 'b': b}, {'op': 'eq', 'a': w, 'b': w},
                   {'op': 'foreign', 'v': w, 'kind': FOREIGN[i % len(FOREIGN)]})


def usable(v):
    """Values that survive a round trip, and compare by value."""
    s = repr(v)
    return "'nan'" not in s


def ids_of(vs):
    out = []
    for v in vs:
        try:
            s = dec(v).id()
            parse_whatid(s)
            out.append(s)
        except Exception:
            pass
    return out


def g_C18(rng, n):
    g = Gen(rng, names=['a', 'b', 'c', 'd', 'e1'], backslashes=False)
    for _ in range(350 * n):
        w = g.deep(rng.randint(3, 7)) if rng.random() < 0.25 else g.top(rng.choice([1, 2, 3]), nonids=False)
        vs = [w] + [near(w, rng, g) for _ in range(6)]
        # variants in the parameters only
        for _ in range(3):
            v = copy.deepcopy(w)
            if v['c']:
                v['c'][rng.randrange(len(v['c']))][1] = g.value(1)
            vs.append(norm(v))
        vs += [rng.choice(vs) for _ in range(2)]
        rng.shuffle(vs)
        ids = ids_of(vs)
        tmpl = ids_of([w])
        if not tmpl or any('nan' in s for s in ids):
            continue
        keys = [enc(k) for k in dec(w).keys(collections_too=True) if 'unhashable' not in repr(k)]
        keys = [k for k in keys if k['t'] in ('str', 'tuple')]
        ignored = rng.sample(keys, min(len(keys), rng.choice([0, 0, 1, 1, 2, 3])))
        if rng.random() < 0.2:
            ignored.append(enc_str('nokey'))
        more = ignored + [k for k in keys if k not in ignored][:1]
        colls, rec = rng.random() < 0.4, rng.random() < 0.8
        if rng.random() < 0.5:
            # ids can be written with blanks
            ids = [s.replace(',', ', ') if "'" not in s and rng.random() < 0.3 else s for s in ids]
        ops = []
        for ign in (ignored, more):
            ops.append({'op': 'match', 'ids': [codes(s) for s in ids], 'tmpl': codes(tmpl[0]), 'ignored': ign, 'colls': colls,
                        'rec': rec, 'kind': rng.choice(['list', 'tuple', 'iter', 'gen', 'set', 'fset', 'dictkeys']),
                        'idskind': rng.choice(['list', 'tuple', 'iter', 'gen'])})
        ops.append({'op': 'match', 'ids': [codes(tmpl[0])], 'tmpl': codes(tmpl[0]), 'ignored': [], 'colls': colls, 'rec': rec})
        yield case(*ops)


def g_C19(rng, n):
    r = rng
    for i in range(260 * n):
        kinds = {'lag': lambda: enc(r.randint(-3, 3)), 'name': lambda: enc_str(r.choice(['a', 'b', 'B', '', 'ab', 'a b', "it's"])),
                 'pos': lambda: {'t': 'tuple', 'e': [enc(r.randint(0, 2)), enc(r.randint(0, 2))]},
                 'mix': lambda: r.choice([enc(r.randint(-2, 2)), enc(float(r.randint(-2, 2))), enc(r.random() < 0.5)]),
                 'lst': lambda: {'t': 'list', 'e': [enc_str(r.choice('xyz')) for _ in range(r.randint(0, 2))]}}

        def row():
            sub = {'t': 'what', 'n': codes('In'), 'o': NONE, 'c': [[codes('x'), enc(r.randint(0, 3))],
                                                                  [codes('d'), {'t': 'what', 'n': codes('J'), 'o': NONE, 'x': [],
                                                                               'c': [[codes('y'), enc_str(r.choice('pq'))]]}]], 'x': []}
            return {'t': 'what', 'n': codes(r.choice(['F', 'G'])), 'o': NONE, 'x': [],
                    'c': [[codes(k), f()] for k, f in sorted(kinds.items())] + [[codes('sub'), sub], [codes('const'), enc(7)]]}
        rows = [row() for _ in range(r.randint(1, 12))]
        rows += [r.choice(rows) for _ in range(r.randint(0, 3))]
        keyset = [enc_str(k) for k in kinds] + [{'t': 'tuple', 'e': [enc_str('sub'), enc_str('x')]},
                                               {'t': 'tuple', 'e': [enc_str('sub'), enc_str('d'), enc_str('y')]},
                                               {'t': 'tuple', 'e': [enc_str('pos'), enc(1)]}, enc_str('const')]
        if r.random() < 0.1:
            keyset.append(enc_str('nokey'))
        if r.random() < 0.15:
            keyset.append({'t': 'tuple', 'e': r.choice([[enc_str('pos'), enc(2)], [enc_str('lst'), enc(r.randint(-2, 1))], [enc_str('name'), enc(0)],
                                                        [enc_str('lag'), enc(0)], [enc_str('sub'), enc(0)], [enc_str('sub'), enc_str('nokey')]])})
        ids = ids_of(rows)
        yield case(*[{'op': 'sort', 'ids': [codes(s) for s in ids], 'keys': r.sample(keyset, r.randint(1, 3)), 'route': route}
                     for route in ('ids', 'whats')])
    g = Gen(rng, names=['a', 'b', 'ab', 'c', 'model'], backslashes=False, maxwidth=3)
    for i in range(150 * n):
        rows = []
        for _ in range(r.randint(1, 5)):
            w = g.top(r.choice([1, 2]), nonids=False)
            w['o'] = dict(NONE)
            rows.append(w)
        rows += [r.choice(rows) for _ in range(r.randint(0, 2))]
        ids = [s for s in ids_of(rows) if 'nan' not in s and 'class' not in s]
        if not ids or any(abs(k) > 2 ** 50 for s in ids for k in ints_in(parse_whatid(s))):
            continue
        keys = []
        for s in ids:
            keys += [enc(k) for k in parse_whatid(s).keys(collections_too=r.random() < 0.5) if text_path(k)]
        for k in list(keys):  # just beyond the ends
            if k['t'] == 'tuple' and k['e'][-1]['t'] == 'int' and r.random() < 0.5:
                keys.append(dict(k, e=k['e'][:-1] + [enc(r.choice([-1, 1, 2, 3, 50]))]))
        keys += [enc_str('a'), enc_str('nokey'), {'t': 'tuple', 'e': [enc_str('a'), enc_str('b')]}]
        uniq = {}
        for k in keys:  # a column each
            uniq.setdefault('_'.join(map(str, dec(k))) if k['t'] == 'tuple' else dec(k), k)
        uniq = [uniq[k] for k in sorted(uniq)]
        cols = r.sample(uniq, min(len(uniq), r.randint(1, 4)))
        cols = [dict(k, t='list') if k['t'] == 'tuple' and r.random() < 0.5 else k for k in cols]
        all_ = r.random() < 0.3
        index = [enc(x) for x in r.choice([list(range(len(ids))), list(range(10, 10 + len(ids)))[::-1], ['r%d' % (j % 2) for j in
                                                                                                      range(len(ids))],
                                           [5] * len(ids)])]
        others = [[codes(c), [enc(r.randint(0, 9)) if c != 'txt' else enc_str(r.choice('abc')) for _ in ids]]
                  for c in r.sample(['num', 'txt', 'a', 'z'], r.randint(0, 3))]
        yield case({'op': 'columns', 'ids': [codes(s) for s in ids], 'index': index, 'others': others, 'all': all_,
                    'keys': [] if all_ else cols, 'prefix': codes(r.choice(['', 'p_', '--'])),
                    'postfix': codes(r.choice(['', '_s', '!'])), 'inplace': r.random() < 0.5, 'first': r.random() < 0.3})


def ints_in(v):
    if isinstance(v, What):
        for x in v.conf.values():
            for y in ints_in(x):
                yield y
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            for y in ints_in(x):
                yield y
    elif isinstance(v, dict):
        for k, x in v.items():
            for y in list(ints_in(k)) + list(ints_in(x)):
                yield y
    elif isinstance(v, int):
        yield v


def text_path(k):
    return isinstance(k, str) or (isinstance(k, tuple) and all(type(x) in (str, int) for x in k))


def g_C20(rng, n):
    t = TokenGen(rng, old=True)
    for _ in range(600 * n):
        toks = t.id(rng.choice([1, 2, 3]))
        ops = []
        pre = rng.choice(['', '', 'out=%s#' % rng.choice(['b', 'acc_to_target', '', 'x y', "it's", 'f(x)', 'a=b', u'\xf1', '1'])])
        ops.append({'op': 'old', 's': codes(pre + ''.join(toks))})
        if not pre or rng.random() < 0.5:
            ops.append({'op': 'old', 's': codes(pre + ''.join(t.spread(toks)).lstrip())})
        if pre:
            ops.append({'op': 'old', 's': codes(pre + ''.join(toks) + ('' if toks[-1] == '#' else '#') + "out='vel'")})
            ops.append({'op': 'old', 's': codes(pre + ''.join(toks) + ('' if toks[-1] == '#' else '#') + 'out=' + ''.join(t.value(1)))})
            ops.append({'op': 'old', 's': codes(pre + toks[0] + '#out=' + rng.choice(['None', "''", '0', 'False', '()', '[]', '{}', 'set()', '"A#"'])
                                                + ('' if toks[-1] == '#' else ''.join(toks[1:])))})
        for _ in range(2):
            ops.append({'op': 'old', 's': codes(pre + ''.join(t.damage(toks)))})
        # nan differs from itself, so sets and dictionaries can have several
        ops = [o for o in ops if text(o['s']).count('nan') < 2 or '{' not in text(o['s'])]
        yield case(*ops)
    tn = TokenGen(rng)
    for _ in range(60 * n):
        yield case({'op': 'old', 's': codes(''.join(tn.id(2)))},
                   {'op': 'old', 's': codes(rng.choice(['velocity', '', '#', 'out=', 'out=x', 'out=x#', 'out=#A#', 'A', 'A#x', 'A#x=', 'a b',
                                                        'out=a#out=b#A#', u'\xf1', 'A##', 'A#x=1#', 'A#=1', '1#x=1']))})


def g_C22(rng, n):
    g = Gen(rng, nan=True, backslashes=False)
    for _ in range(900 * n):
        v = g.top(rng.choice([1, 2, 3, 4]))
        yield case({'op': 'plain', 'v': disguise(v, rng) if rng.random() < 0.4 else v, 'nonids': rng.random() < 0.4})


def g_C31(rng, n):
    g = Gen(rng, nan=True)
    p = Gen(rng, plain=False, nan=True)
    for i in range(900 * n):
        yield case({'op': 'again', 'v': (p if i % 4 == 0 else g).top(rng.choice([1, 2, 3, 4]))})


def g_C26(rng, n):
    import routes
    return routes.generate(rng, n)


GENERATORS = {k[2:]: f for k, f in list(globals().items()) if k.startswith('g_C')}
