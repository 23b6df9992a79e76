"""Recorders: executes the operations of spec/Recorder.tla."""
from __future__ import print_function
from collections import OrderedDict

from whatami import What, what2id
from whatami.registry import Recorder
from common import enc, dec, codes, text, outcome, Unencodable, WhatableProbe, as_bool
import gen

NONE = {'t': 'none'}


# --- Recorders

class Sub(Recorder):
    """Adds one more column."""
    def add(self, ids, **columns):
        if 'sub' not in columns:
            columns['sub'] = 'yes'
        return super(Sub, self).add(ids, **columns)


def raw_text(v):
    return v if isinstance(v, str) else str(v)


class Counter(object):
    def __init__(self):
        self.n = 0

    def __call__(self, _):
        self.n += 1
        return self.n


def first(v):
    if not isinstance(v, str) or not v:
        raise ValueError('no first letter')
    return v[0]


def extractor(ext):
    return {'str': str, 'what2id': what2id, 'verbatim': None, 'nothing': lambda v: None, 'size': lambda v: len(str(v)),
            'count': Counter(), 'first': first, 'pair': lambda v: (str(v), 1)}[ext]


# --- Postprocessors

def stamp(i, record, _):
    record['stamp'] = i
    return record


def renew(_, record, __):
    record = dict(record)
    record['new'] = True
    return record


def drop_a(_, record, __):
    return {k: v for k, v in record.items() if k != 'a'}


def count(_, record, recorder):
    record['n'] = len(recorder)
    return record


def as_str(v):
    return v if isinstance(v, str) else ''


def one(_, record, __):
    record['order'] = as_str(record.get('order', '')) + '1'
    return record


def two(_, record, __):
    record['order'] = as_str(record.get('order', '')) + '2'
    return record


def need_a(_, record, __):
    if 'a' not in record:
        raise ValueError('a is needed')
    return record


def new_b(_, record, recorder):
    if 'b' in record and record['b'] in recorder.unique('b'):
        raise KeyError('b')
    return record


def same_id(_, record, recorder):
    record[recorder.id_column_name] = 'same'
    return record


def no_id(_, record, recorder):
    record = dict(record)
    record.pop(recorder.id_column_name, None)
    return record


def blank(_, record, __):
    return {}


class Exit(BaseException):
    pass


def no_z_with(e):
    def no_z(i, record, _):
        if i == 'z' or i == 26:
            raise e('no')
        return record
    return no_z


def parent(_, record, recorder):
    # Adds another record, unless it is there; N.B. there is no telling when ids that cannot be ids are refused
    if recorder.id_extractor is None:
        return record
    try:
        recorder.add('y', record_postprocessors=[], override_postprocessors=True)
    except Exception:
        pass
    return record


POSTS = {'parent': parent, 'stamp': stamp, 'renew': renew, 'drop_a': drop_a, 'count': count, 'one': one, 'two': two, 'need_a': need_a, 'new_b': new_b,
         'same_id': same_id, 'no_id': no_id, 'blank': blank,
         'no_z': no_z_with(ValueError), 'no_z_stop': no_z_with(StopIteration), 'no_z_exit': no_z_with(Exit),
         'no_z_type': no_z_with(TypeError)}
NAME_OF = {f: n for n, f in POSTS.items()}


# --- Projections

def enc_record(r):
    if not isinstance(r, dict):
        raise Unencodable(type(r).__name__)
    return [[codes(k), enc(v)] for k, v in r.items()]


def enc_rows(rows):
    if not isinstance(rows, dict):
        raise Unencodable(type(rows).__name__)
    return [[enc(i), enc_record(r)] for i, r in rows.items()]


def enc_posts(ps):
    return [NAME_OF.get(p, 'unknown') for p in ps]


def enc_table(df):
    return {'index': [enc(i) for i in df.index],
            'cols': [[codes(c), [enc(v) for v in df[c].tolist()]] for c in df.columns]}


# --- Arguments

def argument(a):
    if a['k'] == 'one':
        return dec(a['v'])
    if a['k'] == 'byid':
        return OrderedDict([(dec(i), dec(v)) for i, v in a['m']]) if a.get('ordered') else {dec(i): dec(v) for i, v in a['m']}
    how = a.get('how', 'list')
    e = [dec(v) for v in a['e']]
    return {'list': lambda: e, 'tuple': lambda: tuple(e), 'iter': lambda: iter(e), 'gen': lambda: (x for x in e),
            'keys': lambda: OrderedDict((x, 1) for x in e).keys()}[how]()


def options(op):
    kw = {text(c): argument(a) for c, a in op['cols']}
    if op['unbox']:
        kw['unbox_iterables'] = op['unbox'][0]
    if op['posts']:
        ps = [POSTS[p] for p in op['posts'][0]]
        kw['record_postprocessors'] = tuple(ps) if op.get('postsas') == 'tuple' else ps
    if op['over']:
        kw['override_postprocessors'] = op['over'][0]
    return kw


def snapshot(kw):
    return {k: (list(v) if type(v) in (list, tuple) else list(v.items()) if isinstance(v, dict) else v) for k, v in kw.items()}


def raw_ids(op):
    ids = [dec(i) for i in op['ids']]
    how = op.get('how', 'list')
    if how == 'single':
        return ids[0]
    return {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda v: (x for x in v),
            'keys': lambda v: OrderedDict((x, 1) for x in v).keys()}[how](ids)


def define(how):
    """Defines a subclass whose add is such."""
    if how == 'first':
        class S(Recorder):
            def add(self, ids, country=None, **columns):
                return super(S, self).add(ids, country=country, **columns)
    elif how == 'second':
        class S(Recorder):
            def add(self, country, ids, **columns):
                return super(S, self).add(ids, country=country, **columns)
    elif how == 'of_sub':
        class S(Sub):
            def add(self, ids, **columns):
                return super(S, self).add(ids, **columns)
    elif how == 'no_add':
        class S(Sub):
            pass
    elif how == 'other_name':
        class S(Recorder):
            def add(self, names, **columns):
                return super(S, self).add(names, **columns)
    elif how == 'none':
        class S(Recorder):
            def add(self, **columns):
                return None
    elif how == 'sub_other':
        class S(Sub):
            def add(self, id, **columns):
                return super(S, self).add(id, **columns)
    elif how == 'with_default':
        class S(Recorder):
            def add(self, ids=None, **columns):
                return super(S, self).add(ids, **columns)
    elif how == 'mixin':
        class Mixin(object):
            def extra(self):
                return 1

        class S(Mixin, Recorder):
            def add(self, idx, **columns):
                return super(S, self).add(idx, **columns)
    return S


def execute(prop, case):
    recs, frozen, held, ops = [], [], [], []
    pool = []

    def ask(v):
        try:
            hash(v)
        except TypeError:
            return
        e = enc(v)
        if e not in pool:
            pool.append(e)
    counters = []
    for op in case['ops']:
        op = dict(op)
        k = op['op']
        if k == 'new':
            defs = {text(c): dec(v) for c, v in op['defs']}
            ps = [POSTS[p] for p in op['posts']]
            cls = Sub if op['sub'] else Recorder
            obs = outcome(lambda: recs.append(cls(name='r', id_column_name=text(op['idcol']), id_extractor=extractor(op['ext']),
                                                  record_postprocessors=ps, **defs)), lambda r: 0)
            held += [('defs', defs), ('posts', ps)]
        elif k == 'misname':
            obs = outcome(lambda: Recorder(id_column_name=dec(op['col'])), lambda r: 0)
        elif k == 'set_defaults':
            obs = outcome(lambda: recs[op['r'] - 1].add_column_defaults(**{text(c): dec(v) for c, v in op['defs']}), lambda r: 0)
        elif k == 'del_defaults':
            obs = outcome(lambda: recs[op['r'] - 1].remove_column_defaults(*[text(c) for c in op['names']]), lambda r: 0)
        elif k == 'add_posts':
            obs = outcome(lambda: recs[op['r'] - 1].add_record_postprocessors(*[POSTS[p] for p in op['posts']]), lambda r: 0)
        elif k == 'set_posts':
            obs = outcome(lambda: recs[op['r'] - 1].override_record_postprocessors(*[POSTS[p] for p in op['posts']]), lambda r: 0)
        elif k == 'take':
            r = recs[op['r'] - 1]
            obs = outcome(lambda: held.extend([('defs', r.column_defaults), ('posts', r.record_postprocessors())]), lambda r: 0)
        elif k == 'change':
            what, c = held[op['h'] - 1]
            if what == 'defs':
                c['changed'] = 1
            else:
                c.append(stamp)
            obs = {'ok': True, 'v': 0}
        elif k in ('freeze', 'add'):
            kw = options(op)
            if op['f'] == 0:
                r = recs[op['r'] - 1]
                base = r.add
            else:
                r, base = frozen[op['f'] - 1]
            before = snapshot(kw)
            if k == 'freeze':
                how = op.get('how', 'call')
                obs = outcome(lambda: (r.padd(**kw) if op['f'] == 0 and how == 'padd' else r.padd(base, **kw) if how == 'padd' else
                                       r.padd(add=base, **kw) if how == 'padd2' else base(**kw)),
                              lambda f: frozen.append((r, f)) or 0)
            else:
                for i in op['ids']:
                    v = dec(i)
                    ask(v)
                    ask(raw_text(v))
                ids = raw_ids(op)
                rows = []

                def call():
                    if op.get('kw'):
                        return base(ids=ids, **kw)
                    return base(ids, **kw)
                obs = outcome(call, lambda r: rows.append(r) or enc_rows(r))
                for r in rows:
                    for i in r:
                        ask(i)
            op['argsafe'] = snapshot(kw) == before
        elif k == 'get':
            r = recs[op['r'] - 1]
            ids = [dec(i) for i in op['ids']]
            if len(ids) == 1 and op.get('how') == 'item':
                obs = outcome(lambda: r[ids[0]], lambda rows: [enc_record(x) for x in rows])
            else:
                obs = outcome(lambda: r.get(*ids), lambda rows: [enc_record(x) for x in rows])
        elif k == 'unique':
            obs = outcome(lambda: recs[op['r'] - 1].unique(text(op['col'])), lambda vs: [enc(v) for v in vs])
        elif k == 'table':
            obs = outcome(lambda: recs[op['r'] - 1].to_df(), enc_table)
        elif k == 'define':
            obs = outcome(lambda: define(op['how']), lambda r: 0)
        op['obs'] = obs
        asked = [dec(i) for i in pool] + ['never added', -1]
        op['seen'] = [{'len': len(r), 'asked': [enc(i) for i in asked], 'got': [enc_record(x) for x in r.get(*asked)],
                       'defs': enc_record(r.column_defaults), 'posts': enc_posts(r.record_postprocessors())} for r in recs]
        op['held'] = [enc_record(c) if what == 'defs' else enc_posts(c) for what, c in held]
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


# --- Generating histories

COLS = ['a', 'b', 'c', 'cheer up', 'n', 'who', 'order', 'new', 'stamp', 'sub', 'id', 'key', 'name', 'self_', 'Id']
ATOMS = [None, True, False, 0, 1, 2, 1.5, -1.0, 'x', '', 'long text', "it's", 'a', 'b', 'z', u'\xf1']
IDS = ['a', 'b', 'z', 'c', '', 'a b', "it's", u'\xf1', 'A', 'id', 'None', '1', 'ab', 'abc']
ODD_IDS = [1, 2, 26, 2.5, None, True, 10 ** 20, 1.0]


def some_what(rng):
    return enc(What(rng.choice(['f', 'g']), {'a': rng.choice([1, 'x']), 'h': rng.choice([1, 2])}, non_id_keys={'h'}))


class History(object):

    def __init__(self, rng, prop):
        self.rng = rng
        self.prop = prop
        self.recs = []
        self.frozen = []  # the recorder of each
        self.nheld = 0
        self.ops = []
        self.used = {}

    def atom(self):
        rng = self.rng
        return enc(rng.choice(ATOMS))

    def value(self, col):
        rng = self.rng
        if col != 'b' and rng.random() < 0.05:
            return some_what(rng)
        if col != 'b' and rng.random() < 0.05:
            return enc(rng.choice([(1, 2), ('x',)]))
        return self.atom()

    def raw(self, ext):
        rng = self.rng
        if self.used.get(ext) and rng.random() < 0.15:
            return rng.choice(self.used[ext])
        if ext == 'what2id':
            w = some_what(rng)
            k = rng.random()
            v = w if k < 0.4 else {'t': 'whatable', 'w': w} if k < 0.7 else enc(rng.choice(['f(a=1)', "f(a='x')", 'other']))
        elif ext == 'verbatim':
            v = enc(rng.choice(IDS + ODD_IDS * 2 + [(1, 2), (2, 1), (3,), ()])) if rng.random() < 0.97 else some_what(rng)
        elif ext == 'first':
            v = enc(rng.choice(IDS))
        else:
            v = enc(rng.choice(IDS + [1, 2, None, True, 2.5])) if rng.random() < 0.9 else some_what(rng)
        return v

    def cols(self, ids, ext, frozen=False, n=None):
        rng = self.rng
        res = []
        for c in rng.sample(COLS, n if n is not None else rng.choice([0, 1, 1, 2, 2, 3])):
            k = rng.random()
            if k < 0.35:
                v = self.value(c)
                if v['t'] == 'tuple':  # an iterable
                    v = enc('shared')
                a = {'k': 'one', 'v': v}
            elif k < 0.75:
                n_e = max(0, len(ids) + rng.choice([-1, 0, 0, 0, 0, 1, 2])) if ids else rng.randint(0, 3)
                e = [self.value(c) for _ in range(n_e)]
                how = rng.choice(['list', 'list', 'tuple'] + ([] if frozen else ['gen', 'iter']))
                a = {'k': 'deal', 'e': e, 'how': how, 'v': {'t': 'tuple' if how == 'tuple' else 'list', 'e': e}}
            else:
                m = []
                for i in (ids or [self.raw(ext) for _ in range(2)]):
                    if rng.random() < 0.7:
                        key = i if ext in ('verbatim',) else enc(str(dec(i))) if ext == 'str' else \
                            enc(what2id(dec(i))) if ext == 'what2id' else enc(dec(i)[:1]) if ext == 'first' and i['t'] == 'str' else \
                            enc(len(str(dec(i)))) if ext == 'size' else enc((str(dec(i)), 1)) if ext == 'pair' else \
                            enc(rng.randint(1, 6)) if ext == 'count' else NONE
                        if not any(dec(key) == dec(x) for x, _ in m) and key['t'] not in ('what',):
                            m.append([key, self.value(c)])
                if rng.random() < 0.2:
                    m.append([enc('nobody'), self.atom()])
                a = {'k': 'byid', 'm': m, 'ordered': rng.random() < 0.3}
            res.append([codes(c), a])
        return res

    def posts(self, n=None):
        rng = self.rng
        return [rng.choice(sorted(POSTS)) for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n)]

    def call(self, op, ids, ext, frozen=False):
        rng = self.rng
        op['cols'] = self.cols(ids, ext, frozen or op['f'] != 0)
        verbatim_bad = any(a.get('how') in ('gen', 'iter') for _, a in op['cols'])
        op['unbox'] = [] if verbatim_bad or rng.random() < 0.75 else [rng.random() < 0.3]
        op['posts'] = [self.posts()] if rng.random() < (0.3 if self.prop != 'C16' else 0.4) else []
        op['over'] = [rng.random() < 0.6] if rng.random() < 0.3 else []
        op['postsas'] = rng.choice(['list', 'tuple'])
        return op

    def base(self, op):
        rng = self.rng
        if self.frozen and rng.random() < (0.6 if self.prop == 'C17' else 0.25):
            f = rng.randrange(len(self.frozen))
            op['f'] = f + 1
            op['r'] = self.frozen[f][0]
        else:
            op['f'] = 0
            op['r'] = rng.randint(1, len(self.recs))
        return op

    def step(self):
        rng = self.rng
        settings = {'C15': 0.15, 'C16': 0.15, 'C17': 0.4}[self.prop]
        freeze = {'C15': 0.05, 'C16': 0.05, 'C17': 0.2}[self.prop]
        k = rng.random()
        if not self.recs or (k < 0.04 and len(self.recs) < 3):
            ext = rng.choice(['str', 'str', 'str', 'what2id', 'verbatim', 'verbatim', 'nothing', 'size', 'count', 'first', 'pair'])
            defs = [[codes(c), self.value(c)] for c in rng.sample(COLS[:7] + ['new', 'sub'], rng.choice([0, 0, 1, 2]))]
            self.recs.append(ext)
            self.nheld += 2
            return {'op': 'new', 'idcol': codes(rng.choice(['id', 'id', 'key', 'a b'])), 'ext': ext, 'sub': rng.random() < 0.2,
                    'defs': defs, 'posts': self.posts(rng.choice([0, 0, 1, 2]))}
        r = rng.randint(1, len(self.recs))
        if rng.random() < 0.02:
            return {'op': 'misname', 'col': enc(rng.choice([None, 3, ('id',), ['id'], True, {'id': 1}, 'id', '', 2.5]))}
        if k < settings:
            j = rng.randrange(6)
            if j == 0:
                return {'op': 'set_defaults', 'r': r, 'defs': [[codes(c), self.value(c)] for c in rng.sample(COLS, rng.choice([1, 1, 2]))]}
            if j == 1:
                return {'op': 'del_defaults', 'r': r, 'names': [codes(c) for c in rng.sample(COLS, rng.choice([1, 3, 6]))]}
            if j == 2:
                return {'op': 'add_posts', 'r': r, 'posts': self.posts()}
            if j == 3:
                return {'op': 'set_posts', 'r': r, 'posts': self.posts()}
            if j == 4:
                self.nheld += 2
                return {'op': 'take', 'r': r}
            return {'op': 'change', 'h': rng.randint(1, self.nheld)}
        k = rng.random()
        if k < freeze:
            op = self.base({'op': 'freeze', 'how': rng.choice(['call', 'call', 'padd', 'padd2'])})
            op = self.call(op, None, self.recs[op['r'] - 1], frozen=True)
            self.frozen.append((op['r'], op))
            return op
        if k < freeze + 0.15:
            j = rng.randrange(4)
            if j == 0:
                return {'op': 'table', 'r': r}
            if j == 1:
                return {'op': 'unique', 'r': r, 'col': codes(rng.choice(COLS))}
            if j == 2 and self.prop == 'C17' and rng.random() < 0.3:
                how, ok = rng.choice([('first', True), ('second', True), ('of_sub', True), ('no_add', True), ('other_name', False),
                                      ('none', False), ('sub_other', False), ('mixin', False), ('with_default', False)])
                return {'op': 'define', 'how': how, 'hasids': ok}
            ids = [i for i in [self.raw(self.recs[r - 1]) for _ in range(rng.randint(0, 5))] if i['t'] != 'what']
            return {'op': 'get', 'r': r, 'ids': ids, 'how': rng.choice(['item', 'get'])}
        op = self.base({'op': 'add', 'kw': rng.random() < 0.2})
        ext = self.recs[op['r'] - 1]
        ids = [self.raw(ext) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        op['ids'] = ids
        single = len(ids) == 1 and ids[0]['t'] not in ('tuple',) and rng.random() < 0.6
        op['how'] = 'single' if single else rng.choice(['list', 'list', 'tuple', 'gen', 'iter'])
        self.used.setdefault(ext, []).extend(ids)
        return self.call(op, ids, ext)


def generate(prop, rng, tier):
    for _ in range(350 * (10 if tier == 'thorough' else 1)):
        h = History(rng, prop)
        yield {'ops': [h.step() for _ in range(rng.randint(4, 16))]}
