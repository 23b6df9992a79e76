"""scikit-learn things: executes the operations of spec/Sklearn.tla."""
from __future__ import print_function
import copy
import importlib
import inspect
import json
import logging
import pickle
import zlib

import numpy as np
import sklearn.base
from sklearn.base import BaseEstimator
from sklearn.gaussian_process.kernels import Kernel
from sklearn.model_selection import BaseCrossValidator
from sklearn.model_selection._split import BaseShuffleSplit, _RepeatedSplits

from whatami import What
from whatami.wrappers.what_sklearn import whatamize_sklearn
from common import codes, text, outcome, enc, dec, as_text
from gen import Gen

logging.disable(logging.CRITICAL)
whatamize_sklearn()
BASES = [BaseEstimator, Kernel, BaseCrossValidator, BaseShuffleSplit, _RepeatedSplits]
OURS = {b: b.__dict__.get('what') for b in BASES}
SPLITTERS = (BaseCrossValidator, BaseShuffleSplit, _RepeatedSplits)
THINGS = (BaseEstimator, Kernel) + SPLITTERS
CASE_SECONDS = 60


def mine(self):
    return What('mine', {'k': 5})


def params(o):
    """The parameters of a thing with their values, as scikit-learn tells."""
    if isinstance(o, SPLITTERS) and not hasattr(o, 'get_params'):
        return sorted(vars(o).items())
    return sorted(o.get_params(deep=False).items())


def project(v, thing):
    """A value with things inside."""
    if isinstance(v, THINGS):
        return thing(v)
    if isinstance(v, (np.ndarray, np.random.RandomState)) or inspect.isfunction(v):
        return {'t': 'opaque', 's': codes(What('v', {'x': v}).id()[4:-1])}
    if type(v) in (list, tuple, set, frozenset):
        t = {list: 'list', tuple: 'tuple', set: 'set', frozenset: 'fset'}[type(v)]
        return {'t': t, 'e': [project(x, thing) for x in v]}
    if type(v) is dict:
        return {'t': 'dict', 'm': [[project(k, thing), project(x, thing)] for k, x in v.items()]}
    return enc(v)


def plain(v):
    return project(v, lambda o: {'t': 'what', 'n': codes(type(o).__name__), 'o': {'t': 'none'}, 'x': [],
                                 'c': [[codes(k), plain(x)] for k, x in params(o)]})


class World(object):
    def __init__(self):
        self.classes = []
        self.insts = []
        self.touched = set()

    def thing(self, o):
        return {'t': 'est', 'cls': self.classes.index(type(o)) + 1, 'c': [[codes(k), project(x, self.thing)] for k, x in params(o)]}

    def make(self, v):
        t = v['t']
        if t == 'est':
            return self.classes[v['cls'] - 1](**{text(n): self.make(x) for n, x in v.get('given', v.get('c'))})
        if t in ('list', 'tuple') and v['e']:
            return {'list': list, 'tuple': tuple}[t]([self.make(x) for x in v['e']])
        if t == 'array':
            return np.array(v['e'])
        return dec(v)

    def define(self, op):
        c = op['c']
        if c['lib']:
            module, _, name = op['fqn'].rpartition('.')
            cls = getattr(importlib.import_module(module), name)
        else:
            base = self.classes[c['base'] - 1] if c['base'] else lib(op['from'])
            d = {}
            if 'init' in op:
                space = {'D%d' % i: dec(v) for i, (_, v) in enumerate(op['init'])}
                names = [text(n) for n, _ in op['init']]
                exec('def __init__(self%s):\n    pass\n%s' % (''.join(', %s=D%d' % (n, i) for i, n in enumerate(names)),
                                                              ''.join('    self.%s = %s\n' % (n, n) for n in names)), space)
                d['__init__'] = space['__init__']
            if issubclass(base, Kernel):
                d.update(__call__=lambda self, X, Y=None, eval_gradient=False: 0, diag=lambda self, X: 0, is_stationary=lambda self: True)
            if issubclass(base, SPLITTERS):
                d.update(get_n_splits=lambda self, X=None, y=None, groups=None: 1, _iter_test_masks=lambda self, X=None, y=None, groups=None: (),
                         _iter_indices=lambda self, X, y=None, groups=None: ())
            if c['own']:
                d['what'] = mine
            mixins = tuple(getattr(sklearn.base, m) for m in op.get('mixins', ()))
            cls = type(base)(text(c['n']), mixins + (base,), d)
        self.classes.append(cls)

    def set(self, o, path, v, salt):
        names = []
        at = o
        # As a nested name of parameter when scikit-learn has one, or straight on the object
        for i, p in enumerate(path):
            last = i == len(path) - 1
            if p['k'] == 'p':
                name = text(p['n'])
                if last:
                    if salt >= 0 and names is not None and hasattr(o, 'set_params') and hasattr(at, 'get_params') and salt % 3:
                        o.set_params(**{'__'.join(names + [name]): v})
                    elif salt >= 0 and hasattr(at, 'set_params') and salt % 2:
                        at.set_params(**{name: v})
                    else:
                        setattr(at, name, v)
                    return
                at = getattr(at, name)
                if isinstance(at, (list, tuple)):
                    if not (i + 2 < len(path) and at and isinstance(at[0], tuple)):
                        names = None
                elif names is not None:
                    names = names + [name]
            else:
                at = at[p['i'] - 1]
                if isinstance(at, tuple) and names is not None:
                    names = names + [at[0]]

    def do(self, op, salt):
        k = op['op']
        o = self.insts[op['e'] - 1] if 'e' in op else None
        if k == 'class':
            self.define(op)
        elif k == 'new':
            self.insts.append(self.make(op['x']))
            op['x'] = self.thing(self.insts[-1])
        elif k == 'set':
            self.set(o, op['path'], self.make(op['v']), -1 if op.get('plain') else salt)
            op['v'] = self.thing_or_value(op['v'])
        elif k == 'clone':
            user = any(not c.__module__.startswith('sklearn') for c in self.classes)
            if hasattr(o, 'get_params') and salt % 3:
                self.insts.append(sklearn.base.clone(o))
            elif user or salt % 2:
                self.insts.append(copy.deepcopy(o))
            else:
                self.insts.append(pickle.loads(pickle.dumps(o)))
        elif k == 'own':
            cls = self.classes[op['i'] - 1]
            if cls.__module__.startswith('sklearn'):
                self.touched.add(cls)
            cls.what = mine
        elif k == 'patch':
            whatamize_sklearn(**({} if salt % 2 else {'check': False, 'log': True}))
        elif k == 'check':
            whatamize_sklearn(check=True)
        elif k == 'litter':
            for n in ('coef_', '_private') + (('fitted',) if hasattr(o, 'get_params') else ()):
                try:
                    setattr(o, n, 3)
                except AttributeError:  # already a property
                    pass

    def thing_or_value(self, v):
        """Things given by their parameters only have the others too."""
        return project(self.make(v), self.thing) if v['t'] in ('est', 'list', 'tuple') else v


def lib(fqn):
    module, _, name = fqn.rpartition('.')
    return getattr(importlib.import_module(module), name)


def execute(prop, case):
    w = World()
    cfg = case.get('cfg', {'patched': True})
    salt = case['salt'] if 'salt' in case else zlib.crc32(json.dumps(case, sort_keys=True).encode())
    ops = []
    try:
        if not cfg['patched']:
            for b in BASES:
                if 'what' in b.__dict__:
                    del b.what
        for i, op in enumerate(case['ops']):
            op = dict(op)
            op['obs'] = outcome(lambda: w.do(op, salt + 7 * i), lambda r: 0)
            op['seen'] = [see(o) for o in w.insts]
            ops.append(op)
    finally:
        for c in w.touched:
            if 'what' in c.__dict__:
                del c.what
        for b, what in OURS.items():
            if what is not None:
                b.what = what
    return {'cfg': cfg, 'ops': ops}


def see(o):
    def asked():
        r = o.what()
        if not isinstance(r, What):
            raise TypeError()
        return r
    return {'asked': outcome(asked, lambda r: {'t': 'what', 'n': codes(r.name), 'o': {'t': 'none'} if r.out_name is None else enc(r.out_name),
                                               'c': [[codes(k), plain(x)] for k, x in r.conf.items()],
                                               'x': [codes(k) for k in r.non_id_keys]}),
            'id': outcome(lambda: o.what().id(), as_text),
            'long': outcome(lambda: o.what(use_short=False).id(), as_text),
            'value': outcome(lambda: What('v', {'x': o}).id(), as_text)}


# --- Generation

UNREGISTERED = ['sklearn.compose.ColumnTransformer', 'sklearn.compose.TransformedTargetRegressor', 'sklearn.covariance.GraphicalLasso',
                'sklearn.naive_bayes.ComplementNB', 'sklearn.impute.SimpleImputer', 'sklearn.preprocessing.KBinsDiscretizer',
                'sklearn.preprocessing.OrdinalEncoder', 'sklearn.preprocessing.PowerTransformer', 'sklearn.multioutput.RegressorChain',
                'sklearn.model_selection.RepeatedKFold']


def declared():
    """The names in the table of the specification."""
    import os
    import re
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'SkTable.tla')) as f:
        return {'%s.%s' % (m, n): re.findall(r'"(\w+)"', x) for n, m, x in re.findall(r'<<"(\w+)", "([\w.]+)", "\w+", <<(.*?)>> >>', f.read())}


NONIDS = declared()
REGISTERED = sorted(NONIDS)
SIMPLE = [n for n in REGISTERED if n.rpartition('.')[2] in ('Ridge', 'Lasso', 'SVC', 'PCA', 'KMeans', 'RandomForestClassifier', 'LogisticRegression',
                                                            'Normalizer', 'StandardScaler', 'GaussianNB', 'DecisionTreeClassifier', 'SelectKBest')]
SPLIT = [n for n in REGISTERED if 'model_selection._split' in n] + ['sklearn.model_selection.RepeatedKFold']
KERN = [n for n in REGISTERED if 'gaussian_process.kernels' in n]
EST_PARAMS = ('base_estimator', 'estimator', 'regressor')


class Maker(object):
    def __init__(self, rng, patched=True):
        self.rng = rng
        self.g = Gen(rng, names=['p', 'q'], maxwidth=2)
        self.classes = []   # [spec, the real class for these of the library, what their constructors need]
        self.insts = []
        self.ops = []

    # Classes
    def libclass(self, fqn):
        cls = lib(fqn)
        for i, (c, real) in enumerate(self.classes):
            if real is cls:
                return i + 1
        base = 0
        for b in cls.__mro__[1:]:
            found = [i for i, (_, r) in enumerate(self.classes) if r is b]
            if found:
                base = found[0] + 1
                break
        self.add({'n': codes(cls.__name__), 'base': base, 'lib': True, 'attrs': issubclass(cls, SPLITTERS), 'own': False}, cls, {'fqn': fqn})
        return len(self.classes)

    def add(self, c, real, extra):
        self.classes.append((c, real))
        self.ops.append(dict({'op': 'class', 'c': c}, **extra))

    def userclass(self):
        rng = self.rng
        kind = rng.random()
        x = rng.random()
        user = [i for i, (_, r) in enumerate(self.classes) if r is None]
        own = rng.random() < 0.15
        name = rng.choice(['Mine', 'Other', 'KMeans', 'PCA', 'Ridge', 'KFold', 'RBF', 'SVC', 'Pipeline'])
        if user and x < 0.25:
            b = rng.choice(user)
            init = None
            if rng.random() < 0.3:
                init = self.params()
            attrs = self.classes[b][0]['attrs']
            self.add({'n': codes(name), 'base': b + 1, 'lib': False, 'attrs': attrs, 'own': own}, None, {} if init is None else {'init': init})
            self.classes[-1][0]['_from'] = self.classes[b][0]['_from']
            self.ops[-1]['c'] = {k: v for k, v in self.classes[-1][0].items() if k[0] != '_'}
            return len(self.classes)
        extra = {}
        if kind < 0.5:
            fqn = rng.choice(['sklearn.base.BaseEstimator'] * 3 + SIMPLE)
            if rng.random() < 0.3:
                extra['mixins'] = rng.sample(['TransformerMixin', 'ClassifierMixin'], 1) if fqn == 'sklearn.base.BaseEstimator' else []
        elif kind < 0.75:
            fqn = rng.choice(['sklearn.model_selection.BaseCrossValidator', 'sklearn.model_selection.KFold', 'sklearn.model_selection._split.BaseShuffleSplit',
                              'sklearn.model_selection._split._RepeatedSplits', 'sklearn.model_selection.TimeSeriesSplit'])
        else:
            fqn = rng.choice(['sklearn.gaussian_process.kernels.Kernel', 'sklearn.gaussian_process.kernels.RBF'])
        bare = fqn.endswith(('Base', 'BaseEstimator', 'BaseCrossValidator', '.Kernel', '_RepeatedSplits'))
        init = self.params() if bare or rng.random() < 0.4 else None
        cls = lib(fqn)
        base = 0
        for b in cls.__mro__:
            found = [i for i, (_, r) in enumerate(self.classes) if r is b]
            if found:
                base = found[0] + 1
                break
        if base and self.classes[base - 1][1] is not cls:
            base = self.libclass(fqn)
        c = {'n': codes(name), 'base': base, 'lib': False, 'attrs': issubclass(cls, SPLITTERS), 'own': own}
        self.add(dict(c, _from=cls), None, dict(extra, **({'from': fqn} if init is None else {'from': fqn, 'init': init})))
        self.ops[-1]['c'] = c
        return len(self.classes)

    def params(self):
        rng = self.rng
        return [[codes(n), self.value()] for n in rng.sample(['a', 'b', 'n_jobs', 'verbose', 'copy', 'alpha', 'B', 'zz'], rng.randint(0, 3))]

    def value(self):
        return self.g.atom() if self.rng.random() < 0.8 else enc(dec(self.g.value(1)))

    # Things
    def est(self, depth=0, pool=None):
        rng = self.rng
        user = [i for i, (c, r) in enumerate(self.classes) if r is None]
        if pool is None and user and rng.random() < 0.35:
            return self.of(rng.choice(user) + 1, depth)
        return self.of(self.libclass(rng.choice(pool or (SIMPLE if depth else REGISTERED + UNREGISTERED + COMPOSITES * 4))), depth)

    def of(self, i, depth=0):
        c, real = self.classes[i - 1]
        given = []
        if real is not None:
            given = self.needs(real, depth)
        else:
            ops = [op for op in self.ops if op['op'] == 'class']
            if 'init' not in ops[i - 1]:
                given = [] if not issubclass(c['_from'], _RepeatedSplits) else []
        return {'t': 'est', 'cls': i, 'given': given}

    def named(self, depth, tuples=3):
        rng = self.rng
        names = rng.sample(['a', 'scale', 'svc', 'x1'], rng.randint(1, 2))
        es = [{'t': 'tuple', 'e': [enc(n), self.est(depth + 1)] + ([enc([0, 1])] if tuples == 4 else [])} for n in names]
        return {'t': rng.choice(['list', 'list', 'tuple']) if tuples == 3 else 'list', 'e': es}

    def needs(self, cls, depth):
        """Parameters for a class of the library."""
        rng = self.rng
        n = cls.__name__
        sig = [p.name for p in inspect.signature(getattr(cls.__init__, 'deprecated_original', cls.__init__)).parameters.values()]
        r = []

        def give(k, v):
            r.append([codes(k), v])
        if n in ('Sum', 'Product'):
            give('k1', self.est(depth + 1, KSIMPLE))
            give('k2', self.est(depth + 1, KSIMPLE if depth else KERN))
        elif n == 'Exponentiation':
            give('kernel', self.est(depth + 1, KSIMPLE))
            give('exponent', enc(rng.choice([1, 2, 3.5])))
        elif n == 'CompoundKernel':
            give('kernels', {'t': 'list', 'e': [self.est(depth + 1, KSIMPLE) for _ in range(rng.randint(1, 2))]})
        elif n in ('Pipeline', 'FeatureUnion', 'VotingClassifier', 'ColumnTransformer'):
            key = {'Pipeline': 'steps', 'FeatureUnion': 'transformer_list', 'VotingClassifier': 'estimators', 'ColumnTransformer': 'transformers'}[n]
            give(key, self.pipe(n, depth))
        elif n == 'SparseCoder':
            give('dictionary', {'t': 'array', 'e': [[1, 2], [3, 4]]})
        elif n == 'PredefinedSplit':
            give('test_fold', enc([0, 1, 1]))
        elif n == 'LeavePGroupsOut':
            give('n_groups', enc(rng.choice([1, 2])))
        elif n == 'LeavePOut':
            give('p', enc(rng.choice([1, 2])))
        for k in EST_PARAMS:
            required = n in ('ClassifierChain', 'RegressorChain', 'MultiOutputClassifier', 'MultiOutputRegressor', 'OneVsOneClassifier', 'OneVsRestClassifier',
                             'OutputCodeClassifier', 'RFE', 'RFECV', 'SelectFromModel', 'GridSearchCV', 'RandomizedSearchCV')
            if k in sig and (required or rng.random() < 0.6) and depth < 2:
                give(k, self.est(depth + 1))
            elif k in sig and required:
                give(k, self.est(depth + 1, SIMPLE))
        if n in ('GridSearchCV', 'RandomizedSearchCV'):
            give('param_grid' if n == 'GridSearchCV' else 'param_distributions', enc(rng.choice([{}, {'C': [1, 2]}, {'b': [None], 'a': ['x', 0.5]}])))
            if rng.random() < 0.6:
                give('cv', self.est(depth + 1, SPLIT))
        if n.startswith('GaussianProcess') and rng.random() < 0.6:
            give('kernel', self.est(depth + 1, KERN))
        if n in ('KFold', 'StratifiedKFold', 'ShuffleSplit', 'TimeSeriesSplit', 'RepeatedKFold') and rng.random() < 0.5:
            give('n_splits', enc(rng.choice([2, 5, 7])))
        return r

    def pipe(self, n, depth):
        """Named parts."""
        rng = self.rng
        if n == 'Pipeline':
            pools = [['sklearn.preprocessing.Normalizer', 'sklearn.preprocessing.StandardScaler', 'sklearn.decomposition.PCA'], SIMPLE]
        elif n == 'VotingClassifier':
            pools = [['sklearn.svm.SVC', 'sklearn.linear_model.LogisticRegression', 'sklearn.ensemble.RandomForestClassifier']] * 2
        else:
            pools = [['sklearn.preprocessing.Normalizer', 'sklearn.preprocessing.StandardScaler', 'sklearn.decomposition.PCA']] * 2
        names = rng.sample(['a', 'scale', 'svc', 'x1'], 2)
        es = []
        for nm, pool in zip(names, pools):
            e = [enc(nm), self.est(depth + 1, pool)]
            if n == 'Pipeline' and depth == 0 and rng.random() < 0.2 and len(es) == 1:
                e[1] = self.of(self.libclass('sklearn.pipeline.Pipeline'), depth + 1)
            if n == 'ColumnTransformer':
                e.append(enc([0, 1]))
            es.append({'t': 'tuple', 'e': e})
        return {'t': 'tuple' if n == 'Pipeline' and rng.random() < 0.3 else 'list', 'e': es}

    def new(self):
        x = self.est()
        self.ops.append({'op': 'new', 'x': x})
        self.insts.append(x)

    def has_params(self, i):
        c, real = self.classes[i - 1]
        return not c['attrs']

    def paths(self, x):
        """Where things are inside of a thing: the thing itself, and these in its parameters."""
        yield [], x
        if x['t'] != 'est':
            return
        for n, v in x['given']:
            if v['t'] == 'est':
                for p, y in self.paths(v):
                    yield [{'k': 'p', 'n': n}] + p, y
            elif v['t'] in ('list', 'tuple'):
                for i, e in enumerate(v['e']):
                    if e['t'] == 'tuple':
                        for j, z in enumerate(e['e']):
                            if z['t'] == 'est':
                                for p, y in self.paths(z):
                                    yield [{'k': 'p', 'n': n}, {'k': 'i', 'i': i + 1}, {'k': 'i', 'i': j + 1}] + p, y
                    elif e['t'] == 'est':
                        for p, y in self.paths(e):
                            yield [{'k': 'p', 'n': n}, {'k': 'i', 'i': i + 1}] + p, y

    def param_names(self, i):
        c, real = self.classes[i - 1]
        if real is None:
            ops = [op for op in self.ops if op['op'] == 'class']
            j = i
            while j and ops[j - 1].get('init') is None and not ops[j - 1]['c']['lib']:
                if 'from' in ops[j - 1]:
                    real = lib(ops[j - 1]['from'])
                    break
                j = ops[j - 1]['c']['base']
            if real is None:
                return [text(n) for n, _ in ops[j - 1]['init']] if ops[j - 1].get('init') is not None else []
        if issubclass(real, SPLITTERS):
            return {'KFold': ['n_splits', 'shuffle', 'random_state'], 'StratifiedKFold': ['n_splits', 'shuffle', 'random_state'],
                    'TimeSeriesSplit': ['n_splits', 'max_train_size'], 'ShuffleSplit': ['n_splits', 'random_state', 'test_size', 'train_size'],
                    'LeavePOut': ['p'], 'RepeatedKFold': ['n_repeats', 'random_state']}.get(real.__name__, [])
        if real.__init__ is object.__init__:
            return []
        with_self = inspect.signature(getattr(real.__init__, 'deprecated_original', real.__init__)).parameters
        return [p.name for p in with_self.values() if p.name != 'self' and p.name not in AVOID and p.kind == p.POSITIONAL_OR_KEYWORD]

    def set(self):
        rng = self.rng
        e = rng.randrange(len(self.insts))
        where = list(self.paths(self.insts[e]))
        p, x = rng.choice(where) if rng.random() < 0.7 else where[0]
        names = self.param_names(x['cls'])
        real = self.classes[x['cls'] - 1][1]
        taken = [text(n) for n, v in x['given'] if v['t'] in ('est', 'list', 'tuple')]
        if real is not None and rng.random() < 0.4:
            declared = [n for n in NONIDS.get('%s.%s' % (real.__module__, real.__name__), ()) if n in names]
            names = declared or names
        names = [n for n in names if n not in taken]
        if not names:
            return
        self.ops.append({'op': 'set', 'e': e + 1, 'path': p + [{'k': 'p', 'n': codes(rng.choice(names))}], 'v': self.value()})

    def own(self):
        rng = self.rng
        i = rng.randrange(len(self.classes))
        c, real = self.classes[i]
        # All that derive from it must say so
        for j, (d, r) in enumerate(self.classes):
            at, chain = j + 1, []
            while at:
                chain.append(at)
                at = self.classes[at - 1][0]['base']
            sub = issubclass(r or d['_from'], real) if real is not None else False
            if sub and i + 1 not in chain:
                return
        self.ops.append({'op': 'own', 'i': i + 1})


KSIMPLE = ['sklearn.gaussian_process.kernels.' + n for n in ('RBF', 'WhiteKernel', 'ConstantKernel', 'Matern', 'DotProduct')]
COMPOSITES = ['sklearn.pipeline.Pipeline', 'sklearn.pipeline.FeatureUnion', 'sklearn.ensemble.VotingClassifier', 'sklearn.compose.ColumnTransformer',
              'sklearn.model_selection.GridSearchCV', 'sklearn.gaussian_process.GaussianProcessClassifier', 'sklearn.ensemble.BaggingRegressor',
              'sklearn.multiclass.OneVsRestClassifier', 'sklearn.gaussian_process.kernels.Sum', 'sklearn.ensemble.AdaBoostClassifier']
# Names that scikit-learn takes for parts of others, and parameters without an attribute of their own
AVOID = ('steps', 'transformer_list', 'estimators', 'transformers', 'k1', 'k2', 'kernel', 'kernels', 'estimator', 'base_estimator', 'regressor')


def generate(prop, rng, tier):
    m = Maker(rng)
    # Every class of the library, as it comes and with all its parameters changed
    for k, fqn in enumerate(REGISTERED + UNREGISTERED):
        m = Maker(rng)
        i = m.libclass(fqn)
        x = m.of(i)
        m.ops.append({'op': 'new', 'x': x})
        m.insts.append(x)
        m.ops.append({'op': 'clone', 'e': 1})
        taken = [text(n) for n, v in x['given'] if v['t'] in ('est', 'list', 'tuple')]
        for n in m.param_names(i):
            if n not in taken:
                m.ops.append({'op': 'set', 'e': 1, 'path': [{'k': 'p', 'n': codes(n)}], 'v': m.value(), 'plain': True})
        m.ops.append({'op': 'patch'})
        if works(m.ops, 0):
            yield {'cfg': {'patched': True}, 'salt': 0, 'ops': m.ops}
    for _ in range(500 * (12 if tier == 'thorough' else 1)):
        patched = rng.random() < 0.75
        m = Maker(rng)
        if rng.random() < 0.3:
            m.libclass(rng.choice(['sklearn.base.BaseEstimator', 'sklearn.model_selection.BaseCrossValidator', 'sklearn.gaussian_process.kernels.Kernel']))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            m.userclass()
        m.new()
        for _ in range(rng.randint(1, 8)):
            k = rng.random()
            if k < 0.15 and len(m.insts) < 4:
                m.new()
            elif k < 0.25:
                m.userclass()
            elif k < 0.55:
                m.set()
            elif k < 0.7 and len(m.insts) < 5:
                e = rng.randrange(len(m.insts))
                m.ops.append({'op': 'clone', 'e': e + 1})
                m.insts.append(m.insts[e])
            elif k < 0.8:
                m.ops.append({'op': 'patch'})
            elif k < 0.9:
                m.ops.append({'op': 'litter', 'e': 1 + rng.randrange(len(m.insts))})
            else:
                m.own()
        salt = rng.randrange(1000)
        if works(m.ops, salt):
            yield {'cfg': {'patched': patched}, 'salt': salt, 'ops': m.ops}
    x = {'t': 'est', 'cls': 1, 'given': []}
    yield {'cfg': {'patched': False}, 'ops': [{'op': 'class', 'fqn': 'sklearn.svm.SVC', 'c': {'n': codes('SVC'), 'base': 0, 'lib': True, 'attrs': False, 'own': False}},
                                              {'op': 'new', 'x': x}, {'op': 'check'}]}


def works(ops, salt):
    """Whether scikit-learn accepts all that: without asking for configurations."""
    w = World()
    try:
        for i, op in enumerate(ops):
            if op['op'] not in ('own', 'patch', 'check'):
                w.do(dict(op), salt + 7 * i)
    except Exception as e:
        import os
        if os.environ.get('SKDEBUG'):
            print(type(e), e, i, json.dumps(op)[:300])
        return False
    return True
