"""A process with some libraries missing or broken: executes what env_h.py asks, one JSON per line."""
from __future__ import print_function
import importlib
import json
import os
import sys

CFG = {}
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

ERRORS = [OSError('no such shared library'), ValueError('numpy.ufunc size changed'), RuntimeError('cannot be loaded'),
          AttributeError('gone'), SystemError('bad')]


class Blocker(object):
    """Makes some libraries impossible to import."""
    def find_spec(self, name, path=None, target=None):
        state = CFG['libs'].get(name.partition('.')[0], 'ok')
        if state == 'missing':
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if state == 'broken':
            raise ERRORS[CFG.get('pick', 0) % len(ERRORS)]
        return None




def attempt(f):
    try:
        return {'ok': True, 'v': f(), 'importerror': False}
    except Exception as e:
        return {'ok': False, 'v': 0, 'importerror': isinstance(e, ImportError)}


def start():
    for name in CFG.get('order', ()) or ['whatami']:
        importlib.import_module(name)
    return 0


def imports(op):
    importlib.import_module(op['module'])
    return 0


def has(op):
    import whatami.plugins
    r = {'numpy': whatami.plugins.has_numpy, 'pandas': whatami.plugins.has_pandas}[op['lib']]()
    if not isinstance(r, bool):
        raise ValueError(r)
    return r


def table(op):
    from whatami.registry import Recorder
    r = Recorder()
    r.add(['f(x=1)', 'g(x=2)'], score=[3, 4])
    t = r.to_df()
    return 0 if len(t) == 2 and list(t["score"]) == [3, 4] else 1


def patch(op):
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    whatamize_sklearn()
    return 0


class Plain(object):
    def __init__(self, a=1, b=('x', 2)):
        self.a, self.b = a, b


class Other(Plain):
    pass


class Slots(object):
    __slots__ = ['a', '_b', 'c_']

    def __init__(self):
        self.a, self._b, self.c_ = 1, 2, 3


def user(a, b=2, c=(1, None)):
    return a


# What the arrays, frames, estimators... of these expressions are called: the same, whatever the process
THINGS = [
    # nothing needed
    (), ["user", "partial(user, 1)", "partial(user, a=1, b={'x', 'y', 'z'})", "lambda x=1: x", "Plain()", "Plain(a=2)", "Plain",
         "Plain(b={'k': frozenset(['p', 'q'])})", "Slots()", "whatable(user)", "whatable(Other)(a=3)", "OrderedDict([('b', 1), ('a', 2)])",
         "whatable(partial(user, b=7))", "partial(partial(user, 1), c=9)", "{'a', 'b', 'c', 'd', 'e'}", "{'x%d' % i: i for i in range(9)}",
         "Plain(a=user)", "Plain(a=lambda y=4: y)", "Plain(a=Plain(a=5))", "1.1 + 2.2", "Plain(a=1e22)", "What('f', {'x': 1}, non_id_keys=['x'])"],
    ('numpy',), ["np.arange(3)", "np.arange(3.)", "np.arange(4.).reshape(2, 2)", "np.array(['a', 'b'])", "np.array([{'a', 'b'}, None], dtype=object)",
                 "np.array([{'k': 1, 'j': 2}], dtype=object)", "np.ma.masked_array([1, 2], mask=[True, False])", "np.random.RandomState(3)",
                 "np.array([(1, 2.)], dtype=[('x', '<i4'), ('y', '<f8')])", "np.float64(0.5)", "np.array(7)", "np.zeros((0, 3))",
                 "Plain(a=np.ones(2))", "partial(user, np.ones(3))"],
    ('pandas',), ["pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']})", "pd.Series([1., 2.], name='s')", "pd.DataFrame({'a': [1, 2]}, index=['p', 'q'])",
                  "Plain(a=pd.Series([3]))", "pd.DataFrame({'c': [{1, 2}, {'z'}]})"],
    ('sklearn',), ["KMeans(n_clusters=3)", "KMeans(n_clusters=3, n_init=4)", "Pipeline([('norm', Normalizer()), ('km', KMeans(n_clusters=2))])",
                   "RandomForestClassifier(n_estimators=9)", "Plain(a=Normalizer())", "KFold(n_splits=4)"],
]
THINGS = [(need, e) for i in range(0, len(THINGS), 2) for need in [THINGS[i][0] if THINGS[i] else ''] for e in THINGS[i + 1]]


def thing(op):
    need, e = THINGS[op['key']]
    from collections import OrderedDict
    from functools import partial
    from whatami import What, whatable, what2id
    space = dict(globals(), OrderedDict=OrderedDict, partial=partial, What=What, whatable=whatable)
    if need in ('numpy', 'pandas'):
        space['np'] = importlib.import_module('numpy')
    if need == 'pandas':
        space['pd'] = importlib.import_module('pandas')
    if need == 'sklearn':
        from sklearn.cluster import KMeans
        from sklearn.pipeline import Pipeline
        from sklearn.preprocessing import Normalizer
        from sklearn.ensemble import RandomForestClassifier
        from sklearn.model_selection import KFold
        space.update(locals())
    v = eval(e, space)
    r = What('f', {'x': v}).id() if op['nested'] or need in ('numpy', 'pandas') else what2id(v)
    if not isinstance(r, str):
        raise ValueError(r)
    return [ord(c) for c in r]


def ask(op):
    import lang
    return lang.execute('C01', {'ops': [op['do']]})['ops'][0]


def dump(op):
    import base64
    import pickle
    from common import dec
    return base64.b64encode(pickle.dumps(dec(op['v']), op['protocol'])).decode('ascii')


def load(op):
    import base64
    import pickle
    w = pickle.loads(base64.b64decode(op['data'].encode('ascii')))
    return [ord(c) for c in w.id(nonids_too=op['nonids'])]


def main():
    CFG.update(json.loads(sys.argv[1]))
    sys.meta_path.insert(0, Blocker())
    replies = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

    def reply(r):
        replies.write(json.dumps(r) + '\n')
        replies.flush()
    reply(attempt(start))
    import signal

    def alarm(*_):
        os._exit(3)
    signal.signal(signal.SIGALRM, alarm)
    for line in sys.stdin:
        signal.alarm(60)
        name, op = json.loads(line)
        f = {'import': imports, 'has': has, 'table': table, 'patch': patch, 'thing': thing, 'ask': ask, 'dump': dump, 'load': load}[name]
        reply(attempt(lambda: f(op)))
        signal.alarm(0)
    os._exit(0)


if __name__ == '__main__':
    main()
