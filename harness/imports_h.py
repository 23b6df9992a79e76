"""Optional imports: executes the operations of spec/Imports.tla in a scratch directory of modules."""
from __future__ import print_function
import importlib
import os
import shutil
import sys
import tempfile
import types

from whatami.misc import maybe_import, maybe_import_member, import_submodules
from whatami.whatutils import whatamize_object
from common import codes, text, _reraise

OTHER = ['raise ValueError("bad value")', 'raise OSError("no such library")', 'def (:', 'raise AttributeError("gone")', '1 / 0',
         'raise KeyError("x")', 'raise NotImplementedError()', 'import sys; sys.nothing_like_this', 'raise RuntimeError("x")',
         'raise TypeError("x")']
IMPORT = ['import vp_not_there', 'from sys import vp_not_there', 'raise ImportError("needs a library")', 'from . import vp_not_there',
          'raise ImportError()', 'import sys.vp_not_there']
ATTRS = ['module', '_errors', '_variants', '_library_name', 'fit_transform', '__class__', '__dict__', 'ndarray', 'what', '_maybe_import',
         '_install_msg', '__name__']


def dotted(p):
    return '.'.join(map(text, p))


def write(root, m, classes, pick):
    path = os.path.join(root, *map(text, m['path']))
    if m['pkg']:
        if not os.path.isdir(path):
            os.makedirs(path)
        path = os.path.join(path, '__init__')
    lines = ['import %s' % dotted(n) for n in m['needs']]
    lines += ['%s = "member:%d"' % (text(n), i) for n, i in m['has']]
    for c, own, inherited in classes:
        if c[:-1] == m['path']:
            lines += ['class %s_(object):' % text(c[-1]), '    pass']
            if inherited:
                lines += ['    def what(self): pass', '    what.id = %d' % inherited]
            lines += ['class %s(%s_):' % (text(c[-1]), text(c[-1])), '    pass']
            if own:
                lines += ['    def what(self): pass', '    what.id = %d' % own]
    if m['s'] == 'import':
        lines.append(IMPORT[pick % len(IMPORT)])
    elif m['s'] == 'other':
        lines.append(OTHER[pick % len(OTHER)])
    with open(path + '.py', 'w') as f:
        f.write('\n'.join(lines) + '\n')


def forget():
    for name in list(sys.modules):
        if name.partition('.')[0].startswith('vp'):
            del sys.modules[name]
    sys.path_importer_cache.clear()
    importlib.invalidate_caches()


def attempt(f, project):
    try:
        r = f()
    except BaseException as e:
        _reraise()
        try:
            msg = codes(str(e))
        except Exception:
            msg = []
        return {'ok': False, 'importerror': type(e) is not type and isinstance(e, ImportError), 'msg': msg}
    return {'ok': True, 'v': project(r)}


def func(i):
    def what(self):
        pass
    what.id = i
    return what


def execute(prop, case):
    cfg = case['cfg']
    root = tempfile.mkdtemp(prefix='vpimports')
    dont = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    sys.path.insert(0, root)
    try:
        forget()
        mods = {dotted(m['path']): dict(m) for m in cfg['mods']}
        for i, m in enumerate(cfg['mods']):
            write(root, m, cfg['classes'], case.get('pick', 0) + i)
        importlib.invalidate_caches()
        return run(case, cfg, root, mods)
    finally:
        sys.path.remove(root)
        sys.dont_write_bytecode = dont
        forget()
        shutil.rmtree(root)


def run(case, cfg, root, mods):
    hands = []

    def use(h, attr):
        return attempt(lambda: getattr(h, attr), lambda r: 0)

    def maybe(r):
        if type(r) is types.ModuleType:
            return {'mod': codes(r.__name__) if sys.modules.get(r.__name__) is r else [0], 'uses': []}
        hands.append(r)
        return {'mod': [], 'uses': [{'attr': codes(a), 'o': use(r, a)} for a in ATTRS]}

    def variants(op):
        hint = text(op['hint'][0]) if op['hint'] else None
        return ([hint] if op['hint'] or op['variants'] else []) + [dotted(v) for v in op['variants']]

    def member(r):
        return 0 if r is None else int(r.split(':')[1])

    def collect(op):
        package = dotted(op['pkg'])
        if op.get('bymodule'):
            try:
                package = importlib.import_module(package)
            except Exception:
                pass
        kw = {}
        if not op['deep'] or op.get('explicit'):
            kw['recurse_packages'] = op['deep']
        if not op['ignore'] or op.get('explicit'):
            kw['ignore_errors'] = op['ignore']
        return import_submodules(package, **kw)

    def whatamize(op):
        c = dotted(op['class'])
        if op['byclass']:
            module, _, name = c.rpartition('.')
            c = getattr(importlib.import_module(module), name)
        kw = {}
        if op['force'] or op.get('explicit'):
            kw['force'] = op['force']
        if not op['fail'] or op.get('explicit'):
            kw['fail_on_import_error'] = op['fail']
        return whatamize_object(c, func(op['f']), **kw)

    def whats():
        res = []
        for c, _, _ in cfg['classes']:
            try:
                k = getattr(importlib.import_module(dotted(c[:-1])), text(c[-1]))
            except Exception:
                res.append([])
                continue
            own = k.__dict__.get('what')
            res.append([getattr(own, 'id', 0), getattr(getattr(k, 'what', None), 'id', 0)])
        return res

    ops = []
    for op in case['ops']:
        op = dict(op)
        k = op['op']
        if k == 'maybe':
            op['obs'] = attempt(lambda: maybe_import(dotted(op['lib']), *variants(op)), maybe)
        elif k == 'use':
            op['obs'] = use(hands[op['h'] - 1], text(op['attr']))
        elif k == 'member':
            args = variants(op)
            kw = {}
            if not args and (not op['fail'] or op.get('explicit')):
                kw['fail_if_import_error'] = op['fail']
            elif args:
                args.insert(0, op['fail'])
            op['obs'] = attempt(lambda: maybe_import_member(dotted(op['fqn']), *args, **kw), member)
        elif k == 'submodules':
            op['obs'] = attempt(lambda: collect(op), lambda r: [
                codes(n if sys.modules.get(n) is m and getattr(m, '__name__', None) == n else n + '!') for n, m in sorted(r.items())])
        elif k == 'install':
            m = mods[dotted(op['path'])]
            m['s'] = 'ok'
            write(root, m, cfg['classes'], 0)
            sys.path_importer_cache.clear()
            importlib.invalidate_caches()
            op['obs'] = {'ok': True, 'v': 0}
        elif k == 'whatamize':
            op['obs'] = attempt(lambda: whatamize(op), lambda r: 0)
            op['whats'] = whats()
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


ROOTS = ['vpone', 'vptwo', 'vpthree']
SUBS = ['alpha', 'beta', 'gamma', 'vptwo', 'vpthree', '_hidden', 'tests']
MEMBERS = ['foo', 'bar', 'module', 'what', 'fit_transform']


def generate(prop, rng, tier):
    def cs(*names):
        return [codes(n) for n in names]
    for _ in range(500 * (10 if tier == 'thorough' else 1)):
        mods, n = [], [0]

        def ident():
            n[0] += 1
            return n[0]

        def state():
            return rng.choice(['ok'] * 5 + ['import', 'other'])

        def add(path, depth, roots):
            pkg = rng.random() < (0.75 if depth == 0 else 0.35) and depth < 3
            m = {'path': cs(*path), 'pkg': pkg, 's': state(),
                 'needs': [m['path'] for m in rng.sample(roots, min(len(roots), rng.choice([0, 0, 0, 1])))] +
                          ([cs('vpmissing')] if rng.random() < 0.04 else []),
                 'has': [[codes(x), ident()] for x in rng.sample(MEMBERS, rng.randint(0, 3))]}
            mods.append(m)
            if pkg:
                for s in rng.sample(SUBS, rng.randint(0, 3)):
                    add(path + [s], depth + 1, roots)
        for r in rng.sample(ROOTS, rng.randint(1, 3)):
            add([r], 0, list(mods))
        classes = []
        for m in mods:
            for c in ('K', 'L'):
                if rng.random() < 0.2:
                    classes.append([m['path'] + cs(c), rng.choice([0, 0, ident()]), rng.choice([0, 0, ident()])])
        paths = [m['path'] for m in mods]
        status = {dotted(m['path']): m for m in mods}
        missing = [cs('vpmissing'), cs('vpone', 'absent'), cs('vpnope', 'x')]

        def importable(p):
            m = status.get(dotted(p))
            return m is not None and m['s'] == 'ok' and (len(p) == 1 or importable(p[:-1])) and all(map(importable, m['needs']))

        def path():
            return rng.choice(paths) if rng.random() < 0.7 else rng.choice(missing)

        def hint():
            return rng.choice([[], [], [codes('pip')], [codes('conda')], [codes('sudo apt-get cool')], [codes('100%s sure')]])
        ops, hands = [], 0
        for _ in range(rng.randint(3, 9)):
            k = rng.random()
            if k < 0.3:
                op = {'op': 'maybe', 'lib': path(), 'hint': hint(), 'variants': [path() for _ in range(rng.choice([0, 0, 1, 2, 3]))]}
                if not any(importable(p) for p in (op['variants'] or [op['lib']])):
                    hands += 1
            elif k < 0.37:
                if not hands:
                    continue
                op = {'op': 'use', 'h': rng.randint(1, hands), 'attr': codes(rng.choice(ATTRS))}
            elif k < 0.52:
                p = path()
                m = status.get(dotted(p))
                vs = [path() for _ in range(rng.choice([0, 0, 0, 1, 2]))]
                op = {'op': 'member', 'fqn': p + [rng.choice([x for x, _ in m['has']] if m and m['has'] and not vs else cs(*MEMBERS))],
                      'fail': rng.random() < 0.5, 'hint': hint(), 'variants': vs, 'explicit': rng.random() < 0.5}
            elif k < 0.72:
                op = {'op': 'submodules', 'pkg': path(), 'deep': rng.random() < 0.7, 'ignore': rng.random() < 0.6,
                      'bymodule': rng.random() < 0.3, 'explicit': rng.random() < 0.3}
            elif k < 0.8:
                broken = [m for m in mods if m['s'] != 'ok']
                if not broken:
                    continue
                m = rng.choice(broken)
                op = {'op': 'install', 'path': m['path']}
            else:
                c = rng.choice([c[0] for c in classes]) if classes and rng.random() < 0.85 else rng.choice([cs('vpmissing', 'K'), cs('vpone', 'absent', 'K')])
                op = {'op': 'whatamize', 'class': c, 'f': ident(), 'force': rng.random() < 0.35, 'fail': rng.random() < 0.5,
                      'byclass': rng.random() < 0.3 and importable(c[:-1]), 'explicit': rng.random() < 0.3}
            ops.append(op)
            if op['op'] == 'install':
                for m in mods:
                    if m['path'] == op['path']:
                        status[dotted(m['path'])] = dict(m, s='ok')
        yield {'cfg': {'mods': mods, 'classes': classes}, 'ops': ops, 'pick': rng.randrange(60)}
