"""Processes with different libraries: executes the operations of spec/Env.tla, each process a real one."""
from __future__ import print_function
import json
import os
import random
import subprocess
import sys

import lang
from common import text
from gen import Gen
from env_child import THINGS

CASE_SECONDS = 120
HERE = os.path.dirname(os.path.abspath(__file__))
NEEDS = [need for need, _ in THINGS]
SUBMODULES = ['whatami', 'whatami.what', 'whatami.misc', 'whatami.plugins', 'whatami.parsers', 'whatami.registry', 'whatami.whatutils',
              'whatami.minijoblib', 'whatami.minijoblib.hashing']
SKLEARN = ['whatami.wrappers', 'whatami.wrappers.what_sklearn']


class Process(object):
    def __init__(self, op, pick, work):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(op.get('seed', 0))
        env.update(op.get('env', {}))
        flags = ['-' + 'O' * op['opt']] if op.get('opt') else []
        cfg = {'libs': {l['lib']: l['s'] for l in op['libs']}, 'order': [o for o in op.get('order', [])], 'pick': pick}
        self.p = subprocess.Popen([sys.executable] + flags + ['-W', 'ignore', os.path.join(HERE, 'env_child.py'), json.dumps(cfg)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=work)
        self.started = self.read()

    def read(self):
        line = self.p.stdout.readline().decode('utf-8')
        return json.loads(line) if line.endswith('\n') else {'ok': False, 'v': 0, 'importerror': False}

    def do(self, name, op):
        try:
            self.p.stdin.write((json.dumps([name, op]) + '\n').encode('utf-8'))
            self.p.stdin.flush()
        except (OSError, IOError):
            return {'ok': False, 'v': 0, 'importerror': False}
        return self.read()

    def end(self):
        try:
            self.p.kill()
        finally:
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()


def execute(prop, case):
    procs = []
    ops = []
    try:
        for op in case['ops']:
            op = dict(op)
            k = op['op']
            if k == 'start':
                p = Process(op, case.get('pick', 0) + len(procs), os.getcwd())
                procs.append(p)
                op['obs'] = p.started
            elif k == 'carry':
                r = procs[op['p'] - 1].do('dump', {'v': op['do']['v'], 'protocol': op['protocol']})
                if r['ok']:
                    r = procs[op['q'] - 1].do('load', {'data': r['v'], 'nonids': op['do']['nonids']})
                op['do'] = dict(op['do'], obs={'ok': True, 'v': r['v']} if r['ok'] else {'ok': False, 'err': 'Error'})
                op['obs'] = {'ok': r['ok']}
            else:
                p = procs[op['p'] - 1]
                if k == 'ask':
                    r = p.do('ask', op)
                    op['obs'] = {'ok': r['ok']}
                    op['do'] = r['v'] if r['ok'] else dict(op['do'])
                elif k == 'thing':
                    op['need'] = NEEDS[op['key'] % len(THINGS)]
                    op['obs'] = p.do('thing', dict(op, key=op['key'] % len(THINGS)))
                else:
                    op['obs'] = p.do(k, op)
            ops.append({a: b for a, b in op.items() if a not in ('order', 'env', 'seed', 'opt')})
    finally:
        for p in procs:
            p.end()
    return {'cfg': {}, 'ops': ops}


ENVS = [{}, {'LC_ALL': 'C'}, {'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Tokyo'}, {'LC_ALL': 'C', 'PYTHONIOENCODING': 'ascii'}, {'PYTHONUTF8': '1'},
        {'COLUMNS': '20', 'USER': 'someone', 'LANG': 'tr_TR.UTF-8'}]


def working(libs, lib):
    s = {l['lib']: l['s'] for l in libs}
    needs = {'numpy': ['numpy'], 'pandas': ['numpy', 'pandas'], 'scipy': ['numpy', 'scipy'], 'sklearn': ['numpy', 'scipy', 'sklearn']}
    return all(s[n] == 'ok' for n in needs[lib])


def generate(prop, rng, tier):
    pools = {}

    def question():
        """Any operation of the language."""
        q = rng.choice(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C18', 'C20', 'C22', 'C26', 'C02', 'C01'])
        if not pools.get(q):
            pools[q] = []
            cases = lang.generate(q, random.Random(rng.random()), 'short')
            for c in cases:
                pools[q] += c['ops']
                if len(pools[q]) > 400:
                    break
            rng.shuffle(pools[q])
        return pools[q].pop()

    g = Gen(rng, nan=True)
    for _ in range(36 * (8 if tier == 'thorough' else 1)):
        ops, procs, patched = [], [], set()
        keys = rng.sample(range(len(THINGS)), 6)
        n = rng.choice([2, 2, 3])

        def begin():
            libs = [{'lib': l, 's': rng.choice(['ok', 'ok', 'ok', 'missing', 'broken'])} for l in ('numpy', 'pandas', 'scipy', 'sklearn')]
            if procs and rng.random() < 0.5:
                libs = [{'lib': l, 's': 'ok'} for l in ('numpy', 'pandas', 'scipy', 'sklearn')]
            procs.append(libs)
            ops.append({'op': 'start', 'libs': libs, 'seed': rng.randrange(1000), 'opt': rng.choice([0, 0, 1, 2]),
                        'order': rng.sample(SUBMODULES, rng.choice([0, 1, 3, len(SUBMODULES)])), 'env': rng.choice(ENVS)})
        begin()
        for step in range(rng.randint(20, 34)):
            k = rng.random()
            if k < 0.1 and len(procs) < n:
                begin()
                continue
            p = rng.randint(1, len(procs))
            libs = procs[p - 1]
            if k < 0.17:
                ops.append({'op': 'has', 'p': p, 'lib': rng.choice(['numpy', 'pandas'])})
            elif k < 0.23:
                ops.append({'op': 'import', 'p': p, 'module': rng.choice(SUBMODULES + SKLEARN * 4)})
            elif k < 0.26:
                ops.append({'op': 'table', 'p': p})
            elif k < 0.31:
                ops.append({'op': 'patch', 'p': p})
                patched.add(p)
            elif k < 0.36:
                ops.append({'op': 'carry', 'p': p, 'q': rng.randint(1, len(procs)), 'protocol': rng.choice([2, 3, 4]),
                            'do': {'op': 'id', 'v': g.top(2), 'nonids': rng.random() < 0.5}})
            elif k < 0.62:
                key = rng.choice(keys) if rng.random() < 0.7 else rng.randrange(len(THINGS))
                need = NEEDS[key]
                if need == '' or working(libs, need) and (need != 'sklearn' or p in patched):
                    ops.append({'op': 'thing', 'p': p, 'key': key, 'nested': rng.random() < 0.6})
            else:
                ops.append({'op': 'ask', 'p': p, 'do': question()})
        yield {'ops': ops, 'pick': rng.randrange(5)}
