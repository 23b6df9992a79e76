#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides a property of the code in /repo: explores the specification with TLC, executes its behaviours (and random ones)
against the real code, and checks everything recorded against the specification, again with TLC.
VERIF_SEED and VERIF_TIER (quick, thorough) are taken from the environment.
"""
import json
import os
import shutil
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from tlc import MachineryError, model_check, check_traces, printed  # noqa
import props  # noqa
import findings  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')  # another place only to try changes without touching /repo
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def repo_env():
    """The environment in which the code runs."""
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    for kv in out.split(b'\0'):
        k, _, v = kv.decode('utf8', 'replace').partition('=')
        if k:
            env[k] = v
    env['PYTHONPATH'] = REPO
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = '1'
    env['VERIF_SEED'] = os.environ.get('VERIF_SEED', '1')
    return env


def python_of(env):
    return env.get('PY', PYTHON)


class Check(object):

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.p = props.PROPS[prop]
        self.tier = tier
        self.seed = seed
        self.build = os.path.join(VERIF, 'build', prop)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.env = repo_env()
        # Anything the code writes goes to a scratch folder
        self.scratch = os.path.join(self.build, 'scratch')
        os.makedirs(self.scratch)
        self.env['HOME'] = self.scratch
        self.env['TMPDIR'] = self.scratch
        self.coverage = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.detail = {}

    # --- The specification, on its own

    def explore(self):
        cases = []
        for mc in self.p.get('mc', ()):
            if mc.get('only', self.tier) != self.tier:
                continue
            cfg = mc.get('cfg_thorough', mc['cfg']) if self.tier == 'thorough' else mc['cfg']
            r = model_check(mc['module'] + '.tla', cfg, self.build, 'mc-' + cfg.replace('.cfg', ''), workers=mc.get('workers', 6))
            self.coverage['states'] += r['stats']['distinct']
            self.coverage['transitions'] += r['stats']['generated']
            self.detail['model %s/%s' % (mc['module'], cfg)] = dict(r['stats'])
            got = printed(r['text'], 'CASE')
            edges = printed(r['text'], 'EDGE')
            if edges:
                got += props.cover(edges, mc)
            if mc.get('exports', True) and not got:
                raise MachineryError('%s exported nothing' % mc['module'])
            if mc.get('wrap'):
                got = [mc['wrap'](c) for c in got]
            if 'limit' in mc:
                limit = mc['limit'][self.tier]
                if len(got) > limit:
                    import random
                    got = random.Random(self.seed).sample(got, limit)
            self.detail['behaviours from %s/%s' % (mc['module'], cfg)] = len(got)
            cases += got
        return cases

    # --- The real code

    def execute(self, cases, tag, generate=True, seconds=None):
        """Executes cases in several processes; returns the file with what was recorded."""
        infile = os.path.join(self.build, 'cases-%s.jsonl' % tag)
        with open(infile, 'w') as f:
            for c in cases:
                f.write(json.dumps(c) + '\n')
        n = self.p.get('shards', 4) if generate else 1
        outs = []
        procs = []
        for i in range(n):
            out = os.path.join(self.build, 'traces-%s-%d.jsonl' % (tag, i))
            outs.append(out)
            log = open(out + '.log', 'w')
            work = os.path.join(self.scratch, '%s-%d' % (tag, i))
            os.makedirs(work, exist_ok=True)
            procs.append(subprocess.Popen(
                [python_of(self.env), '-W', 'ignore', os.path.join(VERIF, 'harness', 'run.py'), self.p['harness'],
                 self.prop if generate else 'replay-' + self.prop, str(self.seed), self.tier, infile, out, str(i), str(n)],
                stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self.env, cwd=work))
        limit = time.time() + (seconds or self.p.get('seconds', 600 if self.tier == 'quick' else 6000))
        dead = []
        for p, out in zip(procs, outs):
            try:
                rc = p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = 'timeout'
            with open(out + '.log', errors='replace') as f:
                log = f.read()
            if rc != 0 or 'DONE' not in log:
                now = out + '.now'
                if not os.path.exists(now):
                    raise MachineryError('the harness could not run (%s)\n%s' % (rc, log[-3000:]))
                with open(now) as f:
                    dead.append((json.load(f), 'process_death (%s)' % rc, log[-500:]))
        return outs, dead

    def judge(self, outs, tag):
        """Everything recorded, against the specification."""
        traces = []
        trace_file = os.path.join(self.build, 'traces-%s.jsonl' % tag)
        odd = []
        with open(trace_file, 'w') as g:
            for out in outs:
                if not os.path.exists(out):
                    continue
                with open(out) as f:
                    for line in f:
                        if not line.endswith('\n'):
                            continue  # the process died here
                        t = json.loads(line)
                        c = t.pop('case')
                        if 'crash' in t or 'timeout' in t:
                            odd.append((c, 'crash' if 'crash' in t else 'timeout', t.get('crash', '')))
                            continue
                        traces.append(c)
                        g.write(json.dumps({'cfg': t['cfg'], 'ops': t['ops']}) + '\n')
        bads, stats = check_traces(self.p['spec'], trace_file, self.build, 'trace-' + tag)
        self.coverage['states'] += stats['distinct']
        self.coverage['transitions'] += stats['generated']
        self.coverage['traces_validated_against_impl'] += len(traces)
        self.detail['recorded operations (%s)' % tag] = stats['distinct'] - len(traces)
        if traces:
            for i in (0, len(traces) // 2, len(traces) - 1):
                self.coverage['samples'].append(json.dumps(traces[i])[:400])
        res = [(traces[t - 1], clause, k) for t, k, clause in bads] + [(c, what, 0) for c, what, _ in odd]
        for c, what, log in odd:
            self.detail.setdefault('odd', []).append(log[-800:])
        return res

    def confirm(self, c, clause):
        """Only repeatable problems count, when the machine might be to blame."""
        outs, dead = self.execute([c], 'confirm', generate=False, seconds=120)
        if dead:
            return True
        return bool(self.judge(outs, 'confirm'))

    def run(self, replay=None):
        start = time.time()
        if replay is not None:
            with open(replay) as f:
                d = json.load(f)
            outs, dead = self.execute([d['case']], 'replay', generate=False)
        else:
            cases = self.explore() + props.corpus(self.prop)
            outs, dead = self.execute(cases, 'all')
        problems = self.judge(outs, 'all') + [(c, what, 0) for c, what, _ in dead]
        known, new = [], []
        for c, clause, k in problems:
            f = findings.known(self.prop, c, clause)
            if f is not None:
                known.append(f)
            else:
                new.append((c, clause, k))
        lines = []
        for c, clause, k in new[:40]:
            if clause in ('timeout',) or clause.startswith('process_death'):
                if not self.confirm(c, clause):
                    self.detail.setdefault('not repeatable', []).append(clause)
                    continue
            path = self.save(c, clause, k, len(lines))
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s: clause %s broken at step %d of %s' % (self.prop, clause, k, json.dumps(c)[:600]))
            if len(lines) >= 5:
                break
        for f in sorted(set(known)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f))
        for line in lines:
            print(line)
        if replay is None:
            self.evidence(time.time() - start, len(lines))
        if not lines:
            print('%s holds: %d behaviours of the code checked, %d states explored, in %.1fs' % (
                self.prop, self.coverage['traces_validated_against_impl'], self.coverage['states'], time.time() - start))
        return 1 if lines else 0

    def save(self, c, clause, k, n):
        d = os.path.join(VERIF, 'build', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'clause': clause, 'step': k, 'case': c}, f)
        return path

    def evidence(self, wall, violations):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(self.coverage, detail=self.detail)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': int(self.seed), 'level': 'model_checking', 'coverage': cov,
                       'assumptions': self.p.get('assumptions', []) + props.ASSUMPTIONS, 'wall_s': round(wall, 2),
                       'violations': violations}, f, indent=1)


def main():
    args = sys.argv[1:]
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        args = args[:i] + args[i + 2:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        return Check(prop, 'thorough' if tier == 'thorough' else 'quick', seed).run(replay)
    except MachineryError as e:
        print('CHECK BROKEN: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
