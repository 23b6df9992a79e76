"""Running TLC: model checking, and checking recorded behaviours against the specification."""
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


# Seconds that TLC has
TIME = 800 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 4000


class MachineryError(Exception):
    pass


def tlc_cmd(module, cfg, metadir, workers, heap, extra=()):
    return ['java', '-DTLA-Library=' + SPEC, '-Xss128m', '-Xmx%s' % heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
            '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-nowarning', '-noGenerateSpecTE', '-metadir', metadir, '-config', cfg] + list(extra) + [module]


def run_tlc(module, cfg, build, tag, workers=8, heap='6g', env=None, timeout=TIME, extra=()):
    """Runs TLC in the spec directory; returns its output and statistics."""
    meta = os.path.join(build, 'tlc-' + tag)
    os.makedirs(meta, exist_ok=True)
    out = os.path.join(build, 'tlc-%s.out' % tag)
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') as f:
        p = subprocess.run(tlc_cmd(module, cfg, meta, workers, heap, extra), cwd=SPEC, stdout=f, stderr=subprocess.STDOUT,
                           env=e, timeout=timeout)
    with open(out, errors='replace') as f:
        text = f.read()
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue', text)
    if m is None:
        m2 = re.search(r'The number of states generated: (\d+)', text)  # simulation
        stats = {'generated': int(m2.group(1)), 'distinct': int(m2.group(1)), 'left': 0} if m2 else None
    else:
        stats = {'generated': int(m.group(1)), 'distinct': int(m.group(2)), 'left': int(m.group(3))}
    ok = 'Model checking completed. No error has been found.' in text or ('-simulate' in extra and p.returncode == 0)
    return {'rc': p.returncode, 'text': text, 'stats': stats, 'ok': ok, 'out': out}


def printed(text, tag):
    """The JSON values printed by the specification as "<tag> <json>"."""
    res = []
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + ' '):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def model_check(module, cfg, build, tag, **kw):
    r = run_tlc(module, cfg, build, tag, **kw)
    if not r['ok'] or r['stats'] is None or r['stats']['left']:
        raise MachineryError('model checking of %s (%s) failed, see %s\n%s' % (module, cfg, r['out'], r['text'][-3000:]))
    return r


def check_traces(module, trace_file, build, tag, workers=8, timeout=TIME, heap='8g'):
    """Checks the behaviours in a file against the specification: returns [(trace, step, clause)] and statistics."""
    n, total = 0, 0
    lens = []
    with open(trace_file) as f:
        for line in f:
            lens.append(len(json.loads(line)['ops']))
    if not lens:
        return [], {'generated': 0, 'distinct': 0}
    r = run_tlc('Trace_%s.tla' % module, 'Trace.cfg', build, tag, env={'TRACE_FILE': trace_file}, workers=workers, timeout=timeout,
                heap=heap)
    if not r['ok']:
        raise MachineryError('checking traces with Trace_%s failed, see %s\n%s' % (module, r['out'], r['text'][-3000:]))
    bads = [tuple(b) for b in printed(r['text'], 'BAD')]
    where = {}
    for t, k, clause in bads:
        where[t] = (k, clause)
    expected = sum((where[i + 1][0] if i + 1 in where else n) + 1 for i, n in enumerate(lens))
    if r['stats']['distinct'] != expected:
        raise MachineryError('Trace_%s visited %d states, not %d: see %s' % (module, r['stats']['distinct'], expected, r['out']))
    return sorted((t, k, c) for t, (k, c) in where.items()), r['stats']
