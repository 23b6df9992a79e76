"""mk.py NAME...: make seeds, verify."""
import json, os, subprocess, sys, shutil
sys.path.insert(0, '/tmp/sd')
R='/repo/whatami/'
def sh(c, **k):
    return subprocess.run(['bash','-c',c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def blame_ok(f, patch):
    # removed lines must be of the base
    import re
    base='0935fae'
    out=sh('git -C /repo blame -s HEAD -- %s' % f).stdout.splitlines()
    cur=None; ok=True
    for l in patch.splitlines():
        m=re.match(r'@@ -(\d+)', l)
        if m: cur=int(m.group(1)); continue
        if cur is None: continue
        if l.startswith('-'):
            if base not in out[cur-1].split()[0]: ok=False; print('   not original:', out[cur-1])
            cur+=1
        elif not l.startswith('+'): cur+=1
    return ok
def main(names, seeds):
    for name in names:
        s=seeds[name]
        d='/verif/seeded/'+name
        os.makedirs(d, exist_ok=True)
        assert sh('git -C /repo status --porcelain').stdout=='', 'dirty'
        try:
            for f,old,new in s['edits']:
                t=open(R+f).read()
                assert t.count(old)==1, (name, f, t.count(old))
                open(R+f,'w').write(t.replace(old,new))
            patch=sh('git -C /repo diff').stdout
            ok=blame_ok('whatami/'+s['edits'][0][0], patch)
        finally:
            sh('git -C /repo checkout -q -- .')
        open(d+'/patch.diff','w').write(patch)
        open(d+'/demo.py','w').write(s['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n$PY -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
        clean=sh('cd /repo && bash %s/demo.sh' % d)
        r=sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode==0, r.stdout
        try:
            bug=sh('cd /repo && bash %s/demo.sh' % d)
            tests=sh('bash /tmp/cmp.sh').stdout.strip().splitlines()[-1] if '--fast' not in sys.argv else '-'
            chk=sh('cd /verif && python3 check.py %s' % s['property'])
            last=[l for l in chk.stdout.splitlines() if 'VIOLATION' in l or 'holds' in l][:1]
            clause=[l for l in chk.stdout.splitlines() if 'clause' in l][:1]
        finally:
            sh('git -C /repo checkout -q -- .')
        print(name, s['property'], 'orig' if ok else 'NOT-ORIGINAL', 'clean', clean.returncode, clean.stdout[-300:] if clean.returncode else '', 'bug', bug.returncode, bug.stdout.strip().splitlines()[-1:], tests, '| check', chk.returncode, last, clause and clause[0][:60], flush=True)
if __name__=='__main__':
    import defs
    names=[a for a in sys.argv[1:] if not a.startswith('--')] or list(defs.S)
    main(names, defs.S)
