#!/usr/bin/env python3
"""plant.py FILE.py [ids]: FILE defines BUGS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)].
Makes each change in a scratch clone of /repo, checks that it builds, passes the stable tests, fails its demo (which passes without it), writes
/verif/seeded/<id>/ and reports whether the property's check notices; the clone is restored after each."""
import sys,os,json,subprocess,textwrap
ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
REPO='/tmp/pl/repo' # a scratch clone (tools/scratch.sh makes it)
subprocess.check_call(['bash','/verif/tools/scratch.sh'])
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
LOAD=open('/verif/tools/demo_load.mjs').read()
def restore(): sh(f'git -C {REPO} checkout -- .')
skip_tests=os.environ.get('SKIPTESTS'); skip_check=os.environ.get('SKIPCHECK')
if sh(f'git -C {REPO} status --short').stdout.strip(): sys.exit('repo dirty')
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
    open(d+'/load.mjs','w').write(LOAD)
    open(d+'/demo.mjs','w').write(textwrap.dedent(b['demo']).lstrip())
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: the property holds, nonzero: it does not\nexec timeout 120 node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n'); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    def fail(m): print(b['id'],'REJECTED:',m); sh(f"mkdir -p /tmp/rejected; mv {d} /tmp/rejected/{b['id']}.$$"); restore()
    r=sh(f'bash {d}/demo.sh',cwd=REPO)
    if r.returncode: fail('demo fails on the unchanged tree: '+(r.stdout+r.stderr)[-800:]); continue
    bad=None
    for p,old,new in b['edits']:
        f=f'{REPO}/packages/{p}'; s=open(f).read()
        if s.count(old)!=1: bad=f'{p}: old text found {s.count(old)} times'; break
        open(f,'w').write(s.replace(old,new))
    if bad: fail(bad); continue
    orig=[]
    for p,old,new in b['edits']: # lines the patch removes that stood in the original repository
        base=sh(f'git -C {REPO} show 8e1115b:packages/{p}').stdout.splitlines(); orig+=[x[1:] for x in sh(f'git -C {REPO} diff -U0 -- packages/{p}').stdout.splitlines() if x[:1]=='-' and x[:3]!='---' and x[1:] in base and len(x.strip())>3]
    if not orig: fail('changes no line of the original repository'); continue
    open(d+'/patch.diff','w').write(sh(f'git -C {REPO} diff').stdout)
    r=sh(f'bash {d}/demo.sh',cwd=REPO)
    if not r.returncode: fail('demo passes with the change'); continue
    msg=(r.stdout+r.stderr).strip().splitlines(); msg=[x for x in msg if 'Error' in x or 'FAIL' in x][:1]
    r=sh('bash /tmp/pl/vp/build.sh')
    if r.returncode: fail('does not build: '+(r.stdout+r.stderr)[-600:]); continue
    if not skip_tests:
        r=sh('BASE=/tmp/pl/vp bash /verif/tools/basetest.sh')
        if 'missing 0' not in r.stdout:
            r=sh('BASE=/tmp/pl/vp bash /verif/tools/basetest.sh')
            if 'missing 0' not in r.stdout: fail('tests: '+r.stdout[:400]); continue
    res='unchecked'
    if not skip_check:
        r=sh(f"VERIF_REPO={REPO} VERIF_SEED=1 VERIF_TIER=quick node /verif/harness/run.mjs {b['prop']}"); res='CAUGHT' if r.returncode==1 and f"VIOLATION property={b['prop']} " in r.stdout else f'missed (rc {r.returncode})'
    restore(); print(b['id'],res,msg,flush=True)
restore(); sh('bash /tmp/pl/vp/build.sh')
