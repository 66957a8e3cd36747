#!/usr/bin/env python3
"""quiet.py FILE.py [names] [-- check ids]: FILE defines EDITS = {name: [(path under packages, old, new), ...]}: rewritings that keep the behaviour.
Applies them all (or the named ones) in a scratch clone of /repo, builds, runs the stable tests and then every check (or the given ones), which must stay quiet."""
import sys,os,re,subprocess,json
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns); rest=sys.argv[2:]; ids=[]
if '--' in rest: k=rest.index('--'); ids=rest[k+1:]; rest=rest[:k]
R='/tmp/qr'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
sh(f'mkdir -p {R}'); 
if not os.path.isdir(R+'/repo'): sh(f'git clone -q /repo {R}/repo; cp -r /opt/vp {R}/vp; sed -i -E "s#/repo\\b#{R}/repo#g; s#/opt/vp#{R}/vp#g" {R}/vp/*.sh {R}/vp/*.py {R}/vp/config/*.js*')
sh(f'cd {R}/repo && git fetch -q origin && git checkout -q -- . && git reset -q --hard origin/HEAD')
bad=0
for n,es in ns['EDITS'].items():
    if rest and n not in rest: continue
    for p,old,new in es:
        f=f'{R}/repo/packages/{p}'; s=open(f).read()
        m=list(re.finditer(r'\s+'.join(map(re.escape,old.split())),s)) # blanks and line breaks may differ
        if len(m)!=1: print(n,p,'old text found',len(m),'times'); bad=1; continue
        open(f,'w').write(s[:m[0].start()]+new.strip()+s[m[0].end():])
if bad: sys.exit(1)
r=sh(f'bash {R}/vp/build.sh')
if r.returncode: sys.exit('build: '+(r.stdout+r.stderr)[-2000:])
r=sh(f'BASE={R}/vp bash /verif/tools/basetest.sh'); print(r.stdout[:600])
allids=ids or [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def run(i):
    r=sh(f'VERIF_REPO={R}/repo VERIF_SEED=1 VERIF_TIER=quick node /verif/harness/run.mjs {i} quick',cwd='/verif'); return i,r.returncode,r.stdout+r.stderr
with ThreadPoolExecutor(3) as ex:
    for i,rc,o in ex.map(run,allids): print(i,rc,'' if rc==0 else o[-1500:],flush=True)
