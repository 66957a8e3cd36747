# Source of /verif/MANIFEST.json: python3 tools/manifest.py
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
NOTES=json.load(open(os.path.join(root,'tools','notes.json')))
NA=json.load(open(os.path.join(root,'tools','na.json')))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if not os.path.exists(os.path.join(root,'harness','props',i+'.mjs')):
        na.append(dict(property=i,reason='check under construction; not claimed yet')); continue
    n=NOTES.get(i,{})
    checks.append(dict(property=i,quick_cmd=f'VERIF_TIER=quick node harness/run.mjs {i}',thorough_cmd=f'VERIF_TIER=thorough node harness/run.mjs {i}',
        technique=n.get('technique','TLA+ specification checked with TLC; its behaviours replayed into the real code and recorded executions validated against it'),
        level='model_checking',
        level_note=n.get('note','Exhaustive on the specification within the stated constants; the binding to the code covers the replayed and recorded executions.')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: every check bundles /repo\'s current sources with esbuild and injects timers, clock, randomness, core modules per instance.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),ensure_ascii=False,indent=1)
print(len(checks),'claimed',len(na),'not')
