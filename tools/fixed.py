#!/usr/bin/env python3
# rewrites the "fixed:" lines of known_findings.txt from the fix commits in /repo (properties assigned by the touched path / subject)
import subprocess,re
RULES=[(r'collectItems','C05'),(r'cancelExec|timeoutOr|timeoutLog','C06'),(r'select passes|singletonClass','C07'),(r'currying','C08'),(r'toTree','C11'),(r'randomSafe','C13'),
(r'withDelimiter|amountInWords','C14'),(r'[cC]ookie','C15'),(r'deleteOne','C17'),(r'diffFile|readline|readFragment','C18'),(r'readLnk','C19'),(r'kill ','C20'),(r'spawn','C21'),
(r'redirect|another host|post as a get','C22'),(r'request','C23'),
(r'copySymbolicLink|copy copies links|copy keeps forcibly|copy refuses|copyFile|mkdir|copy of a link|writeFile','C16'),
(r'copy keeps the content|copy copies the elements|copy keeps values|copy keeps the length|AggregateError','C24')]
try: exec(open('/verif/tools/fixed_rules.py').read())
except FileNotFoundError: pass
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
rev=[l.split('"')[1] for l in out if ' Revert "' in l]
lines=[]
for l in out:
    h,s=l.split(' ',1)
    if not s.startswith('fix:') or s in rev: continue
    for r,p in RULES:
        if re.search(r,s): lines.append(f'fixed: property={p} {h} {s[5:]}'); break
    else: print('no rule for',l)
keep=[l for l in open('/verif/known_findings.txt').read().splitlines() if not l.startswith('fixed:')]
open('/verif/known_findings.txt','w').write('\n'.join(keep+lines)+'\n')
