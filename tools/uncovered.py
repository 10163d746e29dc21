#!/usr/bin/env python3
"""Development aid: functions of /repo without a contract (reads /tmp/dump.json, made by tools/dump)."""
import json,re,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d=json.load(open('/tmp/dump.json'))
have=set()
for f in glob.glob('proofs/**/*.vt',recursive=True):
    t=open(f).read()
    for m in re.finditer(r'//@ fn (\S+) (.*)',t): have.add((m[1],m[2].strip()))
    for m in re.finditer(r'//@ impl (\S+) (\w+) for (\w+).*?//@ endimpl',t,re.S):
        for k in re.finditer(r'//@ method (\w+)',m[0]): have.add((m[1],f'{m[3]}::{k[1]}'))
miss={}
tot=0
for f in d:
    if f.get('kind')!='fn': continue
    n=((f['type'] or '')+'::' if f.get('type') else '')+f['name']
    n=re.sub(r'<.*?>','',n).replace(' ','')
    tot+=1
    if (f['file'],n) not in have and (f['file'],'Drop for '+n) not in have: miss.setdefault(f['file'],[]).append(n)
print(tot, sum(map(len,miss.values())))
for k,v in miss.items(): print(k,len(v),' '.join(v)); print()
