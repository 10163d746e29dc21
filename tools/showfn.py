#!/usr/bin/env python3
"""Development aid: print the bodies of functions (reads /tmp/dump.json). Args: file names or File:Type::fn."""
import json,re,sys,subprocess
d=json.load(open('/tmp/dump.json'))
un=subprocess.run(['python3','/verif/tools/uncovered.py'],capture_output=True,text=True).stdout
miss={}
for l in un.split('\n')[1:]:
    p=l.split()
    if p: miss[p[0]]=set(p[2:])
for a in sys.argv[1:]:
    for f in d:
        if f.get('kind')!='fn' or f['file']!=a: continue
        n=((f['type'] or '')+'::' if f.get('type') else '')+f['name']
        n=re.sub(r'<.*?>','',n).replace(' ','')
        if n in miss.get(a,()):
            print('##',n,f['generics'],f['inputs'],'->',f['ret'],f['where'] or '', 'trait '+f['trait'] if f['trait'] else '', '\n  ',f['body'])
