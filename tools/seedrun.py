#!/usr/bin/env python3
"""seedrun.py [ids...] : apply each planted bug to /repo, run its property's check, undo; prints caught/missed"""
import sys,os,json,subprocess
V='/verif/seeded'; ids=sys.argv[1:] or sorted(os.listdir(V))
for i in ids:
    m=json.load(open('%s/%s/meta.json'%(V,i)))
    a=subprocess.run(['git','-C','/repo','apply','%s/%s/patch.diff'%(V,i)],capture_output=True,text=True)
    if a.returncode: print(i,'DOES NOT APPLY',a.stderr); continue
    try: r=subprocess.run(['python3-vt','/verif/engine/check.py',m['property']],capture_output=True,text=True,cwd='/verif')
    finally: subprocess.run(['git','-C','/repo','checkout','--','.'])
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('%-22s %s rc=%d %s'%(i,m['property'],r.returncode,('%d violation(s), %d with input; %s'%(len(v),sum('no-failing' not in x for x in v),v[0])) if v else 'MISSED '+r.stdout[-300:]),flush=True)
