#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS : with a bug applied in /repo's working tree and /tmp/b/demo.cpp ready, record and validate it, then undo.
  mkseed.py --check ID : validate an existing one"""
import sys,os,subprocess,json,shutil
V='/verif/seeded'; L='/verif/tools/seedlib'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def validate(d):
    assert sh('git -C /repo status --porcelain -uno').stdout.strip()=='', 'repo dirty'
    r=sh('bash /opt/vp/build.sh'); assert r.returncode==0
    r0=sh('bash %s/demo.sh'%d,cwd='/repo'); print('clean demo rc',r0.returncode,r0.stdout[-300:])
    a=sh('git -C /repo apply %s/patch.diff'%d); assert a.returncode==0,a.stdout
    try:
        r=sh('bash /opt/vp/build.sh'); b=r.returncode
        t=sh('bash /opt/vp/test.sh /tmp/b/t.json').stdout[-40:]
        js=json.load(open('/tmp/b/t.json'))
        r1=sh('bash %s/demo.sh'%d,cwd='/repo')
    finally: sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    print('patched: build rc',b,'tests',js,'demo rc',r1.returncode,r1.stdout[-300:])
    return r0.returncode==0 and b==0 and not js['failed'] and len(js['passed'])>=4 and r1.returncode not in(0,3,4)
if sys.argv[1]=='--check': print(validate(os.path.join(V,sys.argv[2]))); sys.exit()
id,prop,needs,breaks=sys.argv[1:5]; d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
p=subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE).stdout; assert p.strip(); open(d+'/patch.diff','wb').write(p); sh('git -C /repo checkout -- .')
shutil.copy('/tmp/b/demo.cpp',d+'/demo.cpp')
for f in('mn.h','vp_shim.h'): shutil.copy(L+'/'+f,d)
shutil.copy(L+'/ov2.py',d+'/ov.py'); shutil.copy('/verif/engine/build.py',d+'/vpb.py'); shutil.copy('/verif/engine/adapt_nn.py',d)
if 'vp_nn.h' in open('/tmp/b/demo.cpp').read():
    open(d+'/vp_nn.h','w').write(open('/verif/harness/vp_nn.h').read().replace('vp_mathn.h','mn.h')); shutil.copy('/verif/harness/vp_blas.h',d)
shutil.copy(L+'/run.sh',d+'/demo.sh')
json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
ok=validate(d); print('VALID' if ok else 'INVALID')
if not ok: sys.exit(1)
