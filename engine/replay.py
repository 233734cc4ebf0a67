#!/usr/bin/env python3-vt
"""replay.py FILE: rerun a recorded failing input against the real code, natively compiled from /repo's working tree."""
import sys, os, json, tempfile, shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, dsl, concctx, check, ctypes
r=json.load(open(sys.argv[1])); check.load_contracts()
u=next(x for x in dsl.UNITS if x.id==r['unit'])
print('unit',u.name,'covering',u.covers)
for o in r['failed_obligations']: print('failed obligation:',o['kind'],'|',o['where'],'\n  ',o['goal'])
f=r['failing_input']
if not f: print('no failing input was found by the search'); sys.exit(1)
d=tempfile.mkdtemp(prefix='vp_replay_')
try:
    b=build.compile_tu(d,u.tu); concctx.load_protos(u.tu,open(b['ir']).read(),None)
    print('inputs:',json.dumps(f['inputs'],default=str)[:2000]); print('recorded:',f['why']); sys.stdout.flush()
    lib=ctypes.CDLL(b['so']); lib.vp_live.restype=ctypes.c_long
    st,info=concctx.sample(lib,u,f['seed'],f['scale'])
    print('now:',st,info and info['why'])
    sys.exit(1 if st=='bad' else 0)
finally: shutil.rmtree(d,ignore_errors=True)
