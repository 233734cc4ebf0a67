#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM='nntl/interface/math/smatrix.h'
P=[]; NA=[]
TESTS='The four runnable tests build a few fixed small matrices'
def prop(id,title,statement,text,why,files,mech,over=('inputs',),note=None,level='proof',na=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech])))
    if na: NA.append(dict(property=id,reason=na))
    else: CH.append(dict(property=id,quick_cmd='python3-vt engine/check.py %s --tier quick'%id,thorough_cmd='python3-vt engine/check.py %s --tier thorough'%id,
        technique='contract-based deductive verification: contracts on the real functions, verification conditions generated from LLVM IR of /repo\'s current source, discharged by z3',
        level=level,level_note=note or NOTE))
NOTE='Every obligation (bounds, overflow, loop invariants, termination, frame and postconditions) of every listed entry point is discharged for all sizes and contents. Floating point is treated as exact real arithmetic; clang front end, the VC generator in engine/ and z3 are trusted.'
CH=[]
exec(open(os.path.join(V,'tools','table.py')).read())
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
m=dict(version=1,setup_cmd='bash tools/setup.sh',checks=CH,not_applicable=NA,notes='No hooks are needed in /repo; see DESIGN.md. Known and fixed findings: known_findings.txt.')
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
import re
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title'])); assert len(re.findall(r'[.!?](\s|$)',p['statement']))<=3,p['id']
print(len(P),'properties',len(CH),'claimed')
