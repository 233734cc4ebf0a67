#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only unit] : decide one property on /repo's working tree."""
import sys, os, time, json, tempfile, shutil, argparse, multiprocessing as mp, traceback, re, glob
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, dsl
VERIF=build.VERIF
def load_contracts():
    import importlib.util
    for p in sorted(glob.glob(os.path.join(VERIF,'contracts','*.py'))):
        n='contracts_'+os.path.basename(p)[:-3]
        sp=importlib.util.spec_from_file_location(n,p); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
_MODS={}
def get_mod(path):
    import ir
    if path not in _MODS: _MODS[path]=ir.parse_module(open(path).read())
    return _MODS[path]
def prove_unit(ud,irpath,budget,view):
    import ir, terms as T, symctx
    t0=time.time(); res=dict(unit=ud.id,view=view,status='?',obligations=0,discharged=0,failed=[],time=0,by={},assumed=[],loops=0,paths=0)
    c=None
    try:
        mod=ir.parse_module(open(irpath).read())
        if '@'+ud.name not in mod.funcs: res['status']='missing'; return res
        c=symctx.SymCtx(mod,ud,view,budget)
        ud.fn(c)
        bad=c.discharge(stop_first=not os.environ.get('VP_ALL'))
        E=c.eng
        res['obligations']=len(E.obs); res['discharged']=sum(1 for o in E.obs if o.ok)
        res['failed']=[dict(kind=o.kind,where=o.where[:200],goal=str(o.goal)[:600]) for o in bad[:5]]
        res['status']='proved' if not bad else 'failed'
        if len(E.obs)<2: res['status']='vacuous'
    except ir.Unsupported as e:
        res['status']='unsupported'; res['failed']=[dict(kind='outside the verifier: %s'%e,where='',goal='')]
    except RecursionError: res['status']='unsupported'; res['failed']=[dict(kind='recursion',where='',goal='')]
    except Exception as e:
        res['status']='error'; res['failed']=[dict(kind='verifier error %r'%e,where=traceback.format_exc()[-600:],goal='')]
    if c is not None:
        E=c.eng; res['by']=dict(E.pv.by); res['solver_s']=round(E.pv.t,2); res['queries']=E.pv.q
        res['assumed']=sorted(set(c.assumed)|E.trusted); res['loops']=len(E.nloops); res['paths']=E.paths; res['notes']=sorted(E.notes)[:5]
    res['time']=round(time.time()-t0,2)
    return res
_SH=None
def init_worker(sh):
    global _SH; _SH=sh
def work(a):
    idx,irpath,so,tier,seed,t0=a
    ud=dsl.UNITS[idx]
    import concctx
    concctx.load_protos(ud.tu,open(irpath).read(),None)
    budget=ud.kw.get('budget',180)*(3 if tier=='thorough' else 1)
    # a quick run has to answer within 900 s: spend less per unit as time runs out
    el=time.time()-t0; cut=1.0
    if tier=='quick' and _SH is not None:
        found,undec=_SH[0].value,_SH[1].value
        if el>780 or (found and el>300): return dict(unit=ud.id,view='-',status='skipped' if found else 'undecided',obligations=0,discharged=0,failed=[dict(kind='not decided within the time limit',where='',goal='')],time=0,by={},assumed=[],loops=0,paths=0,covers=ud.covers,idx=idx,samples=None,failing_input=None)
        if el>400: budget=min(budget,40); cut=.3
        if el>600: budget=min(budget,15); cut=.1
        if undec>=6 or found>=3: cut=min(cut,.15)
    best=None; tries=[]
    if ud.kw.get('prove',True) or os.environ.get('VP_FORCE'):
        for v in ud.views:
            r=prove_unit(ud,irpath,budget,v); tries.append(r)
            if best is None or r['status']=='proved' or (best['status'] not in('failed',) and r['status']=='failed'): best=r
            if r['status'] in('proved','missing'): break
    else: best=dict(unit=ud.id,view='-',status='bounded',obligations=0,discharged=0,failed=[],time=0,by={},assumed=[],loops=0,paths=0)
    best['covers']=ud.covers; best['idx']=idx
    fail=None; stats=None
    if best['status']!='missing' and ud.kw.get('run',True):
        if best['status'] in('proved',):
            n,s=(120,20) if tier=='quick' else (3000,120)
        elif best['status']=='bounded': n,s=(800,40) if tier=='quick' else (20000,300)
        else: n,s=(4000,60*cut) if tier=='quick' else (30000,300)
        stats,fail=concctx.search(so,ud,seed,n,s)
        if fail is None and best['status']!='proved':
            # large shapes: beyond the thresholds at which the dispatchers change their algorithm
            st2,fail=concctx.search(so,ud,seed+7,40 if best['status']=='bounded' else 200,(4 if best['status']=='bounded' else 45*cut) if tier=='quick' else 200,scales=(2,))
            stats=dict(stats,large=st2.get('ok',0))
        if _SH is not None:
            if fail is not None:
                with _SH[0].get_lock(): _SH[0].value+=1
            elif best['status'] not in('proved','bounded'):
                with _SH[1].get_lock(): _SH[1].value+=1
    best['samples']=stats; best['failing_input']=fail
    return best
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--only'); ap.add_argument('-j',type=int,default=8); ap.add_argument('-v',action='store_true')
    a=ap.parse_args(); t0=time.time()
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    load_contracts()
    us=[(i,u) for i,u in enumerate(dsl.UNITS) if (a.prop=='ALL' or u.prop==a.prop) and (not a.only or re.search(a.only,u.name))]
    if not us: print('no units for',a.prop); return 2
    d=tempfile.mkdtemp(prefix='vp_%s_'%a.prop)
    try:
        build.make_overlay(d)
        need={}
        for i,u in us: need.setdefault(u.tu,set()).add(u.name)
        with mp.Pool(min(8,len(need))) as p:
            outs=p.starmap(build_one,[(d,tu,need[tu]) for tu in need])
        built=dict(zip(need,outs))
        for tu,b in built.items():
            if 'error' in b: print('ERROR building harness',tu,b['error']); return 2
        jobs=[(i,built[u.tu]['ir'],built[u.tu]['so'],a.tier,seed,t0) for i,u in us]
        res=[]
        sh=(mp.Value('i',0),mp.Value('i',0))
        with mp.Pool(a.j,init_worker,(sh,),maxtasksperchild=1) as p:
            for r in p.imap_unordered(work,jobs,chunksize=1):
                res.append(r)
                if a.v or r['status']!='proved' or r['failing_input']:
                    print('%-10s %-34s %s %ss obs %d/%d q=%s %s %s'%(r['status'],r['unit'],r['view'],r['time'],r['discharged'],r['obligations'],r.get('queries'),[(x['kind'][:70],x['where'][:70]) for x in r['failed'][:2]],('samples %s'%r['samples'] if r['samples'] else '')),flush=True)
                    if r['failing_input']: print('    failing input:',r['failing_input']['why'],flush=True)
        return report(a,us,res,built,seed,time.time()-t0)
    finally: shutil.rmtree(d,ignore_errors=True)
def build_one(d,tu,names):
    try: return build.compile_tu(d,tu,True,None)
    except build.BuildError as e: return {'error':str(e)}
def known_findings(prop):
    p=os.path.join(VERIF,'known_findings.txt'); out=[]
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\S+) unit=(\S+) (.*)',l.strip())
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3)))
    return out
def report(a,us,res,built,seed,wall):
    prop=a.prop; viol=[]; notes=[]
    known=known_findings(prop)
    os.makedirs(os.path.join(VERIF,'evidence','replay'),exist_ok=True)
    lines=[]
    for r in sorted(res,key=lambda r:r['unit']):
        u=dsl.UNITS[r['idx']]
        kf=[k for k in known if k[0]==u.name]
        if r['status']=='missing':
            notes.append('%s: the entry point no longer exists in this tree (%s)'%(r['unit'],built[u.tu]['dropped'].get(u.name,'')[:200])); continue
        if r['status']=='skipped': notes.append('%s: skipped, a violation had already been found'%r['unit']); continue
        bad=r['failing_input'] is not None or r['status'] not in('proved','bounded')
        if not bad: continue
        if kf: lines.append('KNOWN-FINDING: property=%s %s'%(prop,kf[0][1])); continue
        rp=os.path.join(VERIF,'evidence','replay','%s_%s%s.json'%(prop,u.name,u.tag and '_'+u.tag))
        json.dump(dict(property=prop,unit=u.id,covers=u.covers,failed_obligations=r['failed'],verifier_status=r['status'],failing_input=r['failing_input'],samples=r['samples'],
            how_to_replay='python3-vt /verif/engine/replay.py %s'%rp),open(rp,'w'),indent=1,default=str)
        viol.append(dict(unit=u.name,covers=u.covers,obligation=r['failed'][:2],input=r['failing_input'] and r['failing_input']['why']))
        lines.append('VIOLATION property=%s replay=%s%s'%(prop,rp,'' if r['failing_input'] else ' no-failing-input-found'))
    # a concrete failing input is the stronger report: print those first
    lines.sort(key=lambda l:('no-failing-input-found' in l,l))
    for n in notes: print('NOTE',n)
    for l in lines: print(l)
    tot=sum(r['obligations'] for r in res); dis=sum(r['discharged'] for r in res); by={}
    for r in res:
        for k,v in r['by'].items(): by[k]=by.get(k,0)+v
    assumed=sorted({x for r in res for x in r['assumed']})
    bounded=[r['unit'] for r in res if r['status']=='bounded']
    ass=BASE_ASSUMPTIONS+assumed+notes
    ev=dict(property=prop,tier=a.tier,seed=seed,level='other' if bounded and len(bounded)==len(res) else 'proof',
      coverage=dict(obligations=tot,discharged=dis,checker_cmd='python3-vt /verif/engine/check.py %s --tier %s'%(prop,a.tier),trusted_base=TRUSTED_BASE,
        functions_under_contract=sorted({c for r in res for c in r['covers']}),units=len(res),units_proved=sum(1 for r in res if r['status']=='proved'),units_bounded=bounded,
        back_ends=by,solver_s=round(sum(r.get('solver_s',0) for r in res),1),queries=sum(r.get('queries',0) or 0 for r in res),loops=sum(r['loops'] for r in res),paths=sum(r['paths'] for r in res),
        executable_contract_samples=sum((r['samples'] or {}).get('ok',0) for r in res)),
      assumptions=ass,wall_s=round(wall,1),violations=len(viol))
    if prop!='ALL': json.dump(ev,open(os.path.join(VERIF,'evidence','%s.json'%prop),'w'),indent=1)
    print('property %s: %d units, %d proved, %d bounded, %d/%d obligations discharged, %.1fs'%(prop,len(res),ev['coverage']['units_proved'],len(bounded),dis,tot,wall))
    broken=[r['unit'] for r in res if r['status']=='bounded' and (r['samples'] or {}).get('error') and not r['samples'].get('ok')]
    if broken: print('ERROR: could not run',*broken); return 1 if viol else 2
    if all(r['status']=='missing' for r in res): print('ERROR: no entry point of this property exists in the tree'); return 2
    return 1 if viol else 0
TRUSTED_BASE=['clang 18 front end and the listed LLVM passes (lowerinvoke,inline,sroa,early-cse,simplifycfg,adce,loop-simplify,lcssa) preserve semantics','engine/*.py: the verification-condition generator over LLVM IR','z3 (and cvc5 where named)','harness/shim: MSVC runtime names; harness/*.cpp: wrappers that only construct arguments and call the real functions']
BASE_ASSUMPTIONS=['floating point is modelled as exact real arithmetic: rounding, NaN, infinities, overflow and signed zero are not modelled','distinct buffer arguments do not overlap','multi-threaded variants: the thread pool is replaced by a sequential stand-in that hands the workers up to three arbitrary consecutive parts of the range; data races and the real pool are not modelled','release configuration (NNTL_ASSERT compiled out), x86-64 Linux data layout','exp/log/sqrt/tanh and similar are uninterpreted functions with exp>0 and sqrt(x)^2=x only']
if __name__=='__main__': sys.exit(main())
