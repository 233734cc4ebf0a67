"""C22: data normalisation"""
from dsl import *
import math
use_tu('norm')
P='C22'; SC='ScaleCentralData::'; UP='upd_mtx_scale_central::'; MN2='mtx2Normal::'
def rec(c):
    sc=c.real('sc'); of=c.real('of'); bs=c.bool('bs'); bo=c.bool('bo'); c.require(implies(lnot(bs),sc==1)); c.require(implies(lnot(bo),of==0)); return sc,of,bs,bo
def res(c,o,f,sc,of,bs,bo): c.outs(o,[sc,of]); c.outs(f,[toi(bs),toi(bo)]); c.call()
def of_(c): return c.buf('o',2),c.buf('f',2,'i32')
@unit(P,'w_sc_upd_scale',[SC+'_upd_scale'],views=('1d',))
def _(c): sc,of,bs,bo=rec(c); v=c.real('v'); o,f=of_(c); c.args(sc,of,bs,bo,v,o,f); res(c,o,f,v*sc,v*of,True,bo)
@unit(P,'w_sc_upd_ofs',[SC+'_upd_ofs'],views=('1d',))
def _(c): sc,of,bs,bo=rec(c); v=c.real('v'); o,f=of_(c); c.args(sc,of,bs,bo,v,o,f); res(c,o,f,sc,of+v,bs,True)
@unit(P,'w_sc_upd_both',[SC+'_upd_both'],views=('1d',))
def _(c): sc,of,bs,bo=rec(c); v=c.real('v'); w=c.real('w'); o,f=of_(c); c.args(sc,of,bs,bo,v,w,o,f); res(c,o,f,v*sc,v*of+w,True,True)
for nm in('w_sc_upd_typed','w_sc_upd_typed2','w_sc_upd_typed3'):
    @unit(P,nm,[SC+'_upd_all_typed'],views=('1d',))
    def _(c):
        sc,of,bs,bo=rec(c); v=c.real('v'); w=c.real('w'); us=c.bool('us'); uo=c.bool('uo'); o,f=of_(c); c.args(sc,of,bs,bo,v,w,us,uo,o,f)
        res(c,o,f,ite(us,v*sc,sc),ite(us,v*of,of)+ite(uo,w,0.0),lor(bs,us),lor(bo,uo))
for nm in('w_sc_as_type','w_sc_as_type_same'):
    @unit(P,nm,[SC+'as_type'],views=('1d',),prove=nm[-1]!='e' or 'same' in nm)
    def _(c): sc,of,bs,bo=rec(c); o,f=of_(c); c.args(sc,of,bs,bo,o,f); res(c,o,f,sc,of,bs,bo)
@unit(P,'w_sc_reset',[SC+'reset'],views=('1d',))
def _(c): sc,of,bs,bo=rec(c); o,f=of_(c); c.args(sc,of,bs,bo,o,f); res(c,o,f,1.0,0.0,False,False)
@unit(P,'w_sc_init',[SC+'ScaleCentralData'],views=('1d',))
def _(c): o,f=of_(c); c.args(o,f); res(c,o,f,1.0,0.0,False,False)
for nm in('w_upd_whole','w_upd_whole_d'):
    @unit(P,nm,[UP+'whole'],views=('1d',))
    def _(c):
        r=c.int('r',1,(1<<31)-2); k=c.int('c',1,(1<<31)-2); b=c.bool('b'); bir=c.bool('bir'); sc=c.real('sc'); of=c.real('of'); bs=c.bool('bs'); bo=c.bool('bo'); c.require(lnot(land(b,bir)))
        p=c.mat('p',r,ite(bir,k,k+toi(b))); c.args(p,r,k,b,bir,sc,of,bs,bo)
        c.post(p,lambda q:ite(q.i>=r*k,q.old,ite(bs,sc*q.old,q.old)+ite(bo,of,0.0))); c.call()
for nm in('w_upd_row','w_upd_row_d'):
    @unit(P,nm,[UP+'whole'],views=('2d',))
    def _(c):
        r=c.int('r',2); k=c.int('c',1); sc=c.real('sc'); of=c.real('of'); bs=c.bool('bs'); bo=c.bool('bo'); p=c.mat('p',r,k); c.args(p,r,k,sc,of,bs,bo)
        c.post(p,lambda q:ite(q.row==r-1,q.old,ite(bs,sc*q.old,q.old)+ite(bo,of,0.0))); c.call()
def special(r):
    x=r.random(); return r.choice([float('inf'),float('-inf'),float('nan'),1e30]) if x<.15 else r.randint(-8,8)/4
for nm,el in(('w_upd_batchwise','float'),('w_upd_batchwise_st','double')):
    @unit(P,nm,[UP+'batchwise',UP+'batchwise_st'],views=('2d',),prove=False)
    def _(c,el=el,nm=nm):
        r=c.int('r',1); k=c.int('c',1); b=c.bool('b'); p=c.mat('p',r,k+toi(b)); s=c.buf('s',k,el,const=True,dom=special); o=c.buf('o',k,el,const=True,dom=special); bs=c.buf('bs',k,'i1',const=True); bo=c.buf('bo',k,'i1',const=True)
        a,e=(c.int('a',0,k),c.int('e',0,k)) if nm[-1]=='t' else (0,k); c.require(a<e)
        c.args(p,r,k,b,s,o,bs,bo,*((a,e) if nm[-1]=='t' else ()))
        def new(q):
            j=q.col
            if not a<=j<e: return q.old
            v=q.old
            if bs(j) and math.isfinite(s(j)): v=v*s(j)
            if bo(j) and math.isfinite(o(j)): v=v+o(j)
            return v
        c.post(p,new); c.call()
quarter=lambda r:r.randint(-8,8)/4
for nm in('w_normalize','w_normalize_d'):
    @unit(P,nm,['td_norm::normalize_data','td_norm::normalize_data_whole','td_norm::normalize_data_cw',MN2+'normalize_whole',MN2+'normalize_cw','_td_base::normalize_data','_td_base::_fix_dataX_whole','_td_base::_fix_dataX_cw','_inmem_train_data::_fix_trainX_whole','_inmem_train_data::_fix_trainX_cw'],prove=False)
    def _(c):
        n=c.int('n',2,small=(2,14)); n2=c.int('n2',1,small=(1,14)); k=c.int('k',1,small=(1,4)); big=max(n,n2); e=c.int('mfs',1,small=(1,big)); bs=c.choice('bs',[-1,0]+list(range(1,e+1))); cw=c.bool('cw'); bS=c.bool('bS'); bC=c.bool('bC')
        tS=c.choice('tS',[1.0,.5,2.0]); tC=c.choice('tC',[0.0,1.0,-.5]); eS=c.choice('eS',[.01,.05]); eC=c.choice('eC',[.01,.05])
        lvl=c.choice('lvl',[0,2,10,-5]); d=lambda r:lvl+r.randint(-8,8)/4
        x=c.mat('x',n,k+1,dom=d); y=c.mat('y',n,1); x2=c.mat('x2',n2,k+1,dom=d); y2=c.mat('y2',n2,1)
        for m in(x,x2): c.forall(m,lambda q:implies(q.col==k,q.old==1))
        c.args(x,y,n,x2,y2,n2,k,e,bs,cw,bS,bC,tS,tC,eS,eC); c.anypost(x); c.anypost(x2)
        def stats(v): m=sum(v)/len(v); return m,math.sqrt(max(0,sum((a-m)**2 for a in v)/(len(v)-1)))
        def chk(rd,r):
            N=[[rd(x,j*n+i) for i in range(n)] for j in range(k+1)]; N2=[[rd(x2,j*n2+i) for i in range(n2)] for j in range(k+1)]
            if any(v!=1 for v in N[k]+N2[k]): return False
            if not(bS or bC): return bool(r) and all(N[j][i]==x(j,i) for j in range(k) for i in range(n)) and all(N2[j][i]==x2(j,i) for j in range(k) for i in range(n2))
            groups=[[j] for j in range(k)] if cw else [list(range(k))]; bad=False
            for g in groups:
                old=[x(j,i) for j in g for i in range(n)]; new=[N[j][i] for j in g for i in range(n)]; m0,s0=stats(old)
                off=(bC and abs(m0-tC)>1.5*eC+.01) or (bS and s0>.01 and abs(s0-tS)>1.5*eS+.01); bad=bad or off
                if not r: continue
                pts=list(zip(old,new))+[(x2(j,i),N2[j][i]) for j in g for i in range(n2)]
                a,b=min(pts),max(pts)
                sc=(b[1]-a[1])/(b[0]-a[0]) if b[0]>a[0] else 1.0; of=a[1]-sc*a[0]
                if any(abs(sc*o+of-v)>2e-3*(1+abs(v)) for o,v in pts): return False
                if not bS and abs(sc-1)>1e-3: return False
                if not bC and b[0]>a[0] and abs(of)>5e-3*(1+abs(sc*lvl)): return False
                m1,s1=stats(new)
                if bC and abs(m1-tC)>eC+2e-3: return False
                if bS and s0>.01 and abs(s1-tS)>eS+2e-3: return False
                if bS and s0<=.01 and abs(sc-1)>1e-3: return False
            return bool(r) or not bad
        c.final_sat(chk,'one affine map per set or column, applied to all sets, giving the requested statistics'); c.call()
