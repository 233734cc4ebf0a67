from dsl import *
from concctx import Mismatch
use_tu('pool')
def need(b,msg):
    if not b: raise Mismatch(msg)

def val(kind,cnt):
    tot=sum((i*7)%5+1 for i in range(cnt))
    return {2:tot,3:tot,5:cnt,6:tot}.get(kind)
def hist(tag,sync,lo):
    @unit('C26','w_pool_hist',['Workers (run, reduce, _worker, partition_count_to_workers, constructor, destructor)'],views=('1d',),prove=False,tag=tag)
    def _(c):
        hw=c.int('hw',2,6,small=(2,6)); n=c.int('n',1,12,small=(1,12)); lev=c.int('level',lo,3,small=(lo,3))
        J=c.buf('jobs',3*n,elem='i64',const=True,dom=lambda g:g.randint(0,(1<<20))); o=c.buf('o',3+6*n,elem='i64')
        c.args(sync,hw,n,J,lev,o)
        c.anypost(o)
        def chk(rd,ret):
            O=[int(rd(o,q)) for q in range(3+6*n)]
            need(O[0]==hw and O[1]==hw,'workers_count()/cur_workers_count() are %d/%d with %d hardware threads'%(O[0],O[1],hw))
            need(O[2]==(hw-1)*101,'get_worker_threads() does not give the %d running threads'%(hw-1))
            for i in range(n):
                kind,cnt,u=int(J(3*i))%7,int(J(3*i+1))%34,int(J(3*i+2))%10; parts,tids,bad,wrong,used,v=O[3+6*i:9+6*i]
                w=('job %d of %d (%s over %d items, %d threads asked, %d there)'%(i+1,n,'run' if kind<2 else 'reduce',cnt,u,hw))
                need(bad==0,w+': a thread id was out of range, used twice, or 0 outside the main thread')
                need(wrong==0,w+': %d items were not given out exactly once before the call returned'%wrong)
                thr=u if 1<u<=hw else hw
                if kind>=2 and u==1: thr=1
                exp=1 if cnt<=1 else min(thr,cnt)
                need(parts==exp and tids==exp,w+': the work was split into %d parts for %d threads instead of %d'%(parts,tids,exp))
                if kind<2: need(used==exp,w+': reported %d used threads instead of %d'%(used,exp))
                else:
                    x=exp if kind==4 else val(kind,cnt)
                    need(v==x,w+': the combined result is %d instead of %d'%(v,x))
            return True
        c.final_sat(chk,'each item is processed exactly once and before the call returns'); c.call()
hist('default',0,0); hist('delays',1,1); hist('delays_shared',2,1)
for t,s in(('default',0),('delays',1),('delays_shared',2)):
    @unit('C26','w_pool_life',['Workers (constructor, destructor)'],views=('1d',),prove=False,tag=t)
    def _(c,s=s):
        hw=c.int('hw',2,4,small=(2,4)); n=c.int('n',1,10,small=(1,10)); lev=c.int('level',0,3,small=(0,3)); c.args(s,hw,n,lev); c.call()
@unit('C26','w_pool_den',['Workers::denormalsOnInAnyThread'],views=('1d',),prove=False)
def _(c):
    hw=c.int('hw',2,6,small=(2,6)); o=c.buf('o',1,elem='i64'); c.args(0,hw,o); c.outs(o,[hw]); c.call()
def bg(tag,sync,lo):
    @unit('C26','w_bg',['BgWorkers (exec, add_task, delete_tasks, tasks_count, workers_count, _worker, constructor, destructor)'],views=('1d',),prove=False,tag=tag)
    def _(c):
        nt=c.int('nt',1,4,small=(1,4)); n=c.int('n',1,6,small=(1,6)); lev=c.int('level',lo,3,small=(lo,3))
        P=c.buf('ops',2*n,elem='i64',const=True,dom=lambda g:g.randint(0,(1<<20))); o=c.buf('o',4+3*n,elem='i64'); c.args(sync,nt,n,P,lev,o)
        c.anypost(o)
        def chk(rd,ret):
            O=[int(rd(o,q)) for q in range(4+3*n)]
            need(O[0]==nt and O[1]==nt,'workers_count() is %d instead of %d'%(O[0],nt)); tasks=0
            for i in range(n):
                k,a=int(P(2*i))%3,int(P(2*i+1))%4; k=0 if k==1 and tasks==3 else k; x,y,z=O[2+3*i:5+3*i]
                if k==0:
                    need(x==nt and y==(1<<nt)-1,'operation %d: exec ran on %d of %d workers (mask %x) before it returned'%(i+1,x,nt,y)); need(z==tasks,'tasks_count() is %d instead of %d'%(z,tasks))
                elif k==1:
                    tasks+=1; need(x==1 and z==1,'operation %d: the added task was not called %d times'%(i+1,a)); need(y==tasks,'tasks_count() is %d instead of %d'%(y,tasks))
                else:
                    tasks=0; need(x==0 and y==0,'operation %d: tasks were still running after delete_tasks()'%(i+1)); need(z==0,'tasks_count() is %d after delete_tasks()'%z)
            b,l=O[2+3*n:]
            need(b==0,'a worker id was out of range, used twice, or the function ran on the main thread'); need(l==0,'a task ran after the destructor')
            return True
        c.final_sat(chk,'background workers'); c.call()
bg('default',0,0); bg('delays',1,1)
