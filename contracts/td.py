"""C21: supply of training and inference batches"""
from dsl import *
use_tu('td')
P='C21'; TS='_train_data_simple::'; DH='dataHolder::'
def sets(c,small=(1,12)):
    n=c.int('n',1,1<<24,small=small); n2=c.int('n2',1,1<<24,small=small); k=c.int('k',1,1<<24,small=(1,3)); l=c.int('l',1,1<<24,small=(1,3)); rx=c.bool('rx'); ry=c.bool('ry')
    ld=lambda r,m,w:(ite(r,w,m),ite(r,m,w))
    def mk(nm,r,m,w,const=False): a,b=ld(r,m,w); return c.mat(nm,a,b,const=const)
    x=mk('x',rx,n,k+1); y=mk('y',ry,n,l); x2=mk('x2',rx,n2,k+1); y2=mk('y2',ry,n2,l)
    # bias cells of the data sets hold ones
    one=lambda m,row:c.forall(m,lambda q:implies(ite(row,q.row==k,q.col==k),q.old==1))
    one(x,rx); one(x2,rx)
    return n,n2,k,l,rx,ry,x,y,x2,y2
def pick(ds,a,b): return ite(ds==0,a,b)
@unit(P,'w_td_init4inference',[TS+'init4inference',TS+'is_initialized4inference'])
def _(c):
    n,n2,k,l,rx,ry,x,y,x2,y2=sets(c); m=c.int('m',0,1<<25,small=(0,14)); o=c.buf('o',4,'i32'); big=vmax(n,n2); e=ite(lor(m==0,m>big),big,m)
    c.args(x,y,n,x2,y2,n2,k,l,rx,ry,m,o); c.outs(o,[0,e,1,e]); c.call()
@unit(P,'w_td_init4train',[TS+'init4train',TS+'is_initialized4train'])
def _(c):
    n,n2,k,l,rx,ry,x,y,x2,y2=sets(c); m=c.int('m',0,1<<25,small=(0,14)); t=c.int('t',0,1<<25,small=(0,14)); o=c.buf('o',7,'i32'); big=vmax(n,n2); e=ite(lor(m==0,m>big),big,m); b=ite(lor(t==0,t>n),n,t)
    c.args(x,y,n,x2,y2,n2,k,l,rx,ry,m,t,o); c.require(b<=e); c.outs(o,[0,e,b,toi(b<n),1,e,b]); c.call()
@unit(P,'w_td_init4train',[TS+'init4train'],tag='refused')
def _(c):
    n,n2,k,l,rx,ry,x,y,x2,y2=sets(c); m=c.int('m',0,1<<25,small=(0,14)); t=c.int('t',0,1<<25,small=(0,14)); o=c.buf('o',7,'i32'); big=vmax(n,n2); e=ite(lor(m==0,m>big),big,m); b=ite(lor(t==0,t>n),n,t)
    c.args(x,y,n,x2,y2,n2,k,l,rx,ry,m,t,o); c.require(b>e); c.final_sat(lambda rd,r:land(rd(o,0)!=0,rd(o,4)==0),'refused and left uninitialised'); c.anypost(o); c.call()
@unit(P,'w_td_walk',[TS+'walk_over_set',TS+'next_subset','_td_base::batchX','_td_base::batchY'],prove=False)
def _(c):
    n,n2,k,l,rx,ry,x,y,x2,y2=sets(c); ds=c.int('ds',0,1,small=(0,1)); N=pick(ds,n,n2); big=vmax(n,n2)
    m=c.int('m',1,1<<25,small=(1,13)); bs=c.int('bs',1,1<<25,small=lambda r:r.choice([min(m,big),r.randint(1,min(m,big))])); c.require(bs<=vmin(m,big)); c.require(lor(bs==vmin(m,big),land(m<big,lnot(rx)))); B=vmin(bs,N); i=c.int('i',0,1<<24,bits=64,small=lambda r:r.randint(0,(N-1)//B)); c.require(i*B<N); M=vmin(B,N-i*B)
    ox=c.mat('ox',ite(rx,k+1,M),ite(rx,M,k+1)); oy=c.mat('oy',ite(ry,l,M),ite(ry,M,l)); o=c.buf('o',8,'i32'); c.args(x,y,n,x2,y2,n2,k,l,rx,ry,m,bs,ds,i,ox,oy,o)
    c.returns(lambda:idiv(N+B-1,B)); c.outs(o,[ite(rx,k+1,M),ite(rx,M,k+1),1,toi(rx),ite(ry,l,M),ite(ry,M,l),0,toi(ry)])
    def src(a,b,q,r): f=lambda w:w(q.col+ite(r,i*B,0),q.row+ite(r,0,i*B)); return ite(ds==0,f(a),f(b))
    c.post(ox,lambda q:src(x,x2,q,rx)); c.post(oy,lambda q:src(y,y2,q,ry)); c.call()
# ------------------------------------------------ histories (executed)
def cell(b,r,s,j): return b(s,j) if r else b(j,s)
def history(c,train):
    n,n2,k,l,rx,ry,x,y,x2,y2=sets(c); m=c.int('m',0,1<<25,small=(0,14)); big=max(n,n2); e=big if m==0 or m>big else m
    t=c.int('t',0,1<<25,small=(0,14)); b=n if t==0 or t>n else t
    if train: c.require(b<=e)
    nops=c.int('nops',1,5,small=(1,5)); seq=[]
    for j in range(nops):
        ty=c.choice('op%d'%j,[0,1,2,2] if train else [0,1]); ex=c.choice('ex%d'%j,[0,0,1,2]) if ty<2 else 0
        if ty==2: s=c.choice('bs%d'%j,list(range(1,b+1))+[b])
        else: s=c.choice('bs%d'%j,list(range(1,e+1))+[e])
        seq+=[ty+4*ex,s]
    ls=2+2*12*(k+1+l); ops=c.buf('ops',2*nops,'i32',const=True,dom=0); ops.old=list(seq); lg=c.buf('lg',nops*ls)
    c.args(x,y,n,x2,y2,n2,k,l,rx,ry,m,t,nops,ops,lg,ls); c.returns(lambda:0); c.anypost(lg)
    w=k+1+l
    def chk(rd,r):
        for j in range(nops):
            ty=seq[2*j]&3; ex=seq[2*j]>>2; s=seq[2*j+1]; a,bb,N=(x,y,n) if ty!=1 else (x2,y2,n2); o=j*ls; nb=rd(lg,o); rows=int(rd(lg,o+1))
            if nb==-1:
                if s==(b if ty==2 else e): return False
                continue
            row=lambda q:[rd(lg,o+2+q*w+i) for i in range(w)]
            want=lambda q:[0.0 if ex==1 else cell(a,rx,q,i) for i in range(k+1)]+[0.0 if ex==2 else cell(bb,ry,q,i) for i in range(l)]
            if ty<2:
                B=min(s,N)
                if nb!=(N+B-1)//B or rows!=N or any(row(q)!=want(q) for q in range(N)): return False
            else:
                if nb!=N//s or rows!=N//s*s: return False
                left=[want(q) for q in range(N)]
                for q in range(rows):
                    v=row(q)
                    if v not in left: return False
                    left.remove(v)
        return True
    c.final_sat(chk,'every walk delivers every sample once in order, every epoch every sample at most once'); c.call()
@unit(P,'w_td_history',[TS+'on_next_epoch',TS+'on_next_batch',TS+'walk_over_set',TS+'next_subset'],prove=False)
def _(c): history(c,True)
@unit(P,'w_td_history_inference',[TS+'walk_over_set',TS+'next_subset'],prove=False)
def _(c): history(c,False)
@unit(P,'w_dh',[DH+x for x in('init','prepareToBatchSize','nextBatch','curBatchIdxs','isFullBatch','batchX','batchY')],prove=False)
def _(c):
    n=c.int('n',1,small=(1,12)); k=c.int('k',1,small=(1,3)); l=c.int('l',1,small=(1,3)); hy=c.bool('hasY'); mx=c.int('mx',0,small=(0,11)); c.require(mx<n); nb=c.int('nb',1,small=(1,8))
    x=c.mat('x',n,k+1,const=True); c.forall(x,lambda q:implies(q.col==k,q.old==1)); y=c.mat('y',n,l,const=True); sz=c.buf('sz',nb,'i32',const=True)
    sz.old=[c.choice('s%d'%j,[0,0,n]+([mx] if mx else [])+list(range(1,mx+1))) for j in range(nb)]
    w=k+2+l; ls=4+n*w; lg=c.buf('lg',nb*ls); c.args(x,y,n,k,l,hy,mx,nb,sz,lg,ls); c.returns(lambda:0); c.anypost(lg)
    def chk(rd,r):
        cur=mx or n; left=[]
        for j in range(nb):
            cur=sz.old[j] or cur; o=j*ls; R,full,calls,al=[rd(lg,o+i) for i in range(4)]
            if R!=cur or full!=(cur==n) or al!=full: return False
            if not full:
                if len(left)<cur:
                    left=list(range(n))
                    if calls<1: return False
                elif calls: return False
            for s in range(cur):
                q=o+4+s*w; i=int(rd(lg,q))
                if full:
                    if i!=s: return False
                else:
                    if i not in left: return False
                    left.remove(i)
                if [rd(lg,q+1+a) for a in range(k+1+l)]!=[x(a,i) for a in range(k+1)]+[y(a,i) if hy else 0.0 for a in range(l)]: return False
        return True
    c.final_sat(chk,'each row at most once between two shuffles, a shuffle only when too few rows are left'); c.call()
