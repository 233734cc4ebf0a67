"""C19: matrix products through BLAS and the DeCov regularizer (BLAS itself: assumed contract, harness/mn_blas.cpp)"""
from dsl import *
use_tu('mn_blas')
P='C19'; MNP='_MathN::'
SMALL=(1,6)
def dims(c,*ns): return [c.int(n,1,hi=(1<<31)-8,small=SMALL) for n in ns]
@unit(P,'w_mMulAB_C',[MNP+'mMulAB_C','b_OpenBLAS::gemm'],views=('2d',))
def _(c):
    m,n,k=dims(c,'m','n','k'); A=c.mat('A',m,k,const=True); B=c.mat('B',k,n,const=True); C=c.mat('C',m,n)
    S=c.fold('S',2,lambda i,j:0.0,lambda i,j,t,acc:acc+A(t,i)*B(j,t)); c.args(A,B,C,m,n,k); c.post(C,lambda q:S(q.row,q.col,k)); c.call()
@unit(P,'w_mMulABt_Cnb',[MNP+'mMulABt_Cnb','b_OpenBLAS::gemm'],views=('2d',))
def _(c):
    m,n,k=dims(c,'m','n','k'); b=c.bool('cb'); A=c.mat('A',m,k,const=True); B=c.mat('B',n,k,const=True); C=c.mat('C',m,n+toi(b))
    S=c.fold('S',2,lambda i,j:0.0,lambda i,j,t,acc:acc+A(t,i)*B(t,j)); c.args(A,B,C,m,n,k,b); c.post(C,lambda q:ite(q.col<n,S(q.row,q.col,k),q.old)); c.call()
@unit(P,'w_mScaledMulAtB_C',[MNP+'mScaledMulAtB_C','b_OpenBLAS::gemm'],views=('2d',))
def _(c):
    m,n,k=dims(c,'m','n','k'); s=c.real('s',vals=[1.5,-.5,0.0]); A=c.mat('A',k,m,const=True); B=c.mat('B',k,n,const=True); C=c.mat('C',m,n)
    S=c.fold('S',2,lambda i,j:0.0,lambda i,j,t,acc:acc+A(i,t)*B(j,t)); c.args(A,B,C,m,n,k,s); c.post(C,lambda q:s*S(q.row,q.col,k)); c.call()
def lay(c,nm,batch,units,bir,**kw):
    """activations: batch x units, or units x batch when samples are stored in columns; get(sample,unit)"""
    x=c.mat(nm,units if bir else batch,batch if bir else units,**kw)
    return x,((lambda s,u:x(s,u)) if bir else (lambda s,u:x(u,s)))
for pir in (False,True):
    for air,b in ((False,None),(True,False),(True,True)):
        @unit(P,'w_fprop',[MNP+'mMul_prevAct_weights_2_act'],views=('2d',),tag='prev %s, act %s'%tuple('in columns' if x else 'in rows' for x in(pir,air))+(' with bias' if b else ''))
        def _(c,pir=pir,air=air,b=b):
            m,p,n=dims(c,'m','p','n'); b=c.bool('ab') if b is None else b; X,x=lay(c,'P',m,p+1,pir,const=True); Wt=c.mat('W',n,p+1,const=True); A,a=lay(c,'A',m,n+toi(b),air)
            S=c.fold('S',2,lambda s,u:0.0,lambda s,u,t,acc:acc+x(s,t)*Wt(t,u)); c.args(X,Wt,A,m,p,n,b,pir,air)
            c.post(A,(lambda q:ite(q.row<n,S(q.col,q.row,p+1),q.old)) if air else (lambda q:ite(q.col<n,S(q.row,q.col,p+1),q.old))); c.call()
for dr in (False,True):
    @unit(P,'w_bprop',[MNP+'mMul_dLdZ_weights_2_dLdAPrev'],views=('2d',),tag='samples in columns' if dr else 'samples in rows')
    def _(c,dr=dr):
        m,p,n=dims(c,'m','p','n'); Z=c.mat('Z',m,n,const=True); Wt=c.mat('W',n,p+1,const=True); D,d=lay(c,'D',m,p,dr); o=c.buf('o',2,'i64')
        S=c.fold('S',2,lambda s,u:0.0,lambda s,u,t,acc:acc+Z(t,s)*Wt(u,t)); c.args(Z,Wt,D,m,p,n,dr,o); c.outs(o,[n,p+1])
        c.post(D,(lambda q:S(q.col,q.row,n)) if dr else (lambda q:S(q.row,q.col,n))); c.call()
    @unit(P,'w_dLdW',[MNP+'mMulScaled_dLdZ_prevAct_2_dLdW'],views=('2d',),tag='samples in columns' if dr else 'samples in rows')
    def _(c,dr=dr):
        s=c.real('s',vals=[1.5,-.5,0.0]); m,p,n=dims(c,'m','p','n'); Z=c.mat('Z',m,n,const=True); X,x=lay(c,'P',m,p+1,dr,const=True); Wt=c.mat('W',n,p+1)
        S=c.fold('S',2,lambda i,j:0.0,lambda i,j,t,acc:acc+Z(i,t)*x(t,j)); c.args(s,Z,X,Wt,m,p,n,dr); c.post(Wt,lambda q:s*S(q.row,q.col,m)); c.call()
for F in ('','_true','_false'):
    for lo in ((True,False) if not F else (F=='_true',)):
        @unit(P,'w_mColumnsCov'+F,[MNP+'mColumnsCov','b_OpenBLAS::syrk'],views=('2d',),tag='' if F else 'lower' if lo else 'upper')
        def _(c,F=F,lo=lo):
            r=c.int('r',1,small=SMALL,hi=1<<24); k=c.int('c',2,hi=(1<<31)-8,small=(2,6)); A=c.mat('A',r,k,const=True); C=c.mat('C',k,k); c.args(A,C,r,k,*([lo] if not F else []))
            S=c.fold('S',2,lambda i,j:0.0,lambda i,j,t,acc:acc+A(i,t)*A(j,t)); c.post(C,lambda q:ite((q.row>=q.col) if lo else (q.row<=q.col),rdiv(S(q.row,q.col,r),tor(r)),q.old)); c.call()
# ---- DeCov: bounded (the ghost definition is evaluated on concrete matrices)
def cov(p,r,k):
    mean=[sum(p(j,i) for i in range(r))/r for j in range(k)]; dm=lambda j,i:p(j,i)-mean[j]
    return dm,(lambda a,b:sum(dm(a,i)*dm(b,i) for i in range(r))/r)
for lo in ('true','false'):
    for ns in ('','ns_'):
        @unit(P,'w_loss_deCov_'+ns+lo,[MNP+'loss_deCov',MNP+'loss_DeCov_needTempMem'],prove=False)
        def _(c):
            r=c.int('r',1,small=(1,5)); k=c.int('c',2,small=(2,5)); b=c.bool('b'); p=c.mat('p',r,k+toi(b),const=True); tmp=c.buf('tmp',r*k+k*k); o=c.buf('o',1,'i64'); c.anypost(tmp); c.args(p,tmp,r,k,b,o); c.outs(o,[0])
            def f():
                dm,C=cov(p,r,k); return sum(C(i,j)**2 for i in range(k) for j in range(k) if i<j)/(k-1)
            c.returns(f); c.call()
    for F in ('dLoss_deCov','dLoss_deCov_ip'):
        @unit(P,'w_%s_%s'%(F,lo),[MNP+F,MNP+'dLoss_deCov_ip','b_OpenBLAS::symm'],prove=False)
        def _(c,F=F):
            r=c.int('r',1,small=(1,5)); k=c.int('c',2,small=(2,5)); s=c.real('s',vals=[1.5,-.5]); o=c.buf('o',1,'i64'); tmp=c.buf('tmp',r*k+k*k); c.anypost(tmp); c.outs(o,[0])
            if F.endswith('ip'): p=c.mat('p',r,k); d=p; c.args(p,tmp,r,k,s,o)
            else: b=c.bool('b'); p=c.mat('p',r,k+toi(b),const=True); d=c.mat('d',r,k); c.args(p,d,tmp,r,k,b,s,o)
            def f(q):
                dm,C=cov(p,r,k); return 2*s*sum(C(q.col,j)*dm(j,q.row) for j in range(k) if j!=q.col)/(r*(k-1))
            c.post(d,f); c.call()
@unit(P,'w_s_mTranspose_ip',[MNP+'s_mTranspose_ip',MNP+'s_mTranspose_ip_BLAS','b_OpenBLAS::imatcopy'],prove=False)
def _(c):
    b=c.bool('b'); bir=c.bool('bir'); r=c.int('r',1); k=c.int('c',1); c.require(implies(b,ite(bir,r,k)>1)); p=c.mat('p',r,k); o=c.buf('o',4,'i64'); c.args(p,r,k,b,bir,o); c.outs(o,[k,r,toi(b),1-toi(bir)])
    c.post(p,lambda q:p(q.i//k,q.i%k) if False else p(*[(q.i%k),(q.i//k)])); c.call()
@unit(P,'w_mIsOrthogonal',[MNP+'_mIsOrthogonal'],prove=False)
def _(c):
    r=c.int('r',1,small=(1,3)); k=c.int('c',1,small=(1,3)); t=c.bool('t'); e=c.real('e',vals=[.25],only=True); p=c.mat('p',r,k,const=True,dom=[0.0,1.0,-1.0,0.0,1.0]); c.args(p,r,k,t,e)
    def f():
        n,m=(k,r) if t else (r,k); el=(lambda i,j:p(i,j)) if t else (lambda i,j:p(j,i))
        return all(abs((1.0 if i==j else 0.0)-sum(el(i,x)*el(j,x) for x in range(m)))<=e for i in range(n) for j in range(n))
    c.returns(f); c.call()
