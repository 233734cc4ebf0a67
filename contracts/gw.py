"""C23: one weight update (grad_works): optimizer choice and first run, momentum, learning-rate dropout, max-norm, weight penalties, individual learning rates"""
from dsl import *
from ref_gw import GRef
use_tu('gw')
P='C23'; GW='_grad_works::'
def sign(x): return ite(x>0,1.0,ite(x<0,-1.0,0.0))
def pos01(c,name,vals): return c.real(name,Fraction(1,10**6),1-Fraction(1,10**6),vals=vals,only=True)
def rk(c): return c.int('r',1),c.int('c',1)
def opt(T):
    @unit(P,'w_gw_'+T,[GW+'apply_grad',GW+'set_type',GW+'beta1',GW+'beta2',GW+'gamma',GW+'numeric_stabilizer',GW+'isFirstRun'],views=('1d',))
    def _(c):
        r,k=rk(c); f=c.bool('first'); lr=pos01(c,'lr',[.01,.5]); b1=pos01(c,'b1',[.5,.9]); b2=pos01(c,'b2',[.75,.5]); ga=pos01(c,'ga',[.25,.5]); e=pos01(c,'e',[.25,.001])
        hasA=T not in('ClassicalConstant','RProp'); hasB=T in('RMSProp_Graves','Adam','AdaMax','Nadam','Radam')
        g=c.mat('g',r,k); w=c.mat('w',r,k)
        a=c.mat('a',r,k,dom='nonneg' if T in('RMSProp_Hinton','ModProp') else [16.0,20.0] if T=='RMSProp_Graves' else None) if hasA else 0
        b=c.mat('b',r,k,dom=[-2.0,0.0,1.0,3.0] if T=='RMSProp_Graves' else 'nonneg') if hasB else 0
        bt=c.buf('bt',4,dom=[1.0,.5,.25]); c.forall(bt,lambda q:land(q.old>=0,q.old<=1))
        c.args(w,g,a,b,bt,r,k,f,lr,b1,b2,ga,e); c.anypost(g)
        A0=lambda i:ite(f,0.0,a(i)); B0=lambda i:ite(f,0.0,b(i)); t1=ite(f,1.0,bt(0)); t2=ite(f,1.0,bt(1)); n1,n2=bt(0),bt(1); gam=ga
        if T=='ClassicalConstant': U=lambda i:lr*g(i)
        elif T=='RProp': U=lambda i:ite(g(i)>0,lr,ite(g(i)<0,-lr,0.0))
        elif T=='RMSProp_Hinton':
            R=lambda i:b1*a(i)+g(i)*g(i)*(1-b1); c.post(a,lambda q:ite(f,g(q.i)*g(q.i),R(q.i))); U=lambda i:lr*ite(f,g(i),rdiv(g(i),sqrt(R(i))+e))
        elif T=='ModProp':
            R=lambda i:a(i)*b1+vabs(g(i))*(1-b1); c.post(a,lambda q:ite(f,vabs(g(q.i)),R(q.i))); U=lambda i:lr*ite(f,g(i),rdiv(g(i),R(i)+e))
        elif T=='RMSProp_Graves':
            c.forall(a,lambda q:q.old>=0)
            R=lambda i:b1*a(i)+g(i)*g(i)*(1-b1); Q=lambda i:b1*b(i)+g(i)*(1-b1)
            c.post(a,lambda q:ite(f,g(q.i)*g(q.i),R(q.i))); c.post(b,lambda q:ite(f,g(q.i),Q(q.i))); U=lambda i:lr*ite(f,g(i),rdiv(g(i),sqrt(R(i)-Q(i)*Q(i)+e)))
        elif T=='Adam':
            n1=t1*b1; n2=t2*b2; Mn=lambda i:A0(i)*b1+g(i)*(1-b1); Vn=lambda i:B0(i)*b2+g(i)*g(i)*(1-b2)
            c.post(a,lambda q:Mn(q.i)); c.post(b,lambda q:Vn(q.i)); U=lambda i:rdiv(rdiv(lr*sqrt(1-n2),1-n1)*Mn(i),sqrt(Vn(i))+e)
        elif T=='AdaMax':
            n1=t1*b1; Mn=lambda i:A0(i)*b1+g(i)*(1-b1); Vn=lambda i:vmax(vabs(g(i)),b2*B0(i))
            c.post(a,lambda q:Mn(q.i)); c.post(b,lambda q:Vn(q.i)); U=lambda i:rdiv(rdiv(lr,1-n1)*Mn(i),Vn(i)+e)
        else:
            n1=t1*b1; n2=t2*b2; mut=rdiv(b1-n1,1-n1); et=rdiv(b2-n2,1-n2)
            if T=='Nadam': gam=ite(f,0.0,ga)
            Mn=lambda i:A0(i)*mut+g(i)*(1-mut); Nn=lambda i:B0(i)*et+g(i)*g(i)*(1-et)
            cm=ite(gam==0,b1*rdiv(1-n1,1-b1*n1),1-gam); cg=ite(gam==0,1-mut,gam)
            c.post(a,lambda q:Mn(q.i)); c.post(b,lambda q:Nn(q.i)); U=lambda i:lr*rdiv(cm*Mn(i)+cg*g(i),sqrt(Nn(i))+e)
        c.outs(bt,[n1,n2,gam,0.0]); c.post(w,lambda q:q.old-U(q.i)); c.call()
for T in 'ClassicalConstant RMSProp_Hinton RMSProp_Graves RProp ModProp Adam AdaMax Nadam Radam'.split(): opt(T)
@unit(P,'w_gw_momentum',[GW+'apply_grad',GW+'momentum',GW+'nesterov_momentum'],views=('1d',))
def _(c):
    r,k=rk(c); n=c.bool('n'); lr=pos01(c,'lr',[.01,.5]); m=c.real('m',0,Fraction(999,1000),vals=[0.0,.5,.9],only=True); w=c.mat('w',r,k); g=c.mat('g',r,k); v=c.mat('v',r,k)
    c.args(w,g,v,r,k,n,lr,m); c.anypost(g)
    V=lambda i:ite(m==0,v(i),ite(n,v(i),m*v(i))+lr*g(i)); c.post(v,lambda q:V(q.i)); c.post(w,lambda q:q.old-ite(m==0,lr*g(q.i),ite(n,lr*g(q.i),V(q.i)))); c.call()
@unit(P,'w_gw_pre_fprop',[GW+'pre_training_fprop'],views=('1d',))
def _(c):
    r,k=rk(c); n=c.bool('n'); m=c.real('m',0,Fraction(999,1000),vals=[0.0,.5,.9],only=True); w=c.mat('w',r,k); v=c.mat('v',r,k); on=land(n,m>0)
    c.args(w,v,r,k,n,m); c.post(v,lambda q:ite(on,m*q.old,q.old)); c.post(w,lambda q:q.old-ite(on,m*v(q.i),0.0)); c.call()
@unit(P,'w_gw_nesterov_iter',[GW+'pre_training_fprop',GW+'apply_grad'],views=('1d',))
def _(c):
    r,k=rk(c); lr=pos01(c,'lr',[.01,.5]); m=pos01(c,'m',[.5,.9]); w=c.mat('w',r,k); g=c.mat('g',r,k); v=c.mat('v',r,k); la=c.mat('la',r,k)
    c.args(w,g,v,la,r,k,lr,m); c.anypost(g); V=lambda i:m*v(i)+lr*g(i)
    c.post(la,lambda q:w(q.i)-m*v(q.i)); c.post(v,lambda q:V(q.i)); c.post(w,lambda q:q.old-V(q.i)); c.call()
U01=[0.0,.25,.5,.75,1.0]
@unit(P,'w_gw_lrdrop',[GW+'apply_grad',GW+'LRDropoutPercentActive',GW+'bLRDropout'],views=('1d',))
def _(c):
    r,k=rk(c); um=c.bool('um'); n=c.bool('n'); lr=pos01(c,'lr',[.01,.5]); m=pos01(c,'m',[.5,.9]); pa=c.real('pa',0,1,vals=[0.0,.25,.5,.75,1.0])
    w=c.mat('w',r,k); g=c.mat('g',r,k); v=c.mat('v',r,k); t=c.mat('t',r,k); s=c.mat('s',r,k,const=True,dom=U01); c.forall(s,lambda q:land(q.old>=0,q.old<=1))
    c.args(w,g,v,t,s,r,k,um,n,lr,m,pa); c.anypost(g); c.anypost(t); c.returns(lambda:0)
    V=lambda i:ite(um,ite(n,v(i),m*v(i))+lr*g(i),v(i)); c.post(v,lambda q:V(q.i))
    D=lambda i:ite(lor(pa<=0,pa>=1),1.0,ite(s(i)<pa,1.0,0.0))
    c.post(w,lambda q:q.old-D(q.i)*ite(land(um,lnot(n)),V(q.i),lr*g(q.i))); c.call()
@unit(P,'w_gw_lrdrop_pre',[GW+'pre_training_fprop',GW+'setApplyLRDropoutToNesterovMomentum'],views=('1d',))
def _(c):
    r,k=rk(c); ap=c.bool('ap'); m=pos01(c,'m',[.5,.9]); pa=c.real('pa',0,1,vals=[0.0,.25,.5,.75,1.0])
    w=c.mat('w',r,k); v=c.mat('v',r,k); t=c.buf('t',r*k*2); s=c.mat('s',r,k,const=True,dom=U01); c.forall(s,lambda q:land(q.old>=0,q.old<=1))
    c.args(w,v,t,s,r,k,m,pa,ap); c.anypost(t); c.returns(lambda:0); c.post(v,lambda q:m*q.old)
    D=lambda i:ite(lor(lnot(ap),lor(pa<=0,pa>=1)),1.0,ite(s(i)<pa,1.0,0.0)); c.post(w,lambda q:q.old-D(q.i)*m*v(q.i)); c.call()
for pre in (False,True):
    @unit(P,'w_gw_maxnorm'+('_pre' if pre else ''),[GW+('pre_training_fprop' if pre else 'apply_grad'),GW+'max_norm2'],views=('2d',),prove=False)
    def _(c,pre=pre):
        r=c.int('r',1); k=c.int('c',2,hi=(1<<31)-8); ib=c.bool('ib'); mx=c.real('mx',Fraction(1,100),vals=[1.0,4.0,.25],only=True); lr=pos01(c,'lr',[.01,.5])
        w=c.mat('w',r,k); g=c.mat('g',r,k); t=c.mat('t',r,12)
        X=lambda t_,i:w(t_,i)-lr*g(t_,i); m=ite(ib,k,k-1)
        S=c.fold('S',1,lambda i:0.0,lambda i,t_,acc:acc+X(t_,i)*X(t_,i),mono='up')
        if pre: c.args(w,g,t,r,k,lr,mx,ib); c.post(g,lambda q:lr*q.old)
        else: c.args(w,g,t,r,k,lr,mx,ib); c.anypost(g)
        c.anypost(t); c.returns(lambda:0); c.post(w,lambda q:(q.old-lr*g(q.i))*ite(S(q.row,m)>mx,sqrt(rdiv(mx,S(q.row,m))),1.0)); c.call()
for i1,i2 in((False,False),(False,True),(True,False),(True,True)):
    @unit(P,'w_gw_pen',['_Loss_Addendums::_applyLossAddendums','_Loss_Addendums::L1','_Loss_Addendums::L2','L1::dLossAdd','L2::dLossAdd'],views=('1d',),tag='%d%d'%(i1,i2))
    def _(c,i1=i1,i2=i2):
        r,k=c.int('r',1),c.int('c',2); lr=pos01(c,'lr',[.01,.5]); l1=c.real('l1',0,4,vals=[0.0,.5,.25]); l2=c.real('l2',0,4,vals=[0.0,.5,.125]); w=c.mat('w',r,k); g=c.mat('g',r,k)
        c.args(w,g,r,k,lr,l1,i1,l2,i2); c.anypost(g); nb=r*(k-1)
        c.post(w,lambda q:q.old-lr*(g(q.i)+(ite(q.i<nb,l1*sign(q.old),0.0) if i1 else l1*sign(q.old))+(ite(q.i<nb,l2*q.old,0.0) if i2 else l2*q.old))); c.call()
@unit(P,'w_gw_lossadd',['_Loss_Addendums::lossAddendum','_Loss_Addendums::hasLossAddendum','L1::lossAdd','L2::lossAdd'],views=('1d',))
def _(c):
    r,k=c.int('r',1),c.int('c',2); l1=c.real('l1',0,4,vals=[0.0,.5,.25]); l2=c.real('l2',0,4,vals=[0.0,.5,.125]); i1,i2=c.bool('i1'),c.bool('i2'); w=c.mat('w',r,k); h=c.buf('h',1,'i8')
    S1=c.fold('S1',0,lambda:0.0,lambda t,acc:acc+vabs(w(t))); S2=c.fold('S2',0,lambda:0.0,lambda t,acc:acc+w(t)*w(t)); n,nb=r*k,r*(k-1)
    c.args(w,r,k,l1,i1,l2,i2,h); c.outs(h,[ite(lor(l1!=0,l2!=0),1,0)]); c.returns(lambda:ite(l1!=0,l1*S1(ite(i1,nb,n)),0.0)+ite(l2!=0,l2*rdiv(S2(ite(i2,nb,n)),2.0),0.0)); c.call()
@unit(P,'w_gw_run',[GW+'gw_init',GW+'gw_deinit',GW+'apply_grad',GW+'pre_training_fprop','ILR::ILR_init','ILR::ILR_apply','ILR::set_ILR','ILR::applyILRToMomentum'],views=('2d',),prove=False,tol=2e-3)
def _(c):
    n=c.int('n',1,small=(1,6)); r=c.int('r',1,small=(1,4)); k=c.int('k',2,small=(2,4)); T=c.choice('type',[0,0,0,1,2,3,4,5,6,7,8]); lr=c.choice('lr',[.5,.25,.0625]); mom=c.choice('mom',[0.0,.5,.75]); nest=c.bool('nest')
    l1=c.choice('l1',[0.0,0.0,.25]); l2=c.choice('l2',[0.0,0.0,.125]); mx=c.choice('mx',[0.0,0.0,1.0,4.0]); ib=c.bool('ib'); ilr=c.bool('ilr'); ilrm=c.bool('ilrm'); c.require(r*k*2<4096)
    V=[-2.0,-1.5,-1.0,-.5,-.25,.25,.5,.75,1.0,1.25,2.0]; w=c.mat('w',r,k,dom=V); g=c.mat('g',r,k*n,dom=V); o=c.buf('o',3)
    R=GRef(c,r,k,T,lr,mom,nest,l1,l2,mx,ib,(.5,1.5,.25,4.0) if ilr else None,ilrm,.001); x=list(w.old)
    for i in range(n): x=R.pre(x); x=R.apply(x,g.old[i*r*k:(i+1)*r*k])
    c.require(R.ok and all(abs(z)<1e3 for z in x)); nb=r*(k-1)
    c.args(w,g,n,r,k,T,lr,mom,nest,l1,l2,mx,ib,ilr,ilrm,o); c.anypost(g); c.post(w,lambda q:x[q.i])
    c.outs(o,[0.0,l1*sum(abs(z) for z in x[:nb])+l2*sum(z*z for z in x[:nb])/2,float(l1!=0 or l2!=0)]); c.returns(lambda:True); c.call()
