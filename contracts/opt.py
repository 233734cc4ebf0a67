"""C10: gradient application (optimizer) steps"""
from dsl import *
use_tu('mn_opt')
P='C10'; MNP='_MathN::'
SUF=('','_st','_mt')
def pos01(c,name,vals): return c.real(name,Fraction(1,10**6),1-Fraction(1,10**6),vals=vals,only=True)
def base(c):
    r=c.int('r',1); k=c.int('c',1); return r,k
for suf in SUF:
    @unit(P,'w_RMSProp_Hinton'+suf,[MNP+'RMSProp_Hinton'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); d=pos01(c,'d',[.5,.9]); e=pos01(c,'e',[.25,.001]); p=c.mat('p',r,k); f=c.mat('f',r,k,dom='nonneg')
        R=lambda i:d*f(i)+p(i)*p(i)*(1-d)
        c.args(p,f,r,k,lr,d,e); c.post(f,lambda q:R(q.i)); c.post(p,lambda q:lr*rdiv(q.old,sqrt(R(q.i))+e)); c.call()
    @unit(P,'w_RMSProp_Graves'+suf,[MNP+'RMSProp_Graves'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); d=pos01(c,'d',[.5,.9]); e=pos01(c,'e',[.25,.001]); p=c.mat('p',r,k); f=c.mat('f',r,k,dom=[16.0,20.0]); g=c.mat('g',r,k,dom=[-2.0,0.0,1.0,3.0]); c.forall(f,lambda q:q.old>=0)
        F=lambda i:d*f(i)+p(i)*p(i)*(1-d); G=lambda i:d*g(i)+p(i)*(1-d)
        c.args(p,f,g,r,k,lr,d,e); c.post(f,lambda q:F(q.i)); c.post(g,lambda q:G(q.i)); c.post(p,lambda q:lr*rdiv(q.old,sqrt(F(q.i)-G(q.i)*G(q.i)+e))); c.call()
    @unit(P,'w_ModProp'+suf,[MNP+'ModProp'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); d=pos01(c,'d',[.5,.9]); e=pos01(c,'e',[.25,.001]); p=c.mat('p',r,k); f=c.mat('f',r,k,dom='nonneg')
        R=lambda i:f(i)*d+vabs(p(i))*(1-d)
        c.args(p,f,r,k,lr,d,e); c.post(f,lambda q:R(q.i)); c.post(p,lambda q:lr*rdiv(q.old,R(q.i)+e)); c.call()
    @unit(P,'w_RProp'+suf,[MNP+'RProp'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); p=c.mat('p',r,k); c.args(p,r,k,lr); c.post(p,lambda q:ite(q.old>0,lr,ite(q.old<0,-lr,0.0))); c.call()
    @unit(P,'w_Adam'+suf,[MNP+'Adam'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); b1=pos01(c,'b1',[.5,.9]); b2=pos01(c,'b2',[.75,.5]); e=pos01(c,'e',[.25,.001])
        p=c.mat('p',r,k); m=c.mat('m',r,k); v=c.mat('v',r,k,dom='nonneg'); bt=c.buf('bt',2,dom=[1.0,.5,.25]); c.forall(bt,lambda q:land(q.old>=0,q.old<=1))
        nb1=bt(0)*b1; nb2=bt(1)*b2
        Mn=lambda i:m(i)*b1+p(i)*(1-b1); Vn=lambda i:v(i)*b2+p(i)*p(i)*(1-b2)
        c.args(p,m,v,bt,r,k,lr,b1,b2,e); c.outs(bt,[nb1,nb2]); c.post(m,lambda q:Mn(q.i)); c.post(v,lambda q:Vn(q.i))
        al=rdiv(lr*sqrt(1-nb2),1-nb1)
        c.post(p,lambda q:rdiv(al*Mn(q.i),sqrt(Vn(q.i))+e)); c.call()
    @unit(P,'w_AdaMax'+suf,[MNP+'AdaMax'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); b1=pos01(c,'b1',[.5,.9]); b2=pos01(c,'b2',[.75,.5]); e=pos01(c,'e',[.25,.001])
        p=c.mat('p',r,k); m=c.mat('m',r,k); v=c.mat('v',r,k,dom='nonneg'); bt=c.buf('bt',1,dom=[1.0,.5,.25]); c.forall(bt,lambda q:land(q.old>=0,q.old<=1))
        nb1=bt(0)*b1
        Mn=lambda i:m(i)*b1+p(i)*(1-b1); Vn=lambda i:vmax(vabs(p(i)),b2*v(i))
        c.args(p,m,v,bt,r,k,lr,b1,b2,e); c.outs(bt,[nb1]); c.post(m,lambda q:Mn(q.i)); c.post(v,lambda q:Vn(q.i))
        c.post(p,lambda q:rdiv(rdiv(lr,1-nb1)*Mn(q.i),Vn(q.i)+e)); c.call()
    @unit(P,'w_RNadam'+suf,[MNP+'RNadam'+suf],views=('1d',))
    def _(c):
        r,k=base(c); lr=pos01(c,'lr',[.01,.5]); mu=pos01(c,'mu',[.5,.9]); eta=pos01(c,'eta',[.75,.5]); ga=c.real('ga',0,1-Fraction(1,10**6),vals=[0.0,.25,.5],only=True); e=pos01(c,'e',[.25,.001])
        p=c.mat('p',r,k); m=c.mat('m',r,k); n=c.mat('n',r,k,dom='nonneg'); bt=c.buf('bt',2,dom=[1.0,.5,.25]); c.forall(bt,lambda q:land(q.old>=0,q.old<=1))
        mp=bt(0)*mu; ep=bt(1)*eta
        mut=rdiv(mu-mp,1-mp); et=rdiv(eta-ep,1-ep)
        Mn=lambda i:m(i)*mut+p(i)*(1-mut); Nn=lambda i:n(i)*et+p(i)*p(i)*(1-et)
        cm=ite(ga==0,mu*rdiv(1-mp,1-mu*mp),1-ga); cg=ite(ga==0,1-mut,ga)
        c.args(p,m,n,bt,r,k,lr,mu,eta,ga,e); c.outs(bt,[mp,ep]); c.post(m,lambda q:Mn(q.i)); c.post(n,lambda q:Nn(q.i))
        c.post(p,lambda q:lr*rdiv(cm*Mn(q.i)+cg*p(q.i),sqrt(Nn(q.i))+e)); c.call()
    @unit(P,'w_apply_momentum'+suf,[MNP+'apply_momentum'+suf],views=('1d',))
    def _(c):
        r,k=base(c); x=c.real('x',vals=[0.0,.5,.9]); p=c.mat('p',r,k); q=c.mat('q',r,k,const=True); c.args(p,q,r,k,x); c.post(p,lambda z:x*z.old+q(z.i)); c.call()
for suf in ('','_st_naive','_mt_naive','_st_vec','_mt_vec'):
    @unit(P,'w_apply_ILR'+suf,[MNP+'apply_ILR'+suf,MNP+'apply_ILR_needTempMem','_SMath::_istor_alloc','_SMath::_istor_free'],views=('1d',))
    def _(c):
        r,k=base(c); de=pos01(c,'de',[.5,.75]); inc=c.real('inc',1+Fraction(1,10**6),vals=[1.5,2.0],only=True); lo=c.real('lo',Fraction(1,10**6),vals=[.5,1.0],only=True); hi=c.real('hi',Fraction(1,10**6),vals=[2.0,4.0],only=True); c.require(lo<hi)
        p=c.mat('p',r,k); f=c.mat('f',r,k,const=True); g=c.mat('g',r,k,dom=[.25,.5,1.0,2.0,3.0,4.0,5.0]); t=c.buf('t',r*k); c.anypost(t)
        def G(i):
            cond=p(i)*f(i); v=g(i)
            return v*ite(land(cond>0,v<hi),inc,ite(land(cond<0,v>lo),de,1.0))
        c.args(p,f,g,t,r,k,de,inc,lo,hi); c.post(g,lambda q:G(q.i)); c.post(p,lambda q:q.old*G(q.i)); c.returns(lambda:0); c.call()
