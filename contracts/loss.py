"""C11: loss functions and their gradients"""
from dsl import *
use_tu('mn_loss')
P='C11'; MNP='_MathN::'
MINF=Fraction(1,1<<126); ALMOST0=Fraction(-11447376,131072)   # float(-87.336544750402)
def wl(s,o,Y,res=False):
    def L(a,y):
        fp=land(y<Y,a>y)
        if res: e=ite(fp,s*(a-Y)+Y-y,a-y)
        else: e=(a-y)*ite(fp,s,o)
        return e*e
    def D(a,y):
        fp=land(y<Y,a>y)
        if res: return ite(fp,s*(s*(a-Y)+Y-y),a-y)
        return (a-y)*ite(fp,s*s,o*o)
    return L,D
F_=Fraction
W1=wl(F_(3,2),1,F_(1,4)); W2=wl(F_(3,2),F_(1,2),F_(1,4)); W3=wl(F_(3,2),1,F_(1,4),True)
quad=lambda a,y:(a-y)*(a-y)
def xe(a,y): return ite(y>0,log(a+MINF),log((1-a)+MINF))
def sm(a,y): return -y*ite(a>0,log(a),ALMOST0)
def conc(c): return not hasattr(c,'eng')
# name -> (term, scale, domains)
LOSS=[('loss_quadratic','_st_naive','_mt_naive',quad,F_(1,2),None),('loss_quadratic_ns',None,None,quad,F_(1,2),None),
 ('loss_xentropy','_st','_mt',xe,-1,'x'),('loss_xentropy_ns','_st','_mt',xe,-1,'x'),('loss_softmax_xentropy','_st','_mt',sm,1,'s'),
 ('loss_LQ','_st','_mt',quad,F_(1,2),None),('loss_L1','_st','_mt',W1[0],F_(1,2),None),('loss_L2','_st','_mt',W2[0],F_(1,2),None),('loss_L3','_st','_mt',W3[0],F_(1,2),None)]
def real_name(n): return {'loss_LQ':'compute_loss<Loss_quadratic>','loss_L1':'compute_loss<Linear_Loss_quadWeighted_FP>','loss_L2':'compute_loss<Linear_Loss_quadWeighted2_FP>','loss_L3':'compute_loss<Linear_Loss_quadWeighted_res_FP>'}.get(n,n)
def bufs(c,dom,pconst):
    r=c.int('r',1); k=c.int('c',1)
    if dom=='x':
        p=c.mat('p',r,k,const=pconst,dom=[0.0,.25,.5,.75,1.0]); q=c.mat('q',r,k,const=True,dom='binary')
        c.forall(p,lambda z:land(z.old>=0,z.old<=1)); c.forall(q,lambda z:lor(z.old==0,z.old==1))
    elif dom=='s':
        p=c.mat('p',r,k,const=pconst,dom=[0.0,.25,.5,.75,1.0]); q=c.mat('q',r,k,const=True,dom='unit'); c.forall(p,lambda z:land(z.old>=0,z.old<=1)); c.forall(q,lambda z:land(z.old>=0,z.old<=1))
    elif dom=='o':
        p=c.mat('p',r,k,const=pconst,dom=[.125,.25,.5,.75]); q=c.mat('q',r,k,const=True,dom='unit'); c.forall(p,lambda z:land(z.old>0,z.old<1)); c.forall(q,lambda z:land(z.old>=0,z.old<=1))
    elif dom=='u':
        p=c.mat('p',r,k,const=pconst,dom='unit'); q=c.mat('q',r,k,const=True,dom='unit'); c.forall(p,lambda z:land(z.old>=0,z.old<=1)); c.forall(q,lambda z:land(z.old>=0,z.old<=1))
    else: p=c.mat('p',r,k,const=pconst); q=c.mat('q',r,k,const=True)
    return r,k,p,q
def rng(c,r,k):
    er=c.bool('er'); a=c.int('a',0,bits=64,small=(0,6)); b=c.int('b',0,bits=64,small=(0,30)); c.require(a<=b); c.require(b<=r*k)
    return er,a,b
for (n,st,mt,L,sc,dom) in LOSS:
    names=[(n,None)]
    if st: names+=[(n+st,'st'),(n+mt,'mt')]
    elif n=='loss_quadratic_ns': names+=[('loss_quadratic_st_naive_ns','st'),('loss_quadratic_mt_naive_ns','mt')]
    for wn,kind in names:
        @unit(P,'w_'+wn,[MNP+real_name(n)+(' ('+kind+')' if kind else '')],views=('1d',))
        def _(c,kind=kind,L=L,sc=sc,dom=dom):
            r,k,p,q=bufs(c,dom,True)
            S=c.fold('S',0,lambda:0.0,lambda i,acc:acc+L(p(i),q(i)))
            if kind=='st':
                er,a,b=rng(c,r,k); c.args(p,q,r,k,er,a,b); c.returns(lambda:sc*ite(er,S(b)-S(a),S(r*k)))
            else: c.args(p,q,r,k); c.returns(lambda:sc*S(r*k))
            c.call()
def softs(a): return ite(a<=F_(1,2),a,1-a)
DL=[('dloss_L1',0,W1[1],None),('dloss_L2',0,W2[1],None),('dloss_L3',0,W3[1],None),
 ('dIdentityXEntropyLoss_dZ',0,lambda a,y:rdiv(a-y,a*(1-a)),'o'),('dSigmQuadLoss_dZ',0,lambda a,y:(a-y)*a*(1-a),'u'),
 ('dSoftSigmQuadLoss_dZ',1,lambda a,y,x:rdiv((a-y)*2*softs(a)*softs(a),x),'u'),('dSoftSigmXEntropyLoss_dZ',1,lambda a,y,x:rdiv((a-y)*2*softs(a)*softs(a),x*a*(1-a)),'o')]
for (n,np,D,dom) in DL:
    for suf in ('','_mt','_st'):
        @unit(P,'w_'+n+suf,[MNP+n.replace('dloss_L1','dLoss_dZ<Linear_Loss_quadWeighted_FP>').replace('dloss_L2','dLoss_dZ<Linear_Loss_quadWeighted2_FP>').replace('dloss_L3','dLoss_dZ<Linear_Loss_quadWeighted_res_FP>')+suf],views=('1d',))
        def _(c,suf=suf,np=np,D=D,dom=dom):
            r,k,p,q=bufs(c,dom,False)
            xs=[]
            if np: x=c.real('x',Fraction(1,10**6),vals=[.5,1.0,2.0],only=True); xs=[x]
            if suf=='_st':
                er,a,b=rng(c,r,k); c.args(p,q,r,k,*xs,er,a,b); c.post(p,lambda z:ite(lor(lnot(er),land(z.i>=a,z.i<b)),D(z.old,q(z.i),*xs),z.old))
            else: c.args(p,q,r,k,*xs); c.post(p,lambda z:D(z.old,q(z.i),*xs))
            c.call()
