"""C07, C08: activation functions and their derivatives"""
from dsl import *
use_tu('mn_act')
MNP='_MathN::'
# name -> (parameter lower bounds (exclusive), formula)
B1=1.0
FWD={
 'sigm':((),lambda v:rdiv(1.0,1+exp(-v))),
 'relu':((),lambda v:ite(v<=0,0.0,v)),
 'leakyrelu':((0,),lambda v,k:ite(v<0,v*k,v)),
 'elu':((0,),lambda v,a:ite(v<0,(exp(v)-1)*a,v)),
 'elu_unitalpha':((),lambda v:ite(v<0,exp(v)-1,v)),
 'elogu':((0,1),lambda v,a,b:ite(v<0,(exp(v)-1)*a,rdiv(log(1+v),log(b)))),
 'elogu_ua':((1,),lambda v,b:ite(v<0,exp(v)-1,rdiv(log(1+v),log(b)))),
 'elogu_nb':((0,),lambda v,a:ite(v<0,(exp(v)-1)*a,log(1+v))),
 'elogu_ua_nb':((),lambda v:ite(v<0,exp(v)-1,log(1+v))),
 'loglogu':((1,1),lambda v,bn,bp:ite(v<0,rdiv(-log(1-v),log(bn)),rdiv(log(1+v),log(bp)))),
 'loglogu_nbn':((1,),lambda v,bp:ite(v<0,-log(1-v),rdiv(log(1+v),log(bp)))),
 'loglogu_nbp':((1,),lambda v,bn:ite(v<0,rdiv(-log(1-v),log(bn)),log(1+v))),
 'loglogu_nbn_nbp':((),lambda v:ite(v<0,-log(1-v),log(1+v))),
 'logu':((1,),lambda v,b:ite(v<=0,0.0,rdiv(log(1+v),log(b)))),
 'logu_nb':((),lambda v:ite(v<=0,0.0,log(1+v))),
 'softsign_uc':((0,),lambda v,a:rdiv(v,a+vabs(v))),
 'softsign':((0,0),lambda v,a,c:rdiv(c*v,a+vabs(v))),
 'softsigm':((0,),lambda v,a:0.5+rdiv(0.5*v,a+vabs(v))),
 'selu':((0,0),lambda v,al,l:ite(v<0,(exp(v)-1)*al,v*l)),
 'step':((),lambda v:ite(v<0,0.0,1.0)),
}
def nl(b): return log(log(b))
BWD={
 'dsigm':((),lambda f:f*(1-f)),
 'drelu':((),lambda f:ite(f<=0,0.0,1.0)),
 'dleakyrelu':((0,),lambda f,k:ite(f<=0,k,1.0)),
 'delu':((0,),lambda f,a:ite(f<0,f+a,1.0)),
 'delu_unitalpha':((),lambda f:ite(f<0,f+1,1.0)),
 'delogu':((0,1),lambda f,a,b:ite(f<0,f+a,exp(-(f*log(b))-nl(b)))),
 'delogu_ua':((1,),lambda f,b:ite(f<0,f+1,exp(-(f*log(b))-nl(b)))),
 'delogu_nb':((0,),lambda f,a:ite(f<0,f+a,exp(-f))),
 'delogu_ua_nb':((),lambda f:ite(f<0,f+1,exp(-f))),
 'dloglogu':((1,1),lambda f,bn,bp:exp(ite(f<0,f*log(bn)-nl(bn),-(f*log(bp))-nl(bp)))),
 'dloglogu_nbn':((1,),lambda f,bp:exp(ite(f<0,f,-(f*log(bp))-nl(bp)))),
 'dloglogu_nbp':((1,),lambda f,bn:exp(ite(f<0,f*log(bn)-nl(bn),-f))),
 'dloglogu_nbn_nbp':((),lambda f:exp(ite(f<0,f,-f))),
 'dlogu':((1,),lambda f,b:ite(f<=0,0.0,exp(-(f*log(b))-nl(b)))),
 'dlogu_nb':((),lambda f:ite(f<=0,0.0,exp(-f))),
 'dsoftsign_ua_uc':((),lambda f:(1-vabs(f))*(1-vabs(f))),
 'dsoftsign':((0,0),lambda f,a,c:rdiv((c-vabs(f))*(c-vabs(f)),c*a)),
 'dsoftsigm':((0,),lambda f,a:rdiv(2*(0.5-vabs(f-0.5))*(0.5-vabs(f-0.5)),a)),
 'dselu':((0,0),lambda f,al,l:ite(f<0,f+al,l)),
}
def mk(prop,name,lows,F,fwd):
    def params(c):
        out=[]
        for i,l in enumerate(lows):
            x=c.real('x%d'%i,l+Fraction(1,100),vals=[l+.5,l+1.0,l+2.0]); out.append(x)
        return out
    for kind in ('','_st','_mt'):
        @unit(prop,'w_'+name+kind,[MNP+name+kind,MNP+'_i'+name+'_st'],views=('1d',))
        def _(c,kind=kind):
            r=c.int('r',1); k=c.int('c',1); eb=c.bool('eb') if fwd else False
            c.require(implies(eb,k>=2)); p=c.mat('p',r,k); xs=params(c)
            n=r*(k-toi(eb)) if fwd else r*k
            if kind=='_st':
                a=c.int('a',0,1<<40,bits=64); b=c.int('b',0,1<<40,bits=64); c.require(a<=b); c.require(b<=n)
                c.args(p,r,k,eb,*xs,a,b); c.post(p,lambda q:ite(land(q.i>=a,q.i<b),F(q.old,*xs),q.old))
            else:
                c.args(p,r,k,eb,*xs); c.post(p,lambda q:ite(q.i<n,F(q.old,*xs),q.old))
            c.call()
for n,(l,F) in FWD.items(): mk('C07',n,l,F,True)
for n,(l,F) in BWD.items(): mk('C08',n,l,F,False)
