"""C09: elementwise operations"""
from dsl import *
use_tu('mn_ew')
P='C09'; MNP='_MathN::'
def sign(x): return ite(x>0,1.0,ite(x<0,-1.0,0.0))
SUF=('','_st','_mt')
def scal(c,name='x'): return c.real(name,vals=[-1.5,.5,1.0,2.0])
# in place, bias aware
def bir_op(name,np,F):
    for suf in SUF+('_nb',):
        for row in (False,True):
            @unit(P,'w_'+name+suf,[MNP+name+suf],views=('2d',) if row else ('1d',),tag='bias row' if row else '')
            def _(c,suf=suf,row=row):
                r=c.int('r',1); k=c.int('c',1); eb=c.bool('eb'); bir=c.bool('bir'); c.require(implies(eb,ite(bir,r,k)>=2))
                xs=[scal(c,'x%d'%i) for i in range(np)]; p=c.mat('p',r,k)
                if name!='evAddC_ip': c.require(xs[0]!=0)
                if suf=='_nb': ib=True; c.args(p,r,k,eb,bir,*xs)
                else:
                    ib=c.bool('ib'); c.require(lor(ib,lnot(eb))); c.args(p,r,k,eb,bir,*xs,ib)
                c.require(land(eb,bir) if row else lnot(land(eb,bir)))
                if row: skip=lambda q: q.row==r-1
                else: skip=lambda q: land(eb,q.i>=r*(k-1))
                c.post(p,lambda q:ite(skip(q),q.old,F(q.old,*xs))); c.call()
bir_op('evMulCAddC_ip',2,lambda v,s,o:s*v+o)
bir_op('evMulC_ip',1,lambda v,s:s*v)
bir_op('evAddC_ip',1,lambda v,s:v+s)
# vectors
for suf in SUF:
    @unit(P,'w_evMulC_ip_v'+suf,[MNP+'evMulC_ip'+suf+' (vector)'])
    def _(c):
        n=c.int('n',1,1<<40,bits=64); x=scal(c); c.require(x!=0); p=c.buf('p',n); c.args(p,n,x); c.post(p,lambda q:q.old*x); c.call()
    @unit(P,'w_vAdd_ip'+suf,[MNP+'vAdd_ip'+suf])
    def _(c):
        n=c.int('n',1,1<<40,bits=64); p=c.buf('p',n); q=c.buf('q',n,const=True); c.args(p,q,n); c.post(p,lambda z:z.old+q(z.i)); c.call()
@unit(P,'w_vAdd_ip_ste',[MNP+'vAdd_ip_st'])
def _(c):
    n=c.int('n',1,1<<40,bits=64); a=c.int('a',0,1<<40,bits=64); b=c.int('b',0,1<<40,bits=64); c.require(a<=b); c.require(b<=n)
    p=c.buf('p',n); q=c.buf('q',n,const=True); c.args(p,q,n,a,b); c.post(p,lambda z:ite(land(z.i>=a,z.i<b),z.old+q(z.i),z.old)); c.call()
# A op= B
def op2(name,np,F,anb=False,nz=False,sts=SUF,ste=True,dest_first=True,const=True,F2=None):
    for suf in sts:
        @unit(P,'w_'+name+suf,[MNP+name+suf],views=('1d',))
        def _(c,suf=suf):
            r=c.int('r',1); k=c.int('c',1); eb=c.bool('eb') if anb else False
            xs=[scal(c,'x%d'%i) for i in range(np)]
            for x in xs: c.require(x!=0)
            p=c.mat('p',r,k+toi(eb) if anb else k); q=c.mat('q',r,k,const=F2 is None); n=r*k
            A=[p,q,r,k]+([eb] if anb else [])+xs
            if suf=='_st' and ste:
                a=c.int('a',0,1<<40,bits=64); b=c.int('b',0,1<<40,bits=64); c.require(a<=b); c.require(b<=n); A+=[a,b]
                G=lambda i:land(i>=a,i<b)
            else: G=lambda i:i<n
            c.args(*A); q0=q
            c.post(p,lambda z:ite(G(z.i),F(z.old,q(z.i),*xs),z.old))
            if F2: c.post(q,lambda z:F2(p(z.i),z.old,*xs))
            c.call()
op2('evMul_ip',0,lambda a,b:a*b); op2('evAdd_ip',0,lambda a,b:a+b); op2('evSign',0,lambda a,b:sign(b))
op2('evMul_ip_Anb',0,lambda a,b:a*b,anb=True); op2('evAdd_Anb_ip',0,lambda a,b:a+b,anb=True)
op2('evSubMtxMulC_ip_nb',1,lambda a,b,x:(a-b)*x,anb=True)
op2('evAddScaled_ip',1,lambda a,b,x:a+x*b)
op2('evNZAddScaled_ip',1,lambda a,b,x:ite(a==0,0.0,a+x*b))
op2('evAddScaledSign_ip',1,lambda a,b,x:a+x*sign(b))
op2('evNZAddScaledSign_ip',1,lambda a,b,x:ite(a==0,0.0,a+x*sign(b)))
op2('evSub_ip',0,lambda a,b:a-b,sts=('','_st_naive','_mt_naive'))
op2('evSquare',0,lambda a,b:b*b,ste=False); op2('evAbs',0,lambda a,b:vabs(b),ste=False)
op2('evMulC_ip_Sub_ip',1,lambda v,w,m:v*m,ste=False,F2=lambda v,w,m:w-v*m)
for suf in SUF:
    @unit(P,'w_evOneCompl'+suf,[MNP+'evOneCompl'+suf],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); eb=c.bool('eb'); c.require(implies(eb,k>=2)); p=c.mat('p',r,k,const=True); q=c.mat('q',r,k)
        n=r*(k-toi(eb)); c.args(p,q,r,k,eb); c.post(q,lambda z:ite(z.i<n,1-p(z.i),z.old)); c.call()
    @unit(P,'w_vSumAbs'+suf,[MNP+'vSumAbs'+suf],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k,const=True)
        S=c.fold('S',0,lambda: 0.0,lambda i,acc: acc+vabs(p(i)))
        c.args(p,r,k); c.returns(lambda:S(r*k)); c.call()
for suf in ('','_st_naive','_mt_naive'):
    @unit(P,'w_evSub'+suf,[MNP+'evSub'+suf],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k,const=True); q=c.mat('q',r,k,const=True); d=c.mat('d',r,k)
        c.args(p,q,d,r,k); c.post(d,lambda z:p(z.i)-q(z.i)); c.call()
