"""C14: sums and row-wise reductions/broadcasts;  C15: column-wise operations"""
from dsl import *
use_tu('mn_red')
P='C14'; SM='_SMath::'
def rng(c,n,bits=64):
    er=c.bool('er'); s=c.int('s',0,bits=bits,small=(0,4)); e=c.int('e',0,bits=bits,small=(0,16)); c.require(s<e); c.require(e<=n); return er,s,e
for F in ('ewSumProd','ewSumProd_mt','ewSumProd_st'):
    @unit(P,'w_'+F,[SM+F],views=('1d',))
    def _(c,F=F):
        r=c.int('r',1); k=c.int('c',1); n=r*k; p=c.mat('p',r,k,const=True); q=c.mat('q',r,k,const=True)
        S=c.fold('S',0,lambda:0.0,lambda i,acc:acc+p(i)*q(i))
        if F.endswith('_st'):
            er,s,e=rng(c,n); c.args(p,q,r,k,er,s,e); c.returns(lambda:ite(er,S(e)-S(s),S(n)))
        else: c.args(p,q,r,k); c.returns(lambda:S(n))
        c.call()
for pre in ('','p_'):
    for F in ('ewSumSquares','ewSumSquares_mt','ewSumSquares_ns','ewSumSquares_mt_ns','ewSumSquares_st','ewSumSquares_st_ns'):
        @unit(P,'w_'+pre+F,[SM+F],views=('1d',))
        def _(c,F=F,pre=pre):
            if pre: n=c.int('n',1,bits=64,hi=1<<40); p=c.buf('p',n,const=True); a=[p,n]
            else: r=c.int('r',1); k=c.int('c',1); n=r*k; p=c.mat('p',r,k,const=True); a=[p,r,k]
            S=c.fold('S',0,lambda:0.0,lambda i,acc:acc+p(i)*p(i))
            if '_st' in F:
                er,s,e=rng(c,n); c.args(*a,er,s,e); c.returns(lambda:ite(er,S(e)-S(s),S(n)))
            else: c.args(*a); c.returns(lambda:S(n))
            c.call()
for st in ('false','true'):
    @unit(P,'w_vec_sum_'+st,[SM+'_vec_sum<%s>'%st],views=('1d',))
    def _(c):
        n=c.int('n',1,bits=64,hi=1<<40); p=c.buf('p',n,const=True); S=c.fold('S',0,lambda:0.0,lambda i,acc:acc+p(i)); c.args(p,n); c.returns(lambda:S(n)); c.call()
for lo in ('L','U'):
    for st in ('','s'):
        for mt in ('','_st','_mt'):
            @unit(P,'w_tri_'+lo+st+mt,[SM+'ewSumSquaresTriang'+mt],prove=False)
            def _(c,lo=lo):
                n=c.int('n',2); p=c.mat('p',n,n,const=True); c.args(p,n)
                c.returns(lambda:sum(p(j,i)**2 for j in range(n) for i in (range(j+1,n) if lo=='L' else range(j)))); c.call()
    @unit(P,'w_tri_%s_er'%lo,[SM+'ewSumSquaresTriang_st'],prove=False)
    def _(c,lo=lo):
        n=c.int('n',2); p=c.mat('p',n,n,const=True); s=c.int('s',0,bits=64,small=(0,9)); e=c.int('e',0,bits=64,small=(0,30)); c.require(s<e); c.require(e<=n*(n-1)//2); c.args(p,n,s,e)
        c.returns(lambda:sum([p(j,i)**2 for j in range(n) for i in (range(j+1,n) if lo=='L' else range(j))][s:e])); c.call()
def rcr(c,r,k,which,rowonly=False):
    """(args, row selected, first column, end column)"""
    full=(which=='all')
    byr=(which=='rows')
    if full: return [False,False,0,0],(lambda i:True),0,k
    a=c.int('a',0,small=(0,4)); b=c.int('b',0,small=(0,9)); c.require(a<b); c.require(b<=(r if byr else k))
    return [True,byr,a,b],((lambda i:land(i>=a,i<b)) if byr else (lambda i:True)),(0 if byr else a),(k if byr else b)
for op in ('Divide','Mul'):
    f=(lambda x,v:rdiv(x,v)) if op=='Divide' else (lambda x,v:x*v)
    for sfx in ('','_mt','_mt_cw','_mt_rw'):
        @unit(P,'w_mrw%sByVec%s'%(op,sfx),[SM+'mrw%sByVec%s'%(op,sfx)],views=('2d',))
        def _(c,f=f,op=op):
            r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); v=c.buf('v',r,const=True,dom='pos' if op=='Divide' else None)
            if op=='Divide': c.forall(v,lambda q:q.old!=0)
            c.args(p,v,r,k); c.post(p,lambda q:f(q.old,v(q.row))); c.call()
    for sfx in ('_st','_st_cw','_st_rw'):
        for which in ('all','rows','cols'):
            @unit(P,'w_mrw%sByVec%s'%(op,sfx),[SM+'mrw%sByVec%s'%(op,sfx)],views=('2d',),tag=which)
            def _(c,f=f,op=op,which=which):
                r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); v=c.buf('v',r,const=True,dom='pos' if op=='Divide' else None)
                if op=='Divide': c.forall(v,lambda q:q.old!=0)
                a,rs,cb,ce=rcr(c,r,k,which); c.args(p,v,r,k,*a); c.post(p,lambda q:ite(land(rs(q.row),q.col>=cb,q.col<ce),f(q.old,v(q.row)),q.old)); c.call()
def maxfolds(c,p,cb):
    Mx=c.fold('Mx',1,lambda i:p(cb,i),lambda i,t,acc:ite(p(cb+t,i)>acc,p(cb+t,i),acc))
    Ax=c.fold('Ax',1,lambda i:cb,lambda i,t,acc:ite(p(cb+t,i)>Mx(i,t),cb+t,acc),sort='int',bound=lambda i,t,v:land(v>=cb,v<=cb+t,implies(t>0,v<cb+t)))
    return Mx,Ax
for sfx in ('','_mt','_mt_rw','_mt_cw','_st','_st_cw','_st_rw','_st_rw_small'):
    @unit(P,'w_mrwIdxsOfMax'+sfx,[SM+'mrwIdxsOfMax'+sfx],views=('2d',),prove=sfx not in('','_mt','_mt_cw'))
    def _(c,sfx=sfx):
        r=c.int('r',1); k=c.int('c',1)
        if sfx=='_mt_cw': c.require(k>4)
        p=c.mat('p',r,k,const=True); v=c.buf('v',r,'i32'); tmp=c.buf('tmp',r*8); Mx,Ax=maxfolds(c,p,0)
        c.args(p,v,tmp,r,k); c.post(v,lambda q:Ax(q.i,k)); c.anypost(tmp); c.partial(tmp,lambda q,t:Mx(q.i,t)); c.returns(lambda:0); c.call()
for sfx in ('_st','_st_cw','_st_rw','_st_rw_small'):
    for which in ('rows','cols'):
        @unit(P,'w_mrwIdxsOfMax%s_m'%sfx,[SM+'mrwIdxsOfMax'+sfx],views=('2d',),tag=which)
        def _(c,which=which,sfx=sfx):
            r=c.int('r',1); k=c.int('c',2 if sfx=='_st_cw' else 1); p=c.mat('p',r,k,const=True); v=c.buf('v',r,'i32'); mx=c.buf('mx',r)
            a,rs,cb,ce=rcr(c,r,k,which); Mx,Ax=maxfolds(c,p,cb); c.args(p,v,mx,r,k,*a[1:])
            c.post(v,lambda q:ite(rs(q.i),Ax(q.i,ce-cb),q.old)); c.post(mx,lambda q:ite(rs(q.i),Mx(q.i,ce-cb),q.old)); c.call()
for sfx in ('','_mt','_mt_rw'):
    @unit(P,'w_mrwMax'+sfx,[SM+'mrwMax'+sfx],views=('2d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k,const=True); v=c.buf('v',r)
        Mx=c.fold('Mx',1,lambda i:p(0,i),lambda i,t,acc:ite(p(t,i)>acc,p(t,i),acc)); c.args(p,v,r,k); c.post(v,lambda q:Mx(q.i,k)); c.call()
for sfx in ('_st','_st_cw','_st_rw','_st_rw_small'):
    for which in ('all','rows','cols'):
        if sfx=='_st_rw_small' and which=='cols': continue
        @unit(P,'w_mrwMax'+sfx,[SM+'mrwMax'+sfx],views=('2d',),tag=which)
        def _(c,which=which):
            r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k,const=True); v=c.buf('v',r); a,rs,cb,ce=rcr(c,r,k,which)
            Mx=c.fold('Mx',1,lambda i:p(cb,i),lambda i,t,acc:ite(p(cb+t,i)>acc,p(cb+t,i),acc)); c.args(p,v,r,k,*a); c.post(v,lambda q:ite(rs(q.i),Mx(q.i,ce-cb),q.old)); c.call()
for sfx in ('_st','_st_cw','_st_rw'):
    for which in ('all','rows','cols'):
        @unit(P,'w_mrwSum'+sfx,[SM+'mrwSum'+sfx],views=('2d',),tag=which)
        def _(c,which=which,sfx=sfx):
            r=c.int('r',1); k=c.int('c',1 if sfx=='_st' else 2); p=c.mat('p',r,k,const=True); v=c.buf('v',r); a,rs,cb,ce=rcr(c,r,k,which)
            S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(cb+t,i)); c.args(p,v,r,k,*a); c.post(v,lambda q:ite(rs(q.i),S(q.i,ce-cb),q.old)); c.call()
for sfx in ('','_mt','_mt_rw','_mt_cw'):
    @unit(P,'w_mrwSum'+sfx,[SM+'mrwSum'+sfx],views=('2d',),prove=sfx=='_mt_rw')
    def _(c,sfx=sfx):
        r=c.int('r',1); k=c.int('c',2 if sfx=='_mt_rw' else 1,hi=(1<<31)-8)
        if sfx=='_mt_cw': c.require(k>3)
        p=c.mat('p',r,k,const=True); v=c.buf('v',r); tmp=c.mat('tmp',r,8); S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(t,i))
        c.args(p,v,tmp,r,k); c.post(v,lambda q:S(q.i,k)); c.anypost(tmp); c.returns(lambda:0); c.call()
for sfx in ('','_mt','_mt_rw','_mt_cw'):
    @unit(P,'w_mrwSum_ip'+sfx,[SM+'mrwSum_ip'+sfx],views=('2d',),prove=sfx in('','_mt_rw'))
    def _(c,sfx=sfx):
        r=c.int('r',1); k=c.int('c',1,hi=(1<<31)-8)
        if sfx=='_mt_cw': c.require(k>3)
        p=c.mat('p',r,k); tmp=c.mat('tmp',r,8); S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(t,i))
        c.args(p,tmp,r,k); c.post(p,lambda q:ite(q.col==0,S(q.row,k),q.old)); c.anypost(tmp); c.returns(lambda:0); c.call()
for sfx in ('_st','_st_cw','_st_rw','_st_rw_small'):
    for which in ('all','rows'):
        @unit(P,'w_mrwSum_ip'+sfx,[SM+'mrwSum_ip'+sfx],views=('2d',),tag=which)
        def _(c,which=which):
            r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); a,rs,cb,ce=rcr(c,r,k,which)
            S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(t,i)); c.args(p,r,k,a[0],a[2],a[3]); c.post(p,lambda q:ite(land(q.col==0,rs(q.row)),S(q.row,k),q.old)); c.call()
for sfx in ('','_st','_st_cw','_st_rw','_mt','_mt_rw','_mt_cw'):
    @unit(P,'w_mrwOr'+sfx,[SM+'mrwOr'+sfx,SM+'mrwBinaryOR'+sfx],views=('2d',),prove=False)
    def _(c,sfx=sfx):
        r=c.int('r',1); k=c.int('c',1)
        if sfx=='_mt_cw': c.require(k>3)
        p=c.mat('p',r,k,const=True,dom='binary'); c.forall(p,lambda q:lor(q.old==0,q.old==1)); v=c.buf('v',r); tmp=c.mat('tmp',r,8)
        c.args(p,v,tmp,r,k); c.post(v,lambda q:1.0 if any(p(j,q.i)!=0 for j in range(k)) else 0.0); c.anypost(tmp); c.returns(lambda:0); c.call()
P='C15'
for st in ('false','true'):
    for sfx in ('','_mt','_st'):
        for which in (('all','cols') if sfx=='_st' else ('all',)):
            def cols(c,k,which):
                if which=='all': return [False,0,0],0,k
                a=c.int('a',0,small=(0,4)); b=c.int('b',0,small=(0,9)); c.require(a<b); c.require(b<=k); return [True,a,b],a,b
            @unit(P,'w_mcwMean%s_%s'%(sfx,st),[SM+'mcwMean%s<%s>'%(sfx,st)],views=('2d',),tag=which)
            def _(c,sfx=sfx,which=which):
                r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k,const=True); v=c.buf('v',k); S=c.fold('S',1,lambda j:0.0,lambda j,t,acc:acc+p(j,t))
                a,cb,ce=cols(c,k,which); c.args(p,v,r,k,*(a if sfx=='_st' else [])); c.post(v,lambda q:ite(land(q.i>=cb,q.i<ce),rdiv(S(q.i,r),tor(r)),q.old)); c.call()
            @unit(P,'w_mcwDeMean%s_%s'%(sfx,st),[SM+'mcwDeMean%s<%s>'%(sfx,st)],views=('2d',),tag=which)
            def _(c,sfx=sfx,which=which):
                r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); S=c.fold('S',1,lambda j:0.0,lambda j,t,acc:acc+p(j,t))
                a,cb,ce=cols(c,k,which); c.args(p,r,k,*(a if sfx=='_st' else [])); c.post(p,lambda q:ite(land(q.col>=cb,q.col<ce),q.old-rdiv(S(q.col,r),tor(r)),q.old)); c.call()
            @unit(P,'w_mcwDeMeanNZ%s_%s'%(sfx,st),[SM+'mcwDeMeanNZ%s<%s>'%(sfx,st)],views=('2d',),tag=which)
            def _(c,sfx=sfx,which=which):
                r=c.int('r',1); k=c.int('c',1); cp=c.real('cp',-4,4,vals=[0.0,0.0,1.0,-.5]); p=c.mat('p',r,k,dom=lambda g:g.choice([0.0,0.0,1.0,-.5,2.0,-3.0,.25]))
                S=c.fold('S',1,lambda j:0.0,lambda j,t,acc:acc+ite(p(j,t)==cp,0.0,p(j,t))); N=c.fold('N',1,lambda j:0,lambda j,t,acc:acc+ite(p(j,t)==cp,0,1),sort='int',mono='count')
                a,cb,ce=cols(c,k,which); c.args(p,r,k,cp,*(a if sfx=='_st' else [])); c.post(p,lambda q:ite(land(q.col>=cb,q.col<ce,q.old!=cp),q.old-(rdiv(S(q.col,r),tor(N(q.col,r)))-cp),q.old)); c.call()
for sfx in ('','_mt','_st'):
    for which in (('all','cols') if sfx=='_st' else ('all',)):
        @unit(P,'w_mcwSub_ip'+sfx,[SM+'mcwSub_ip'+sfx],views=('2d',),tag=which)
        def _(c,sfx=sfx,which=which):
            r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); v=c.buf('v',k,const=True)
            a,cb,ce=cols(c,k,which); c.args(p,v,r,k,*(a if sfx=='_st' else [])); c.post(p,lambda q:ite(land(q.col>=cb,q.col<ce),q.old-v(q.col),q.old)); c.call()
        @unit(P,'w_mcwMulDiag_ip'+sfx,[SM+'mcwMulDiag_ip'+sfx],views=('2d',),tag=which)
        def _(c,sfx=sfx,which=which):
            r=c.int('r',1); k=c.int('c',1); p=c.mat('p',r,k); d=c.mat('d',k,k,const=True)
            a,cb,ce=cols(c,k,which); c.args(p,d,r,k,*(a if sfx=='_st' else [])); c.post(p,lambda q:ite(land(q.col>=cb,q.col<ce),q.old*d(q.col,q.col),q.old)); c.call()
for st in ('false','true'):
    @unit(P,'w_mcwSum_'+st,[SM+'mcwSum<%s>'%st],views=('2d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1,hi=(1<<31)-2); b=c.bool('b'); p=c.mat('p',r,k+toi(b),const=True); v=c.buf('v',k); S=c.fold('S',1,lambda j:0.0,lambda j,t,acc:acc+p(j,t))
        c.args(p,v,r,k,b); c.post(v,lambda q:S(q.i,r)); c.call()
