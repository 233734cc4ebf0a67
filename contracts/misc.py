"""C16: scratch memory stack;  C17: clamp, binarize, dropout, counts;  C18: row norms and softmax"""
from dsl import *
use_tu('mn_misc')
P='C16'; SM='_SMath::'; MNP='_MathN::'
L40=1<<40
for T_,e in (('float',16),('double',8)):
    @unit(P,'w_round_'+T_,[SM+'_istor_round_count_to_cache_line_size<%s>'%T_])
    def _(c,e=e):
        n=c.int('n',1,L40,bits=64); c.args(n); c.ret_sat(lambda r:land(r>=n,r<n+e,imod(r,e)==0)); c.call()
    @unit(P,'w_roundv_'+T_,[SM+'_istor_round_count_to_cache_line_size<%s> (vec_len_t)'%T_])
    def _(c,e=e):
        n=c.int('n',1,(1<<31)-64); c.args(n); c.ret_sat(lambda r:land(r>=n,r<n+e,imod(r,e)==0)); c.call()
ST=[SM+'_istor_alloc',SM+'_istor_free']
def sizes(c,ab=True):
    n=c.int('n',1,L40,bits=64,small=(1,40)); a=c.int('a',0,L40,bits=64,small=(0,25)); b=c.int('b',0,L40,bits=64,small=(0,25)); t=c.buf('t',n+1,const=True); return n,a,b,t
@unit(P,'w_istor2',ST)
def _(c):
    n,a,b,t=sizes(c); c.require(a+b<=n); o=c.buf('o',7,'i64'); c.args(t,n,a,b,o); c.outs(o,[0,a,a,a+b,a,a,0]); c.call()
@unit(P,'w_istor_alloc',ST[:1],leak_ok=True)
def _(c):
    n,a,b,t=sizes(c); c.aborts(a+b>n); c.args(t,n,a,b); c.returns(lambda:a); c.call()
@unit(P,'w_istor_over',ST[1:])
def _(c):
    n,a,b,t=sizes(c); c.require(a<=n); c.aborts(b!=a); c.args(t,n,a,b); c.returns(lambda:0); c.call()
@unit(P,'w_istor_order',ST[1:])
def _(c):
    n,a,b,t=sizes(c); c.require(a+b<=n); x=c.int('x',0,L40,bits=64,small=(0,25)); c.require(x<=n); c.aborts(x!=a); c.args(t,n,a,b,x); c.returns(lambda:a); c.call()
def i64(c,name,lo=0): return c.int(name,lo,L40,bits=64,small=(lo,30))
@unit(P,'w_preinit',[SM+'preinit'])
def _(c):
    a,b,d=i64(c,'a'),i64(c,'b'),i64(c,'d'); c.args(a,b,d); c.returns(lambda:vmax(vmax(a,b),d)); c.call()
@unit(P,'w_preinit_nested',[SM+'preinit',SM+'preinit_push',SM+'preinit_pop'])
def _(c):
    a,b,d,t=i64(c,'a'),i64(c,'b'),i64(c,'d'),i64(c,'t'); c.args(a,b,d,t); c.returns(lambda:vmax(a,vmax(b,d)+t)); c.call()
@unit(P,'w_preinit_push',[SM+'preinit_push'])
def _(c):
    a=i64(c,'a'); o=c.buf('o',1,'i64'); c.args(a,o); c.outs(o,[0]); c.returns(lambda:a); c.call()
@unit(P,'w_init_deinit',[SM+'init',SM+'deinit'],prove=False)
def _(c):
    a=i64(c,'a',1); b=i64(c,'b',1); o=c.buf('o',8,'i64'); c.args(a,b,o)
    c.require(a<=b); c.outs(o,[1,a,1,b,b,0,0,0]); c.call()
@unit(P,'w_deinit',[SM+'deinit'])
def _(c):
    a,b=i64(c,'a'),i64(c,'b'); o=c.buf('o',3,'i64'); c.args(a,b,o); c.outs(o,[0,0,0]); c.call()
# ------------------------------------------------------------------ C17
P='C17'
def mb(c,name='p',const=False,dom=None):
    r=c.int('r',1); k=c.int('c',1); b=c.bool('b'); c.require(implies(b,k>=2)); return r,k,b,c.mat(name,r,k,const=const,dom=dom),r*ite(b,k-1,k)
def rng(c,n):
    er=c.bool('er'); s=c.int('s',0,bits=64,small=(0,4)); e=c.int('e',0,bits=64,small=(0,16)); c.require(s<=e); c.require(e<=n); return er,s,e
for F in ('evClamp','evClamp_st','evClamp_mt'):
    @unit(P,'w_'+F,[MNP+F],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); lo=c.real('lo',-4,4,vals=[-1.0,0.0]); hi=c.real('hi',-4,4,vals=[.5,1.0]); c.require(lo<hi); p=c.mat('p',r,k); c.args(p,r,k,lo,hi); c.post(p,lambda q:ite(q.old<lo,lo,ite(q.old>hi,hi,q.old))); c.call()
FR=[0.0,.5,1.0]
BD=lambda g:g.choice([0.0,.5,1.0,-1.0,.25,.75,2.0])
for F in ('ewBinarize_ip','ewBinarize_ip_mt','ewBinarize_ip_st','ewBinarize_ip_def'):
    @unit(P,'w_'+F,[MNP+F.replace('_def','')],views=('1d',))
    def _(c,F=F):
        r,k,b,p,n=mb(c,dom=BD); f=c.real('f',vals=FR); lo,hi=0.0,1.0; a=[p,r,k,b,f]
        if F!='ewBinarize_ip_def': lo=c.real('lo',vals=[0.0,-1.0]); hi=c.real('hi',vals=[1.0,2.0]); a+=[lo,hi]
        sel=lambda i:i<n
        if F=='ewBinarize_ip_st': er,s,e=rng(c,n); a+=[er,s,e]; sel=lambda i:ite(er,land(i>=s,i<e),i<n)
        c.args(*a); c.post(p,lambda q:ite(sel(q.i),ite(q.old>f,hi,lo),q.old)); c.call()
for F in ('ewBinarize','ewBinarize_mt','ewBinarize_st','ewBinarize_c','ewBinarize_mt_c'):
    @unit(P,'w_'+F,[MNP+F.replace('_c','')],views=('1d',))
    def _(c,F=F):
        r,k,b,p,n=mb(c,const=True,dom=BD); f=c.real('f',vals=FR); ch=F.endswith('_c'); d=c.mat('d',r,ite(b,k-1,k),'i8' if ch else 'float'); a=[d,p,r,ite(b,k-1,k),k,b,f]
        sel=lambda i:True
        if F=='ewBinarize_st': er,s,e=rng(c,n); a+=[er,s,e]; sel=lambda i:ite(er,land(i>=s,i<e),True)
        one,zero=(1,0) if ch else (1.0,0.0)
        c.args(*a); c.post(d,lambda q:ite(sel(q.i),ite(p(q.i)>f,one,zero),q.old)); c.call()
for F in ('ewBinarizeBatch','ewBinarizeBatch_mt','ewBinarizeBatch_st'):
    for wh in (('all','range') if F.endswith('_st') else ('',)):
        @unit(P,'w_'+F,[MNP+F],views=('2d',),tag=wh,prove=(F!='ewBinarizeBatch_mt'))
        def _(c,F=F,wh=wh):
            r=c.int('r',1); k=c.int('c',1); b=c.bool('b'); bd=c.bool('bd'); c.require(k<(1<<31)-2); dr=c.int('dr',1,small=lambda g:g.randint(r if isinstance(r,int) else 1,(r if isinstance(r,int) else 1)+3)); ofs=c.int('ofs',0,small=(0,3)); c.require(ofs+r<=dr)
            f=c.real('f',vals=FR); p=c.mat('p',r,k+toi(b),const=True,dom=BD); d=c.mat('d',dr,k+toi(bd)); a=[d,p,dr,k+toi(bd),bd,ofs,r,k+toi(b),b,f]; sel=lambda q:True
            if F.endswith('_st'):
                if wh=='range':
                    s=c.int('s',0,bits=64,small=(0,12)); e=c.int('e',0,bits=64,small=(0,30)); c.require(s<e); c.require(e<=r*k); a+=[True,s,e]; sel=lambda q:land(q.col*r+q.row-ofs>=s,q.col*r+q.row-ofs<e)
                else: a+=[False,0,0]
            c.args(*a); c.post(d,lambda q:ite(land(q.col<k,q.row>=ofs,q.row<ofs+r,sel(q)),ite(p(q.col,q.row-ofs)>f,1.0,0.0),q.old)); c.call()
@unit(P,'w_vCountNonZeros',[MNP+'vCountNonZeros'])
def _(c):
    n=c.int('n',1,L40,bits=64,small=(1,20)); p=c.buf('p',n,const=True,dom='tri'); N=c.fold('N',0,lambda:0,lambda t,acc:acc+ite(p(t)==0,0,1),sort='int',mono='count',bound=lambda t,v:land(v>=0,v<=t)); c.args(p,n); c.returns(lambda:N(n)); c.call()
for F in ('vCountSame','vCountSame_st_naive','vCountSame_mt_naive'):
    @unit(P,'w_'+F,[MNP+F],views=('1d',))
    def _(c,F=F):
        m=c.int('m',1,small=(1,40)); r=c.int('r',1); k=c.int('k',1); ofs=c.int('ofs',0,small=(0,5)); c.require(ofs+r*k<=m); p=c.buf('p',m,const=True,dom='smallint'); q=c.mat('q',r,k,const=True,dom='smallint')
        N=c.fold('N',0,lambda:0,lambda t,acc:acc+ite(p(t+ofs)==q(t),1,0),sort='int',mono='count',bound=lambda t,v:land(v>=0,v<=t)); c.args(p,m,q,r,k,ofs); c.returns(lambda:N(r*k)); c.call()
for F in ('vCountSameBatch','vCountSameBatch_st_naive'):
    @unit(P,'w_'+F,[MNP+F],views=('2d',))
    def _(c,F=F):
        ra=c.int('ra',1); rb=c.int('rb',1); k=c.int('k',1); ofs=c.int('ofs',0,small=(0,5)); c.require(ofs+rb<=ra); p=c.mat('p',ra,k,const=True,dom='smallint'); q=c.mat('q',rb,k,const=True,dom='smallint')
        c.args(p,ra,q,rb,k,ofs); N=c.fold('N',1,lambda j:0,lambda j,t,acc:acc+ite(p(j,t+ofs)==q(j,t),1,0),sort='int',mono='count',bound=lambda j,t,v:land(v>=0,v<=t)); T=c.fold('T',0,lambda:0,lambda t,acc:acc+N(t,rb),sort='int',bound=lambda t,v:land(v>=0,v<=t*rb)); c.returns(lambda:T(k)); c.call()
def drop(c,needb):
    r=c.int('r',1); k=c.int('c',1); b=c.bool('b'); c.require(k<(1<<31)-2)
    if needb: c.require(b)
    x=c.real('x',Fraction(1,100),Fraction(99,100),vals=[.5,.25,.75],only=True); p=c.mat('p',r,k+toi(b)); return r,k,b,x,p
UD=[0.0,.25,.5,.75,1.0,.125,.375]
for suf in ('','_st','_mt'):
    for F in ('make_dropout','apply_dropout_mask','make_alphaDropout'):
        @unit(P,'w_'+F+suf,[MNP+F+suf],views=('1d',))
        def _(c,F=F,suf=suf):
            r,k,b,x,p=drop(c,F!='apply_dropout_mask'); d=c.mat('d',r,k,const=F=='apply_dropout_mask',dom=UD); c.forall(d,lambda q:land(q.old>=0,q.old<=1)); n=r*k; sel=lambda i:i<n
            a=[p,d,r,k+toi(b),b,k,x]
            if F=='make_alphaDropout':
                ka=c.real('ka',Fraction(1,100),4,vals=[1.5,2.0,.5],only=True); kb=c.real('kb',-4,4,vals=[.25,-1.0,0.0]); dv=c.real('dv',-4,4,vals=[.75,-1.5,0.0]); a+=[ka,kb,dv]
            if suf=='_st': er,s,e=rng(c,n); a+=[er,s,e]; sel=lambda i:ite(er,land(i>=s,i<e),i<n)
            c.args(*a)
            keep=lambda i:d(i)<x
            if F=='make_dropout': c.post(p,lambda q:ite(sel(q.i),q.old*ite(keep(q.i),rdiv(1.0,x),0.0),q.old)); c.post(d,lambda q:ite(sel(q.i),ite(q.old<x,rdiv(1.0,x),0.0),q.old))
            elif F=='apply_dropout_mask': c.post(p,lambda q:ite(sel(q.i),q.old*ite(keep(q.i),1.0,0.0),q.old))
            else: c.post(p,lambda q:ite(sel(q.i),ite(keep(q.i),ka*q.old+kb,dv),q.old)); c.post(d,lambda q:ite(sel(q.i),ite(q.old<x,ka,0.0),q.old))
            c.call()
# ------------------------------------------------------------------ C18
P='C18'
for suf in ('','_mt','_st'):
    for wh in (('all','cols') if suf=='_st' else ('',)):
        @unit(P,'w_mrwL2NormSquared'+suf,[MNP+'mrwL2NormSquared'+suf],views=('2d',),tag=wh,prove=suf=='_st')
        def _(c,suf=suf,wh=wh):
            r=c.int('r',1); k=c.int('c',1,hi=(1<<31)-8); p=c.mat('p',r,k,const=True)
            if wh=='cols': cb=c.int('cb',0,small=(0,4)); ce=c.int('ce',0,small=(0,9)); c.require(cb<ce); c.require(ce<=k)
            else: cb,ce=0,k
            S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(cb+t,i)*p(cb+t,i))
            if suf=='_st':
                v=c.buf('v',r); c.args(p,v,r,k,wh=='cols',cb,ce); c.post(v,lambda q:S(q.i,ce-cb))
            else:
                v=c.mat('v',r,3); tmp=c.mat('tmp',r,8); c.anypost(tmp); c.args(p,v,tmp,r,k); c.postif(v,lambda q:q.col==0,lambda q:S(q.row,k)); c.returns(lambda:0)
            c.call()
for F in ('mCheck_normalize_rows','mrwSetL2Norm'):
    for suf,ib in [(s,i) for s in ('','_st','_mt','_m') for i in (False,True)]:
        if suf=='_m' and F[1]=='C': continue
        @unit(P,'w_'+F+suf,[MNP+F+suf,MNP+F+'_needTempMem'],views=('2d',),prove=suf=='_st',tag='with the last column' if ib else 'without the last column')
        def _(c,F=F,suf=suf,ib=ib):
            r=c.int('r',1); k=c.int('c',2,hi=(1<<31)-8); n2=c.real('n2',Fraction(1,100),vals=[1.0,4.0,.25],only=True)
            p=c.mat('p',r,k,dom='pos' if F[1]=='r' else None); tmp=c.mat('tmp',r,12); o=c.buf('o',3,'i64'); m=k if ib else k-1
            S=c.fold('S',1,lambda i:0.0,lambda i,t,acc:acc+p(t,i)*p(t,i),mono='up')
            if F[1]=='r': c.forall(p,lambda q:q.old>0)
            c.args(p,tmp,r,k,n2,ib,o); c.anypost(tmp); c.outs(o,[0,r,k]); c.partial(tmp,lambda q,t:S(q.row,t))
            if F[1]=='C': c.post(p,lambda q:q.old*ite(S(q.row,m)>n2,sqrt(rdiv(n2,S(q.row,m))),1.0))
            else: c.post(p,lambda q:q.old*sqrt(rdiv(n2,S(q.row,m))))
            c.call()
def smx(c,p,k):
    Mx=c.fold('Mx',1,lambda i:p(0,i),lambda i,t,acc:ite(p(t,i)>acc,p(t,i),acc)); return Mx
for suf in ('','_st','_mt'):
    @unit(P,'w_softmax'+suf,[MNP+'softmax'+suf,MNP+'softmax_needTempMem'],views=('2d',),prove=False)
    def _(c,suf=suf):
        r=c.int('r',1); k=c.int('c',1); b=c.bool('b'); p=c.mat('p',r,k+toi(b)); tmp=c.mat('tmp',r,k+12); c.anypost(tmp); o=c.buf('o',4,'i64')
        Mx=smx(c,p,k); D=c.fold('D',1,lambda i:0.0,lambda i,t,acc:acc+exp(p(t,i)-Mx(i,k)))
        c.args(p,tmp,r,k+toi(b),b,o); c.outs(o,[0,r,k+toi(b),toi(b)]); c.post(p,lambda q:ite(q.col<k,rdiv(exp(q.old-Mx(q.row,k)),D(q.row,k)),q.old)); c.call()
for suf in ('','_st','_st_rw','_st_cw','_mt','_mt_rw','_mt_cw'):
    @unit(P,'w_softmax_parts'+suf,[MNP+'softmax_parts'+suf],views=('2d',),prove='_st' in suf)
    def _(c,suf=suf):
        r=c.int('r',1); k=c.int('c',1)
        if suf=='_mt_cw': c.require(k>3)
        p=c.mat('p',r,k,const=True); mx=c.buf('mx',r,const=True); num=c.mat('num',r,k)
        D=c.fold('D',1,lambda i:0.0,lambda i,t,acc:acc+exp(p(t,i)-mx(i)))
        if '_st' in suf: den=c.buf('den',r); c.args(p,mx,den,num,r,k); c.post(den,lambda q:D(q.i,k))
        else: den=c.mat('den',r,3); tmp=c.mat('tmp',r,8); c.anypost(tmp); c.args(p,mx,den,num,tmp,r,k); c.postif(den,lambda q:q.col==0,lambda q:D(q.row,k)); c.returns(lambda:0)
        c.post(num,lambda q:exp(p(q.col,q.row)-mx(q.row))); c.call()
