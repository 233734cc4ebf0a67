"""C01..C06: the matrix class"""
from dsl import *
use_tu('smatrix')
def ext(c,sfx='',eb=None,hb=None,bir=None,elem='float',const=True,dom=None,view=None,nobuf=False):
    """a matrix over external storage: shape includes the bias row/column"""
    r=c.int('r'+sfx,1); k=c.int('c'+sfx,1)
    eb=c.bool('eb'+sfx) if eb is None else eb; hb=c.bool('hb'+sfx) if hb is None else hb; bir=c.bool('bir'+sfx) if bir is None else bir
    c.require(implies(land(eb,lnot(bir)),k>=2)); c.require(implies(land(eb,bir),r>=2))
    if nobuf: return None,r,k,eb,hb,bir
    p=c.mat('p'+sfx,r,k,elem,const=const,dom=dom,view=view)
    return p,r,k,eb,hb,bir
def st(r,k,eb,hb,bir,dms=True,empty=False,failed=False):
    return [r,k,eb,land(eb,hb),bir,dms,empty,failed]
def rnb(r,eb,bir): return r-toi(land(eb,bir))
def cnb(k,eb,bir): return k-toi(land(eb,lnot(bir)))
def outs(c,o,vals): c.outs(o,vals)
SM='smatrix::'
# ------------------------------------------------------------------ C01 shape, addressing
@unit('C01','w_shape',[SM+x for x in 'smatrix(ptr,r,c,...) useExternalStorage rows cols rows(bool) cols(bool) rows_no_bias cols_no_bias sample_size batch_size has_bias_row has_bias_column ldim ldimAsVecLen'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); nb=c.bool('nb'); o=c.buf('o',18,'i64')
    c.args(p,r,k,eb,hb,bir,nb,o)
    R=rnb(r,eb,bir); K=cnb(k,eb,bir)
    c.outs(o,st(r,k,eb,hb,bir)+[R,K,ite(nb,R,r),ite(nb,K,k),ite(bir,R,K),ite(bir,k,r),land(eb,bir),land(eb,lnot(bir)),r,r]); c.call()
@unit('C01','w_numel',[SM+x for x in 'numel numel_no_bias_sBiR numel_sBiR byte_size begin end end_sBiR end_no_bias_sBiR sNumel data _universal_range_BiR_aware'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); nb=c.bool('nb'); o=c.buf('o',10,'i64')
    c.args(p,r,k,eb,hb,bir,nb,o)
    n=r*k; N=rnb(r,eb,bir)*cnb(k,eb,bir); X=ite(nb,N,n)
    c.outs(o,[n,N,X,n*4,n,X,N,n,n,ite(land(nb,bir,eb),k,ite(bir,n,X))]); c.call()
@unit('C01','w_numel_bic',[SM+x for x in 'numel_no_bias numel(bool) byte_size_no_bias end(bool) end_no_bias'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False); nb=c.bool('nb'); o=c.buf('o',5,'i64')
    c.args(p,r,k,eb,hb,nb,o); N=r*(k-toi(eb)); X=ite(nb,N,r*k)
    c.outs(o,[N,X,N*4,X,N]); c.call()
@unit('C01','w_numel_mut',[SM+x for x in 'begin end end_sBiR end_no_bias_sBiR'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); nb=c.bool('nb'); o=c.buf('o',3,'i64')
    c.args(p,r,k,eb,hb,bir,nb,o); n=r*k; N=rnb(r,eb,bir)*cnb(k,eb,bir)
    c.outs(o,[n,ite(nb,N,n),N]); c.call()
@unit('C01','w_numel_mut_bic',[SM+x for x in 'end(bool) end_no_bias'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False); nb=c.bool('nb'); o=c.buf('o',2,'i64')
    c.args(p,r,k,eb,hb,nb,o); N=r*(k-toi(eb)); c.outs(o,[ite(nb,N,r*k),N]); c.call()
@unit('C01','w_sizes',[SM+x for x in 'size transposed_size size_no_bias transposed_size_no_bias dataset_size bBatchInColumn bSampleInRow bSampleInColumn bOwnStorage'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); o=c.buf('o',14,'i64'); c.args(p,r,k,eb,hb,bir,o); R=rnb(r,eb,bir); K=cnb(k,eb,bir)
    c.outs(o,[r,k,k,r,R,K,K,R,ite(bir,K,R),ite(bir,R,K),lnot(bir),lnot(bir),bir,False]); c.call()
def inrc(c,r,k):
    i=c.int('i',0); j=c.int('j',0); c.require(i<r); c.require(j<k); return i,j
@unit('C01','w_addr',[SM+x for x in 'get(r,c) get(coords) colDataAsVec'.split()],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False); i,j=inrc(c,r,k); o=c.buf('o',6,'i64'); c.args(p,r,k,eb,bir,i,j,o)
    a=i+r*j; c.outs(o,[a,a,r*j,r*j,a,a]); c.call()
# the same with storage too big to allocate: nothing is read or written, only addresses are computed (concrete inputs behind 2^31 elements)
@unit('C01','w_addr',[SM+x for x in 'get(r,c) get(coords) colDataAsVec'.split()],views=('1d',),prove=False,tag='huge')
def _(c):
    r=c.int('r',1,2**31-1,small=(30000,900000)); k=c.int('c',1,2**31-1,small=(30000,900000)); i=c.int('i',0,r-1,small=(0,r-1)); j=c.int('j',0,k-1,small=(0,k-1)); o=c.buf('o',6,'i64'); c.args(1<<44,r,k,False,c.bool('bir'),i,j,o)
    a=i+r*j; c.outs(o,[a,a,r*j,r*j,a,a]); c.call()
@unit('C01','w_biascol',SM+'bias_column',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,hb=False,bir=False); o=c.buf('o',2,'i64'); c.args(p,r,k,o); c.outs(o,[r*(k-1)]*2); c.call()
@unit('C01','w_set',SM+'set',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,const=False); i,j=inrc(c,r,k); v=c.real('v'); c.args(p,r,k,eb,bir,i,j,v)
    c.post(p,lambda q: ite(land(q.row==i,q.col==j),v,q.old)); c.call()
@unit('C01','w_get',SM+'get',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False); i,j=inrc(c,r,k); c.args(p,r,k,eb,bir,i,j); c.returns(lambda: p(j,i)); c.call()
def cols(c,k):
    cb=c.int('cb',0); n=c.int('n',1); c.require(cb+n<=k); return cb,n
@unit('C01','w_submat',SM+'submatrix_cols_no_bias',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False); cb,n=cols(c,cnb(k,eb,bir)); o=c.buf('o',9,'i64'); c.args(p,r,k,eb,bir,cb,n,o)
    c.outs(o,st(r,n,False,False,bir)+[cb*r]); c.call()
@unit('C01','w_submat_d','smatrix_deform::submatrix_cols_no_bias',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,bir=False); cb,n=cols(c,cnb(k,eb,False)); o=c.buf('o',9,'i64'); c.args(p,r,k,eb,cb,n,o)
    c.outs(o,st(r,n,False,False,False)+[cb*r]); c.call()
@unit('C01','w_er',['s_elems_range','st_range::operator+','st_range::totalElements'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,bir=False); B=1<<60
    a=c.int('a',0,B,bits=64); b=c.int('b',0,B,bits=64); c.require(a<=b); n=c.int('n',0,B,bits=64); f=c.int('of',0,B,bits=64); o=c.buf('o',11,'i64')
    c.args(p,r,k,eb,a,b,n,f,o); N=r*k; M=r*(k-toi(eb)); c.outs(o,[0,N,0,M,a,b,0,n,a+f,b+f,b-a]); c.call()
@unit('C01','w_vr',['s_vec_range'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,bir=False); B=1<<29; c.require(r*k<(1<<31))
    a=c.int('a',0,B); b=c.int('b',0,B); c.require(a<=b); n=c.int('n',0,B); f=c.int('of',0,B); o=c.buf('o',11,'i64')
    c.args(p,r,k,eb,a,b,n,f,o); N=r*k; M=r*(k-toi(eb)); c.outs(o,[0,N,0,M,a,b,0,n,a+f,b+f,b-a]); c.call()
@unit('C01','w_pr',['parallel_range','st_range(par_range_t)'],views=('1d',))
def _(c):
    a=c.int('of',0,1<<29,bits=64); n=c.int('cnt',0,1<<29,bits=64); t=c.int('tid',0,1<<20); o=c.buf('o',9,'i64'); c.args(a,n,t,o)
    c.outs(o,[a,n,a+n,t,a,a+n,0,n,n]); c.call()
@unit('C01','w_rc','s_rowcol_range',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False); a=c.int('a',0); b=c.int('b',0); c.require(a<=b); nb=c.bool('nb'); o=c.buf('o',18,'i64'); c.args(p,r,k,eb,bir,a,b,nb,o)
    R=ite(nb,rnb(r,eb,bir),r); K=ite(nb,cnb(k,eb,bir),k)
    c.outs(o,[a,b,0,k, a,b,0,K, 0,r,a,b, 0,R,a,b, b-a,b-a]); c.call()
@unit('C01','w_rc2','s_rowcol_range',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False); nb=c.bool('nb'); o=c.buf('o',13,'i64'); c.args(p,r,k,eb,bir,nb,o)
    R=rnb(r,eb,bir); K=cnb(k,eb,bir); c.outs(o,[0,r,0,k,0,R,0,K,0,ite(nb,R,r),0,ite(nb,K,k),r*k]); c.call()
@unit('C01','w_rcap','s_rowcol_range::can_apply',views=('1d',))
def _(c):
    p,r,k,_,_,_=ext(c,eb=False,hb=False,bir=False); q,r2,k2,_,_,_=ext(c,'2',eb=False,hb=False,bir=False); a=c.int('a',0); b=c.int('b',0); c.require(a<=b); c.args(p,r,k,q,r2,k2,a,b)
    c.returns(lambda: land(a<r2,b<=r2,0<k2,k<=k2)); c.call()
@unit('C01','w_samesz','IsSameSizeNumel',views=('1d',))
def _(c):
    p,r,k,_,_,_=ext(c,eb=False,hb=False,bir=False); q,r2,k2,_,_,_=ext(c,'2',eb=False,hb=False,bir=False); c.args(p,r,k,q,r2,k2)
    c.returns(lambda: land(r==r2,k==k2)); c.call()
# ------------------------------------------------------------------ C02 fills and bias integrity
def isbias(q,r,k,bir): return ite(bir,q.row==r-1,q.col==k-1)
@unit('C02','w_fill',SM+'fill',views=('1d','2d'))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,const=False); v=c.real('v'); c.args(p,r,k,eb,bir,v); c.post(p,lambda q:v); c.call()
@unit('C02','w_ones',SM+'ones',views=('1d','2d'))
def _(c):
    p,r,k,eb,hb,bir=ext(c,const=False); o=c.buf('o',8,'i64'); c.args(p,r,k,eb,hb,bir,o); c.post(p,lambda q:1.0); c.outs(o,st(r,k,eb,False,bir)); c.call()
@unit('C02','w_zeros',[SM+'zeros',SM+'fill_bias_row'],views=('2d','1d'))
def _(c):
    p,r,k,eb,hb,bir=ext(c,const=False); o=c.buf('o',8,'i64'); c.args(p,r,k,eb,hb,bir,o)
    c.post(p,lambda q:ite(land(eb,isbias(q,r,k,bir)),ite(bir,1.0,q.old),0.0)); c.outs(o,st(r,k,eb,hb,bir)); c.call()
@unit('C02','w_fillcol',SM+'fill_column_with',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False,hb=False,const=False); j=c.int('j',0); c.require(j<k); v=c.real('v'); c.args(p,r,k,eb,j,v); c.post(p,lambda q:ite(q.col==j,v,q.old)); c.call()
@unit('C02','w_fillrow',SM+'fill_row_with',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=True,hb=False,const=False); j=c.int('j',0); c.require(j<r); v=c.real('v'); c.args(p,r,k,eb,j,v); c.post(p,lambda q:ite(q.row==j,v,q.old)); c.call()
@unit('C02','w_filllastcol',SM+'fill_last_column',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False,hb=False,const=False); v=c.real('v'); c.args(p,r,k,eb,v); c.post(p,lambda q:ite(q.col==k-1,v,q.old)); c.call()
@unit('C02','w_filllastrow',SM+'fill_last_row',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=True,hb=False,const=False); v=c.real('v'); c.args(p,r,k,eb,v); c.post(p,lambda q:ite(q.row==r-1,v,q.old)); c.call()
@unit('C02','w_setbias',[SM+'set_biases',SM+'fill_bias_column',SM+'fill_bias_row'],views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,const=False); o=c.buf('o',8,'i64'); c.args(p,r,k,hb,bir,o)
    c.post(p,lambda q:ite(isbias(q,r,k,bir),1.0,q.old)); c.outs(o,st(r,k,True,False,bir)); c.call()
@unit('C02','w_setbias_i',SM+'set_biases',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,elem='i32',const=False); o=c.buf('o',8,'i64'); c.args(p,r,k,hb,bir,o)
    c.post(p,lambda q:ite(isbias(q,r,k,bir),1,q.old)); c.outs(o,st(r,k,True,False,bir)); c.call()
@unit('C02','w_copybias_p',SM+'copy_biases_from(ptr)',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,bir=False,const=False); s=c.buf('s',r,const=True,dom='binary'); n=c.int('cnt',0); c.require(n<=r); o=c.buf('o',8,'i64'); c.args(p,r,k,hb,s,n,o)
    c.post(p,lambda q:ite(q.col==k-1,s(q.row),q.old)); c.outs(o,st(r,k,True,n!=r,False)); c.call()
@unit('C02','w_copybias_m',SM+'copy_biases_from(matrix)',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,bir=False,const=False); k2=c.int('c2',2); hb2=c.bool('hb2'); s=c.mat('s',r,k2,const=True,dom='binary'); o=c.buf('o',8,'i64')
    c.forall(s,lambda q: implies(land(q.col==k2-1,lnot(hb2)),q.old==1)); c.args(p,r,k,hb,s,k2,hb2,o)
    c.post(p,lambda q:ite(q.col==k-1,s(k2-1,q.row),q.old)); c.outs(o,st(r,k,True,hb2,False)); c.call()
def cell(p,r,k,bir,t): return ite(bir,p(t,r-1),p(k-1,t))
@unit('C02','w_biasok',[SM+'test_biases_ok',SM+'test_biases_strict',SM+'test_biases_holey'],views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True,dom=lambda g:g.choice([1.,1.,1.,1.,0.,-0.,1.,1.,.5 if g.random()<.2 else 1.])); c.args(p,r,k,hb,bir)
    F=c.fold('ball',0,lambda:True,lambda t,v:land(v,lor(cell(p,r,k,bir,t)==1,land(hb,cell(p,r,k,bir,t)==0))),sort='bool',allf=True)
    c.returns(lambda: F(ite(bir,k,r))); c.call()
ONE=0x3f800000; NZ=-(1<<31)
BITS=lambda g:g.choice([ONE,0,NZ,ONE,0]) if g.random()<.97 else g.choice([ONE+1,1,0x40000000,-ONE])
@unit('C02','w_biasstrict',SM+'if_biases_test_strict',views=('2d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,dom=lambda g:g.choice([1.,1.,1.,0. if g.random()<.3 else 1.])); c.args(p,r,k,eb,bir)
    F=c.fold('ball',0,lambda:True,lambda t,v:land(v,cell(p,r,k,bir,t)==1),sort='bool',allf=True)
    c.returns(lambda: implies(eb,F(ite(bir,k,r)))); c.call()
def isb(x,strict): return lor(x==ONE,x==0) if strict else lor(x==ONE,x==0,x==NZ)
def binu(name,strict,nb=False):
    @unit('C02',name,SM+{'w_isbin':'_isBinary','w_isbins':'_isBinaryStrict','w_isbinsnb':'_isBinaryStrictNoBias'}[name],views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c,elem='i32',hb=False,bir=False if nb else None,dom=BITS); c.args(*([p,r,k,eb] if nb else [p,r,k,eb,bir]))
        F=c.fold('ball',0,lambda:True,lambda t,v:land(v,isb(p(t),strict)),sort='bool',allf=True)
        c.returns(lambda: F(r*(k-toi(eb)) if nb else r*k)); c.call()
binu('w_isbin',False); binu('w_isbins',True); binu('w_isbinsnb',True,True)
@unit('C02','w_isbin_i',[SM+'_isBinary<int>',SM+'_isBinaryStrict<int>'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,elem='i32',eb=False,hb=False,bir=False,dom=lambda g:g.choice([0,1,1,0,0,2 if g.random()<.1 else 1])); c.args(p,r,k)
    F=c.fold('ball',0,lambda:True,lambda t,v:land(v,lor(p(t)==0,p(t)==1)),sort='bool',allf=True); c.returns(lambda:F(r*k)); c.call()
def binld(name,pred,covers):
    @unit('C02',name,covers,views=('2d',))
    def _(c):
        ld=c.int('ld',1,1<<20,bits=64); ne=c.int('ne',0,1<<19,bits=64); p=c.mat('p',ld,ne,'i32',const=True,dom=BITS if name!='w_binldi' else lambda g:g.choice([0,1,1,0,0,2 if g.random()<.1 else 1])); c.args(p,ne,ld)
        F=c.fold('ball',0,lambda:True,lambda t,v:land(v,pred(p(t,0))),sort='bool',allf=True); c.returns(lambda:F(ne)); c.call()
binld('w_binld',lambda x:isb(x,False),SM+'_isBinaryVecWLd<float>'); binld('w_binlds',lambda x:isb(x,True),SM+'_isBinaryStrictVecWLd<float>'); binld('w_binldi',lambda x:lor(x==0,x==1),SM+'_isBinaryStrictVecWLd<int>')
@unit('C02','w_almostbin',SM+'_isAlmostBinary',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=False,dom='binary'); eps=c.real('eps',0,1,vals=[.5,.25,.01]); c.args(p,r,k,eb,bir,eps)
    F=c.fold('ball',0,lambda:True,lambda t,v:land(v,lor(vabs(p(t)-1)<eps,vabs(p(t))<eps)),sort='bool',allf=True); c.returns(lambda:F(r*k)); c.call()
def fromarr(name,elem,conv):
    @unit('C02',name,SM+'fill_from_array_no_bias',views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c,hb=False,bir=False,const=False); n=r*(k-toi(eb)); s=c.buf('s',n,elem,const=True); c.args(p,r,k,eb,s)
        c.post(p,lambda q:ite(q.i<n,conv(s(q.i)),q.old)); c.call()
fromarr('w_fromarr_f','float',lambda x:x); fromarr('w_fromarr_i','i32',tor); fromarr('w_fromarr_d','double',lambda x:x)
@unit('C02','w_holeyflag',[SM+'holey_biases',SM+'isHoleyBiases',SM+'hasHoleyBiases'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,eb=True); b=c.bool('b'); o=c.buf('o',9,'i64'); c.args(p,r,k,hb,bir,b,o); c.outs(o,st(r,k,True,b,bir)+[b]); c.call()
# ------------------------------------------------------------------ C04 copies, clones, moves
def stO(c): return c.buf('o',8,'i64')
def two(c,const2=False,**kw):
    p,r,k,eb,hb,bir=ext(c,dom='tri'); q,r2,k2,eb2,hb2,bir2=ext(c,'2',const=const2,dom='tri'); return (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)
@unit('C04','w_copyto',SM+'copy_to',views=('1d',))
def _(c):
    (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)=two(c); o=stO(c); c.args(p,r,k,eb,hb,bir,q,r2,k2,eb2,hb2,bir2,o)
    ok=land(r*k==r2*k2,iff(eb,eb2)); c.returns(lambda:ok)
    c.post(q,lambda x:ite(ok,p(x.i),x.old)); c.outs(o,[ite(ok,a,b) for a,b in zip([r,k,toi(eb),toi(land(eb,hb)),toi(bir),1,0,0],[r2,k2,toi(eb2),toi(land(eb2,hb2)),toi(bir2),1,0,0])]); c.call()
@unit('C04','w_copyskip',SM+'copy_data_skip_bias',views=('1d',))
def _(c):
    p,r,k,eb,hb,_=ext(c,bir=False); q,r2,k2,eb2,hb2,_=ext(c,'2',bir=False,const=False); o=stO(c); c.args(p,r,k,eb,hb,q,r2,k2,eb2,hb2,o)
    n=k-toi(eb); ok=land(r==r2,n==k2-toi(eb2)); c.returns(lambda:ok)
    c.post(q,lambda x:ite(land(ok,x.i<r*n),p(x.i),x.old)); c.outs(o,st(r2,k2,eb2,hb2,False)); c.call()
@unit('C04','w_cloneto_e',SM+'clone_to (external destination)',views=('1d',))
def _(c):
    (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)=two(c); o=stO(c); c.args(p,r,k,eb,hb,bir,q,r2,k2,eb2,hb2,bir2,o)
    ok=land(r==r2,k==k2); c.returns(lambda:ok)
    c.post(q,lambda x:ite(ok,p(x.i),x.old)); c.outs(o,[ite(ok,a,b) for a,b in zip([r,k,toi(eb),toi(land(eb,hb)),toi(bir),1,0,0],[r2,k2,toi(eb2),toi(land(eb2,hb2)),toi(bir2),1,0,0])]); c.call()
@unit('C04','w_clonenb_e',SM+'clone_to_no_bias (external destination)',views=('1d',))
def _(c):
    p,r,k,eb,hb,_=ext(c,bir=False); q,r2,k2,eb2,hb2,bir2=ext(c,'2',const=False); o=stO(c); c.args(p,r,k,eb,hb,q,r2,k2,eb2,hb2,bir2,o)
    n=k-toi(eb); ok=land(r==r2,n==k2); c.returns(lambda:ok)
    c.post(q,lambda x:ite(ok,p(x.i),x.old)); c.outs(o,[ite(ok,a,b) for a,b in zip([r,n,0,0,0,1,0,0],[r2,k2,toi(eb2),toi(land(eb2,hb2)),toi(bir2),1,0,0])]); c.call()
def clone_h(name,covers,nb,bir_free):
    for had in (False,True):
        @unit('C04',name,covers,views=('1d',),tag='had' if had else 'fresh',budget=200)
        def _(c):
            p,r,k,eb,hb,bir=ext(c,bir=None if bir_free else False)
            r2=c.int('r2',1,1<<30); k2=c.int('c2',1,1<<30); eb2=c.bool('eb2'); bir2=c.bool('bir2')
            if had: c.require((r2+1)*(k2+1)<=(1<<38)); 
            n=cnb(k,eb,bir) if nb else k
            out=c.buf('out',r*n); o=stO(c); c.heap('float',[r2,r2+1])
            c.args(*([p,r,k,eb,hb]+([bir] if bir_free else [])+[r2,k2,eb2,bir2,had,out,o]))
            c.returns(lambda:True); c.post(out,lambda x:p(x.i))
            c.outs(o,[r,n]+([0,0] if nb else [eb,land(eb,hb)])+[bir,0,0,0]); c.call()
clone_h('w_cloneto_h',SM+'clone_to (own storage)',False,True); clone_h('w_clonenb_h',SM+'clone_to_no_bias (own storage)',True,False); clone_h('w_clonefrom','smatrix_deform::cloneFrom',False,True)
@unit('C04','w_eq',SM+'operator==',views=('1d',))
def _(c):
    (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)=two(c,True)
    c.args(p,r,k,eb,hb,bir,q,r2,k2,eb2,hb2,bir2); c.returns(lambda:land(iff(eb,eb2),iff(hb,hb2),iff(bir,bir2),r==r2,k==k2,c.memeq(p,q,r*k))); c.call()
@unit('C04','w_neq',SM+'operator!=',views=('1d',))
def _(c):
    (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)=two(c,True)
    c.args(p,r,k,eb,hb,bir,q,r2,k2,eb2,hb2,bir2); c.returns(lambda:lnot(land(iff(eb,eb2),iff(hb,hb2),iff(bir,bir2),r==r2,k==k2,c.memeq(p,q,r*k)))); c.call()
for nm,cv in(('w_movector',SM+'smatrix(smatrix&&)'),('w_movectord','smatrix_deform(smatrix_deform&&)')):
    @unit('C04',nm,cv,views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c); o=c.buf('o',12,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(r,k,eb,hb,bir)+[0,1,0,0]); c.call()
for nm,cv in(('w_moveasg',SM+'operator=(smatrix&&)'),('w_moveasgd','smatrix_deform::operator=(smatrix_deform&&)')):
    @unit('C04',nm,cv,views=('1d',))
    def _(c):
        (p,r,k,eb,hb,bir),(q,r2,k2,eb2,hb2,bir2)=two(c,True); o=c.buf('o',12,'i64'); c.args(p,r,k,eb,hb,bir,q,r2,k2,eb2,hb2,bir2,o); c.outs(o,st(r,k,eb,hb,bir)+[0,1,0,0]); c.call()
@unit('C04','w_moveself',SM+'operator=(smatrix&&)',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); o=c.buf('o',9,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(r,k,eb,hb,bir)+[0]); c.call()
# ------------------------------------------------------------------ C03 ownership
CASES=[(e,b) for e in(False,True) for b in(False,True)]
def tg(e,b,f): return ('bias' if e else 'plain')+('_bir' if b else '_bic')+('_allocfail' if f else '')
def ctor(name,cov,ds=False):
    for e,b in CASES:
        for f in(False,True):
            @unit('C03',name,cov,views=('1d',),tag=tg(e,b,f),alloc_fail=f)
            def _(c,e=e,b=b,f=f):
                r=c.int('r',1,1<<30); k=c.int('c',1,1<<30); c.require((r+1)*(k+1)<=(1<<38))
                rr,kk=(k,r) if ds and b else (r,k)
                R=rr+toi(e and b); K=kk+toi(e and not b)
                o=stO(c); out=c.mat('out',R,K,view='2d'); c.heap('float',[R])
                c.args(r,k,e,b,o,out)
                if not f:
                    c.outs(o,[R,K,e,False,b,0,0,0])
                    if e: c.postif(out,lambda p: p.row==R-1 if b else p.col==K-1,lambda p:1.0)
                else:
                    c.anypost(out); c.anypost(o); c.final_sat(lambda rd,ret: land(rd(o,0)==R,rd(o,1)==K,rd(o,7)==rd(o,6)),'failed allocation is reported')
                c.call()
ctor('w_ctor_rc',SM+'smatrix(rows,cols,...)'); ctor('w_ctor_ds',SM+'smatrix(bBatchInR,batch,samples,...)',True); ctor('w_ctor_sz',SM+'smatrix(mtx_size_t,...)'); ctor('w_ctor_d','smatrix_deform(rows,cols,...)')
def defn(name,cov,ret):
    for f in(False,True):
        @unit(['C03','C05'],name,cov,views=('1d',),tag='allocfail' if f else '',alloc_fail=f)
        def _(c,f=f):
            r=c.int('r',1,1<<30); k=c.int('c',1,1<<30); ne=c.int('ne',1,1<<38,bits=64); c.require(r*k<=ne); eb=c.bool('eb'); hb=c.bool('hb'); bir=c.bool('bir'); o=stO(c); c.heap('float')
            c.args(ne,eb,hb,bir,r,k,o)
            if not f:
                c.outs(o,[r,k,eb,land(eb,hb),bir,0,0,0])
                if ret: c.returns(lambda:True)
            else:
                c.anypost(o); c.final_sat(lambda rd,x: (iff(x,rd(o,6)==0) if ret else True),'allocation failure is reported')
            c.call()
defn('w_ctor_dn','smatrix_deform(ne,...)',False); defn('w_resize_dn','smatrix_deform::resize(ne,...)',True)
def like(name,cov,nb=False,hb2=False,src='float',C=('C03',)):
    @unit(list(C),name,cov,views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c,bir=False if nb else None,elem=src); n=cnb(k,eb,bir) if nb else k; q=c.mat('q',r,n); o=c.buf('o',9,'i64')
        x=c.bool('hbx') if hb2 else None
        c.args(*([p,q,r,k,eb,hb]+([] if nb else [bir])+([x] if hb2 else [])+[o]))
        c.outs(o,(st(r,n,False,False,False) if nb else st(r,k,eb,x if hb2 else hb,bir))+[0]); c.call()
like('w_ctor_like',SM+'smatrix(ptr,like)'); like('w_ctor_likenb',SM+'smatrix(ptr,like,noBias)',True); like('w_ctor_liked','smatrix_deform(ptr,like)'); like('w_ctor_likedi','smatrix_deform(ptr,smatrix<T>)',src='i32')
like('w_useext_like',SM+'useExternalStorage(ptr,like)',hb2=True); like('w_useextnb_like',SM+'useExternalStorage_no_bias(ptr,like)',True); like('w_dext_like','smatrix_deform::useExternalStorage(ptr,like)',hb2=True,C=('C05',))
@unit('C03','w_ctor_likesz',SM+'smatrix(ptr,size)',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); o=c.buf('o',9,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(r,k,eb,hb,bir)+[0]); c.call()
def resz(name,cov):
    for e,b in CASES:
        for f in(False,True):
            @unit('C03',name,cov,views=('1d',),tag=tg(e,b,f),alloc_fail=f,budget=240)
            def _(c,e=e,b=b,f=f):
                r1=c.int('r1',1,1<<30); k1=c.int('c1',1,1<<30); r=c.int('r2',-3,1<<30); k=c.int('c2',-3,1<<30); c.require((r1+1)*(k1+1)<=(1<<38))
                if not f: c.require(r>0); c.require(k>0)
                ok=land(r>0,k>0); c.require(implies(ok,(r+1)*(k+1)<=(1<<38)))
                R=r+toi(e and b); K=k+toi(e and not b); o=stO(c); c.heap('float',[R,r1+toi(e and b)])
                out=c.mat('out',vmax(R,1) if f else R,vmax(K,1) if f else K,view='1d' if f else '2d')
                c.args(e,b,r1,k1,r,k,o,out)
                if not f:
                    c.outs(o,[R,K,e,False,b,0,0,0]); c.returns(lambda:True)
                    if e: c.postif(out,lambda p: p.row==R-1 if b else p.col==K-1,lambda p:1.0)
                else:
                    c.anypost(out); c.anypost(o); c.final_sat(lambda rd,x: land(implies(x,land(rd(o,6)==0,rd(o,0)==R,rd(o,1)==K)),implies(lnot(ok),lnot(x))),'failure is reported'); 
                c.call()
resz('w_resize',SM+'resize(r,c)'); resz('w_resize_d','smatrix_deform::resize(r,c)')
def resz1(name,cov,mode):
    for e,b in CASES:
        for f in(False,True):
            @unit('C03',name,cov,views=('1d',),tag=tg(e,b,f),alloc_fail=f)
            def _(c,e=e,b=b,f=f):
                r=c.int('r',1,1<<30); k=c.int('c',1,1<<30); c.require((r+1)*(k+1)<=(1<<38))
                if mode=='like':
                    c.require(r>=1+toi(e and b)); c.require(k>=1+toi(e and not b)); p=c.mat('p',r,k,const=True); R,K=r,k
                else:
                    rr,kk=(k,r) if mode=='ds' and b else (r,k)
                    R=rr+toi(e and b); K=kk+toi(e and not b)
                if mode=='nb': R,K=r,k
                o=stO(c); c.heap('float',[R]); c.args(*([p,r,k,e,b,o] if mode=='like' else [e,b,r,k,o]))
                if not f: c.outs(o,[R,K,e and mode!='nb',False,b,0,0,0]); c.returns(lambda:True)
                else: c.anypost(o); c.final_sat(lambda rd,x: land(iff(x,rd(o,6)==0),rd(o,0)==R,rd(o,1)==K),'failure is reported')
                c.call()
for nm,md in(('w_resize2','rc'),('w_resize_sz','rc'),('w_resize_ds','ds'),('w_resize_like','like'),('w_resize_nb','nb'),('w_resize_nbsz','nb'),('w_resize_dds','ds'),('w_resize_dlike','like')): resz1(nm,SM+'resize variants ('+nm+')',md)
for e,b in CASES:
    for f in(False,True):
        @unit('C03','w_useint',SM+'useInternalStorage',views=('1d',),tag=tg(e,b,f),alloc_fail=f)
        def _(c,e=e,b=b,f=f):
            p,r,k,eb,hb,bir=ext(c); r2=c.int('r2',-2,1<<30); k2=c.int('c2',-2,1<<30); R=r2+toi(e and b); K=k2+toi(e and not b); ok=land(r2>0,k2>0); c.require(implies(ok,(r2+1)*(k2+1)<=(1<<38)))
            o=stO(c); c.heap('float',[R]); c.args(p,r,k,eb,hb,bir,r2,k2,e,b,o)
            if not f: c.outs(o,[ite(ok,R,0),ite(ok,K,0),e,False,b,0,lnot(ok),0]); c.returns(lambda:True)
            else: c.anypost(o); c.final_sat(lambda rd,x: ite(ok,iff(x,rd(o,6)==0),x),'failure is reported')
            c.call()
@unit('C03','w_useext',SM+'useExternalStorage',views=('1d',),alloc_fail=True)
def _(c):
    p,r,k,eb,hb,bir=ext(c); r2=c.int('r2',1,1<<18); k2=c.int('c2',1,1<<18); had=c.bool('had'); o=c.buf('o',9,'i64'); c.heap('float'); c.args(p,r,k,eb,hb,bir,r2,k2,had,o); c.outs(o,st(r,k,eb,hb,bir)+[0]); c.call()
def ue(name,cov,nb=False,C='C03'):
    @unit(C,name,cov,views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c,bir=False if nb else None); o=c.buf('o',9,'i64'); c.heap('float'); c.args(*([p,r,k,eb,hb]+([] if nb else [bir])+[o]))
        c.outs(o,(st(r,k-toi(eb),False,False,False) if nb else st(r,k,eb,hb,bir))+[0]); c.call()
ue('w_useext_sz',SM+'useExternalStorage(ptr,size)'); ue('w_useext_m',SM+'useExternalStorage(matrix)'); ue('w_useextnb_m',SM+'useExternalStorage_no_bias(matrix)',True); ue('w_dext_m','smatrix_deform::useExternalStorage(matrix)',C='C05'); ue('w_dext_nb','smatrix_deform::useExternalStorage_no_bias(matrix)',True,C='C05')
def uebir(name,cov,C):
    @unit(C,name,cov,views=('1d',))
    def _(c):
        bs=c.int('bs',1); ss=c.int('ss',1); eb=c.bool('eb'); hb=c.bool('hb'); bir=c.bool('bir'); c.require(implies(eb,ss>=2)); p=c.buf('p',bs*ss,const=True); o=c.buf('o',9,'i64'); c.heap('float')
        c.args(p,bs,ss,eb,hb,bir,o); c.outs(o,st(ite(bir,ss,bs),ite(bir,bs,ss),eb,hb,bir)+[0]); c.call()
uebir('w_useext_bir',SM+'useExternalStorage(bBatchInR,...)','C03'); uebir('w_useext_bir2',SM+'useExternalStorage(batch,sample,...)','C03'); uebir('w_dext_bir','smatrix_deform::useExternalStorage(bBatchInR,...)','C05'); uebir('w_dext_bir2','smatrix_deform::useExternalStorage(batch,sample,...)','C05')
@unit('C03','w_useextnb_cols',SM+'useExternalStorage_no_bias(matrix,cBeg,totCols)',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False); cb,n=cols(c,k-toi(eb)); o=c.buf('o',9,'i64'); c.heap('float'); c.args(p,r,k,eb,hb,cb,n,o); c.outs(o,st(r,n,False,False,False)+[cb*r]); c.call()
@unit('C03','w_clear',SM+'clear',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); o=stO(c); c.args(p,r,k,eb,hb,bir,o); c.outs(o,[0,0,eb,0,0,0,1,0]); c.call()
for nm in('w_clear_h','w_clear_d'):
    for e,b in CASES:
        @unit('C03',nm,'clear',views=('1d',),tag=tg(e,b,False))
        def _(c,e=e,b=b):
            r=c.int('r',1,1<<18); k=c.int('c',1,1<<18); R=r+toi(e and b); o=stO(c); c.heap('float',[R]); c.args(r,k,e,b,o); c.outs(o,[0,0,e,0,0,0,1,0]); c.call()
for nm,x in(('w_move_h',[1,1]),('w_move_hd',[1,1,1])):
    for e,b in CASES:
        @unit(['C03','C04'],nm,'move construction and assignment of owning matrices',views=('1d',),tag=tg(e,b,False))
        def _(c,e=e,b=b,x=x):
            r=c.int('r',1,1<<18); k=c.int('c',1,1<<18); r2=c.int('r2',1,1<<18); k2=c.int('c2',1,1<<18); R=r+toi(e and b); o=c.buf('o',8+len(x),'i64'); c.heap('float',[R]); c.args(r,k,e,b,r2,k2,o); c.outs(o,[R,k+toi(e and not b),e,0,b,0,0,0]+x); c.call()
# ------------------------------------------------------------------ C05 deform
@unit('C05','w_dext_n','smatrix_deform::useExternalStorage(ptr,cnt)',views=('1d',))
def _(c):
    n=c.int('n',1,1<<38,bits=64); p=c.buf('p',n,const=True); eb=c.bool('eb'); hb=c.bool('hb'); bir=c.bool('bir'); r=c.int('r',1); k=c.int('c',1); c.require(r*k<=n); o=c.buf('o',11,'i64'); c.args(p,n,eb,hb,bir,r,k,o)
    c.outs(o,st(r,k,eb,hb,bir)+[0,0,0]); c.call()
def dfm(name,cov,f):
    @unit('C05',name,cov,views=('1d',))
    def _(c):
        p,r,k,eb,hb,bir=ext(c); n=c.int('n',1); o=c.buf('o',10,'i64'); R,K,old=f(r,k,bir,n); c.require(R*K<=r*k); c.require(R+K>=2); c.args(p,r,k,eb,hb,bir,n,o); c.outs(o,st(R,K,eb,hb,bir)+[old,0]); c.call()
dfm('w_dcols','smatrix_deform::deform_cols',lambda r,k,b,n:(r,n,k)); dfm('w_drows','smatrix_deform::deform_rows',lambda r,k,b,n:(n,k,r))
dfm('w_dbs','smatrix_deform::deform_batch_size',lambda r,k,b,n:(ite(b,r,n),ite(b,n,k),ite(b,k,r))); dfm('w_dss','smatrix_deform::deform_sample_size',lambda r,k,b,n:(ite(b,n,r),ite(b,k,n),ite(b,r,k)))
@unit('C05','w_dboth','smatrix_deform::deform',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); n=c.int('n',1); m=c.int('m',1); c.require(n*m<=r*k); o=c.buf('o',9,'i64'); c.args(p,r,k,eb,hb,bir,n,m,o); c.outs(o,st(n,m,eb,hb,bir)+[0]); c.call()
for e,b in CASES:
    @unit('C05','w_dbsb','smatrix_deform::deform_batch_size_with_biases',views=('2d',),tag=tg(e,b,False))
    def _(c,e=e,b=b):
        n=c.int('n',1,1<<20); s=c.int('s',1+toi(e),1<<20); r0=c.int('r0',1,1<<20); c.require(r0>=n)
        R,K=(s,n) if b else (n,s); r1,k1=(s,r0) if b else (r0,s)
        p=c.mat('p',R,K); o=stO(c); c.args(p,r1,k1,e,b,n,o)   # p: the cells of the new shape
        c.outs(o,[R,K,e,0,b,1,0,0])
        c.post(p,lambda q: ite(land(e,lnot(r0==n),q.row==R-1 if b else q.col==K-1),1.0,q.old)); c.call()
    @unit('C05','w_dds','smatrix_deform::deform_dataset',views=('2d',),tag=tg(e,b,False))
    def _(c,e=e,b=b):
        n=c.int('bs',1,1<<20); s=c.int('ss',1+toi(e),1<<20); R,K=(s,n) if b else (n,s)
        r=c.int('r',1,1<<20); k=c.int('c',1,1<<20); c.require(r*k>=R*K); p=c.mat('p',R,K); o=stO(c); c.args(p,r,k,e,b,n,s,o)
        c.outs(o,[R,K,e,0,b,1,0,0]); c.post(p,lambda q: ite(land(e,lnot(land(r==R,k==K)),q.row==R-1 if b else q.col==K-1),1.0,q.old)); c.call()
@unit('C05','w_hidecol',['smatrix_deform::hide_last_col','smatrix_deform::restore_last_col'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); c.require(k>=2); o=c.buf('o',12,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(r,k,eb,hb,bir)+[r,k-1,eb,0]); c.call()
@unit('C05','w_hiden',['smatrix_deform::hide_last_n_cols','smatrix_deform::restore_last_n_cols'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); n=c.int('n',0,1<<30); c.require(k>n+toi(eb)); o=c.buf('o',13,'i64'); c.args(p,r,k,eb,hb,bir,n,o); d=land(eb,lnot(bir)); c.outs(o,st(r,k,eb,hb,bir)+[r,k-n-toi(d),land(eb,bir),d,0]); c.call()
@unit('C05','w_hidebias',['smatrix_deform::hide_biases','smatrix_deform::restore_biases'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,bir=False); o=c.buf('o',13,'i64'); c.args(p,r,k,eb,hb,o); c.outs(o,st(r,k,eb,hb,False)+[r,k-toi(eb),False,eb,0]); c.call()
for nm,nb in(('w_like',False),('w_likenb',True)):
    @unit('C05',nm,'smatrix_deform::deform_like'+('_no_bias' if nb else ''),views=('1d',))
    def _(c,nb=nb):
        p,r,k,_,_,_=ext(c,eb=False,hb=False,bir=False); q,r2,k2,eb2,_,bir2=ext(c,'2',hb=False); R=rnb(r2,eb2,bir2) if nb else r2; K=cnb(k2,eb2,bir2) if nb else k2; c.require(R*K<=r*k); o=c.buf('o',9,'i64'); c.args(p,r,k,q,r2,k2,eb2,bir2,o); c.outs(o,st(R,K,False,False,bir2)+[0]); c.call()
@unit('C05','w_ontr','smatrix_deform::on_transposition',views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c); o=c.buf('o',13,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(k,r,eb,hb,lnot(bir))+[0,land(eb,lnot(bir)),land(eb,bir),ite(bir,rnb(r,eb,bir),cnb(k,eb,bir)),ite(bir,k,r)]); c.call()
@unit('C05','w_flags',['smatrix_deform::_drop_biases','smatrix_deform::_enforce_biases','smatrix_deform::holeyBiases_flag'],views=('1d',))
def _(c):
    p,r,k,eb,hb,bir=ext(c,hb=None); o=c.buf('o',10,'i64'); c.args(p,r,k,eb,hb,bir,o); c.outs(o,st(r,k,True,hb,bir)+[0,hb]); c.call()
# ------------------------------------------------------------------ C06 triangular indexing
def tri(name,low,mem):
    @unit('C06',name,SM+('triangl_coords_from_idx' if mem else 'sTrianglCoordsFromIdx')+('<lower>' if low else '<upper>'),views=('1d',))
    def _(c):
        c.exact_conv=True
        box=[2]
        def gn(g): box[0]=g.randint(2,9) if mem or g.random()<.3 else g.choice([g.randint(2,100),g.randint(1000,20000),g.randint(1<<20,1<<24)]); return box[0]
        def gk(g): u=g.randint(1,box[0]-1); return min(box[0]*(box[0]-1)//2-1,u*(u-1)//2+g.choice([0,u-1,u-1,g.randint(0,u-1)]))
        n=c.int('n',2,1<<24 if not mem else 1<<19,small=gn); k=c.int('k',0,1<<47,bits=64,small=gk); c.require(2*k<n*(n-1)); o=c.buf('o',3 if mem else 2,'i64')
        if mem: p=c.mat('p',n,n,const=True); c.args(p,n,k,o)
        else: c.args(n,k,o)
        c.anypost(o)
        def ok(rd,x):
            r,j=rd(o,0),rd(o,1)
            if low: u,v=n-1-j,n-1-r   # mirrored
            else: u,v=j,r
            kk=(idiv(n*(n-1),2)-1-k) if low else k
            t=land(v>=0,v<u,u<n,2*kk==u*(u-1)+2*v)
            if mem: t=land(t,2*rd(o,2)==n*(n-1))
            return t
        c.final_sat(ok,'index k is cell (r,c) strictly off the diagonal, counted column by column'); c.call()
tri('w_triU',False,False); tri('w_triL',True,False); tri('w_triUm',False,True); tri('w_triLm',True,True)
@unit('C06','w_triN',SM+'sNumelTriangl',views=('1d',))
def _(c):
    n=c.int('n',1); c.args(n); c.ret_sat(lambda v:2*v==n*(n-1)); c.call()
