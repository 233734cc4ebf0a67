"""C12: selecting rows/columns/samples, transposing, cloning columns;  C13: tiling"""
from dsl import *
use_tu('mn_ext')
P='C12'; MNP='_MathN::'
def idx(c,name,n,lim):
    ix=c.buf(name,n,'i32',const=True,dom='idx'); c.forall(ix,lambda q:land(q.old>=0,q.old<lim)); return ix
for F in ('mExtractCols','mExtractCols_st','mExtractCols_mt','mExtractBatches_c'):
    @unit(P,'w_'+F,[MNP+F.replace('_c','')],views=('2d',))
    def _(c,F=F):
        sR=c.int('sR',1); sc=c.int('sc',1); dc=c.int('dc',1); sbb=c.bool('sbb'); dbb=c.bool('dbb'); r=sR-toi(sbb); dR=c.int('dR',1,small=lambda g:r+int(dbb)); c.require(r>=1); c.require(dR-toi(dbb)==r)
        s=c.mat('s',sR,sc,const=True); d=c.mat('d',dR,dc); ix=c.buf('ix',dc,'i32',const=True,dom=lambda g:g.randint(0,5)); c.forall(ix,lambda q:land(q.old>=0,q.old<sc))
        if F.endswith('_st'):
            er=c.bool('er'); a=c.int('a',0,small=(0,4)); b=c.int('b',0,small=(0,9)); c.require(a<=b); c.require(b<=dc); c.args(s,d,ix,sR,dR,sc,dc,sbb,dbb,er,a,b)
            c.post(d,lambda q:ite(land(q.row<r,lor(lnot(er),land(q.col>=a,q.col<b))),s(ix(q.col),q.row),q.old))
        else: c.args(s,d,ix,sR,dR,sc,dc,sbb,dbb); c.post(d,lambda q:ite(q.row<r,s(ix(q.col),q.row),q.old))
        c.call()
for F in ('mExtractRows','mExtractRows_seqWrite_mt','mExtractBatches','mExtractRows_seqWrite_st'):
    @unit(P,'w_'+F,[MNP+F],views=('2d',))
    def _(c,F=F):
        sr=c.int('sr',1); dr=c.int('dr',1); k=c.int('c',1,hi=(1<<31)-2); c.require(dr<=sr); sb=c.bool('sb'); db=c.bool('db')
        s=c.mat('s',sr,k+toi(sb),const=True); d=c.mat('d',dr,k+toi(db)); ix=c.buf('ix',dr,'i32',const=True,dom=lambda g:g.randint(0,5)); c.forall(ix,lambda q:land(q.old>=0,q.old<sr))
        if F.endswith('_st'):
            er=c.bool('er'); a=c.int('a',0,bits=64,small=(0,4)); b=c.int('b',0,bits=64,small=(0,9)); c.require(a<=b); c.require(b<=dr); c.args(s,d,ix,sr,dr,k,sb,db,er,a,b)
            c.post(d,lambda q:ite(land(q.col<k,lor(lnot(er),land(q.row>=a,q.row<b))),s(q.col,ix(q.row)),q.old))
        else: c.args(s,d,ix,sr,dr,k,sb,db); c.post(d,lambda q:ite(q.col<k,s(q.col,ix(q.row)),q.old))
        c.call()
for F in ('mExtractRowsSeq','mExtractRowsSeq_mt','mExtractRowsSeq_st'):
    @unit(P,'w_'+F,[MNP+F],views=('2d',))
    def _(c,F=F):
        sr=c.int('sr',1); dr=c.int('dr',1); k=c.int('c',1,hi=(1<<31)-2); ofs=c.int('ofs',0,small=(0,4)); c.require(dr+ofs<=sr); sb=c.bool('sb')
        s=c.mat('s',sr,k+toi(sb),const=True); d=c.mat('d',dr,k+toi(sb))
        if F.endswith('_st'):
            er=c.bool('er'); a=c.int('a',0,bits=64,small=(0,4)); b=c.int('b',0,bits=64,small=(0,9)); c.require(a<=b); c.require(b<=k); c.args(s,d,sr,dr,k,sb,ofs,er,a,b)
            c.post(d,lambda q:ite(land(q.col<k,lor(lnot(er),land(q.col>=a,q.col<b))),s(q.col,q.row+ofs),q.old))
        else: c.args(s,d,sr,dr,k,sb,ofs); c.post(d,lambda q:ite(q.col<k,s(q.col,q.row+ofs),q.old))
        c.call()
for F in ('mTranspose','mTranspose_seq_read','mTranspose_seq_write','mTranspose_ignore_bias'):
    @unit(P,'w_'+F,[MNP+F],views=('2d',))
    def _(c,F=F):
        sR=c.int('sR',1); sC=c.int('sC',1); bir=c.bool('bir'); sb=c.bool('sb'); db=c.bool('db')
        ib=True if F=='mTranspose_ignore_bias' else c.bool('ib')
        r=sR-toi(land(sb,bir,ib)); k=sC-toi(land(sb,lnot(bir),ib)); c.require(land(implies(land(sb,bir),sR>=2),implies(land(sb,lnot(bir)),sC>=2)))
        er=toi(land(db,lnot(bir),ib)); ec=toi(land(db,bir,ib))
        dR=c.int('dR',1,small=lambda g:k+int(er)); dC=c.int('dC',1,small=lambda g:r+int(ec)); c.require(dR==k+er); c.require(dC==r+ec); c.require(land(implies(land(db,lnot(bir)),dR>=2),implies(land(db,bir),dC>=2)))
        s=c.mat('s',sR,sC,const=True); d=c.mat('d',dR,dC)
        a=[s,d,sR,sC,dR,dC,bir,sb,db]+([ib] if F!='mTranspose_ignore_bias' else [])
        c.args(*a); c.post(d,lambda q:ite(land(q.row<k,q.col<r),s(q.row,q.col),q.old)); c.call()
for F in ('mCloneCol','mCloneCol_mt','mCloneCol_st'):
    @unit(P,'w_'+F,['_SMath::'+F],views=('2d',))
    def _(c,F=F):
        r=c.int('r',1); k=c.int('c',1); s=c.mat('s',r,1,const=True); d=c.mat('d',r,k)
        if F.endswith('_st'):
            a=c.int('a',0,small=(0,4)); b=c.int('b',0,small=(0,9)); c.require(lor(b==0,a<b)); c.require(a<k); c.require(b<=k); c.args(s,d,r,k,a,b)
            c.post(d,lambda q:ite(land(q.col>=a,lor(b==0,q.col<b)),s(0,q.row),q.old))
        else: c.args(s,d,r,k); c.post(d,lambda q:s(0,q.row))
        c.call()
for F in ('mFillRowsByMask','mFillRowsByMask_st','mFillRowsByMask_mt'):
    for full in (False,True):
        @unit(P,'w_'+F,[MNP+F],views=('2d',),tag='all' if full else 'some')
        def _(c,F=F,full=full):
            dr=c.int('dr',1); k=c.int('c',1,hi=(1<<31)-2); sb=c.bool('sb'); db=c.bool('db')
            if full:
                m=c.buf('m',dr,const=True,dom=[1.0]); c.forall(m,lambda q:q.old==1); sr=dr; N=lambda i:i
            else:
                m=c.buf('m',dr,const=True,dom='binary'); c.forall(m,lambda q:lor(q.old==0,q.old==1))
                N=c.fold('N',0,lambda:0,lambda i,acc:acc+ite(m(i)!=0,1,0),sort='int',mono='count')
                sr=N(dr); c.require(sr>=1); c.require(sr<dr)
            s=c.mat('s',sr,k+toi(sb),const=True); d=c.mat('d',dr,k+toi(db))
            c.args(s,d,m,sr,dr,k,sb,db); c.post(d,lambda q:ite(q.col<k,ite(m(q.row)!=0,s(q.col,N(q.row)),0.0),q.old)); c.call()
for F in ('mExtractRowsByMask','mExtractRowsByMask_st','mExtractRowsByMask_mt'):
    for full in (False,True):
        @unit(P,'w_'+F,[MNP+F],views=('2d',),tag='all' if full else 'some')
        def _(c,F=F,full=full):
            sr=c.int('sr',1); k=c.int('c',1,hi=(1<<31)-2); sb=c.bool('sb'); db=c.bool('db')
            if full:
                m=c.buf('m',sr,const=True,dom=[1.0]); c.forall(m,lambda q:q.old==1); dr=sr; V=lambda i:i
            else:
                m=c.buf('m',sr,const=True,dom='binary'); c.forall(m,lambda q:lor(q.old==0,q.old==1))
                N=c.fold('N',0,lambda:0,lambda i,acc:acc+ite(m(i)!=0,1,0),sort='int',mono='count')
                dr=N(sr); c.require(dr>=1); c.require(dr<sr); V=c.inverse(N,lambda i:m(i)!=0,sr)
            s=c.mat('s',sr,k+toi(sb),const=True); d=c.mat('d',dr,k+toi(db))
            c.args(s,d,m,sr,dr,k,sb,db); c.post(d,lambda q:ite(q.col<k,s(q.col,V(q.row)),q.old)); c.call()
def spread(spec):
    r=[]
    for i,n in enumerate(spec): r+=[i]*n
    return r
for F in ('mCloneCols','mCloneCols_st','mCloneCols_mt'):
    @unit(P,'w_'+F,['_SMath::'+F],prove=False)
    def _(c,F=F):
        r=c.int('r',1); sc=c.int('sc',1); sp=c.buf('spec',sc,'i32',const=True,dom=lambda g:g.choice([0,1,1,2,3]))
        ix=spread(sp.old); dc=len(ix); c.require(dc>=1); s=c.mat('s',r,sc,const=True); d=c.mat('d',r,dc)
        if F.endswith('_st'):
            a=c.int('a',0,small=(0,4)); b=c.int('b',0,small=(0,9)); c.require(lor(b==0,a<b)); c.require(a<dc); c.require(b<=dc); c.args(s,d,sp,r,sc,dc,a,b)
            c.post(d,lambda q:ite(land(q.col>=a,lor(b==0,q.col<b)),s(ix[q.col],q.row),q.old))
        else: c.args(s,d,sp,r,sc,dc); c.post(d,lambda q:s(ix[q.col],q.row))
        c.call()
P='C13'
for F in ('mTilingRoll','mTilingRoll_st','mTilingRoll_mt','mTilingRoll_seqread_mt','mTilingRoll_seqwrite_mt','mTilingRoll_seqread_st','mTilingRoll_seqwrite_st',
          'mTilingUnroll','mTilingUnroll_st','mTilingUnroll_mt','mTilingUnroll_seqread_mt','mTilingUnroll_seqwrite_mt','mTilingUnroll_seqread_st','mTilingUnroll_seqwrite_st'):
    @unit(P,'w_'+F,['_SMath::'+F],prove=False)
    def _(c,F=F):
        m=c.int('m',1); k=c.int('k',2); n=c.int('n',1); eb=c.bool('eb'); e=1 if eb else 0
        wide=lambda nm,const:c.mat(nm,m,k*n+e,const=const); tall=lambda nm,const:c.mat(nm,k*m,n+e,const=const)
        roll='Unroll' not in F
        s=wide('s',True) if roll else tall('s',True); d=tall('d',False) if roll else wide('d',False)
        rng=F.endswith('seqread_st') or F.endswith('seqwrite_st')
        f,l=0,0
        if rng:
            f=c.int('f',0,small=(0,5)); l=c.int('l',0,small=(0,12)); lim=(k*n if ('seqread' in F)==roll else n)
            c.require(f<lim); c.require(l<=lim); c.require(lor(f<=l,l==0))
        L=l if l else (k*n if ('seqread' in F)==roll else n)
        c.args(*([s,d,m,k,n,eb]+([f,l] if rng else [])))
        def val(q):
            if roll:
                ti,row=divmod(q.row,m); sc=ti*n+q.col; sel=sc if 'seqread' in F else q.col
                return s(sc,row) if q.col<n and (not rng or f<=sel<L) else q.old
            ti,col=divmod(q.col,n); sel=q.col if 'seqwrite' in F else col
            return s(col,ti*m+q.row) if q.col<k*n and (not rng or f<=sel<L) else q.old
        c.post(d,val); c.call()
