"""Independent reference for whole networks (backpropagation in double precision) and the contract of an executed network history"""
import copy, math, random
from dsl import *
from ref_gw import GRef
from concctx import Mismatch
def sig(z): return 1/(1+math.exp(-z)) if z>-700 else 0.0
ACT={'identity':(lambda z:z,lambda z:1.0,None),'relu':(lambda z:max(z,0.0),lambda z:1.0 if z>0 else 0.0,0),'leaky':(lambda z:z if z>0 else .1*z,lambda z:1.0 if z>0 else .1,0),'sigm':(sig,lambda z:sig(z)*(1-sig(z)),None),
 'elu':(lambda z:z if z>0 else math.exp(z)-1,lambda z:1.0 if z>0 else math.exp(z),None),'softsign':(lambda z:z/(1+abs(z)),lambda z:1/(1+abs(z))**2,None)}
class Unstable(Exception): pass
def log_(x): return math.log(x)
class Net:
    """a multilayer perceptron, one GRef per layer; weights are lists of cells, column major, the last column is the bias"""
    def __init__(s,acts,out,sizes,w,hp,clamp):
        s.acts,s.out,s.sz,s.hp,s.clamp=acts,out,sizes,hp,clamp; s.L=len(sizes)-1; s.w=[]; o=0
        for i in range(s.L): m=sizes[i+1]*(sizes[i]+1); s.w.append(list(w[o:o+m])); o+=m
        s.reset(); s.ok=True; s.noise=None
    def reset(s): s.G=[GRef(None,s.sz[i+1],s.sz[i]+1,h['T'],h['lr'],h['mom'],h['nest'],h['l1'],h['l2'],h['mx'],h['ib'],None,False,.001) for i,h in enumerate(s.hp)]
    def fprop(s,x):
        Z=[];A=[x]
        for i in range(s.L):
            r,k=s.sz[i+1],s.sz[i]+1; w=s.w[i]; a=A[-1]+[1.0]; z=[sum(w[j*r+q]*a[j] for j in range(k)) for q in range(r)]; Z.append(z)
            if i<s.L-1: A.append([ACT[s.acts[i]][0](v) for v in z]); s.ok=s.ok and (ACT[s.acts[i]][2] is None or all(abs(v)>1e-4 for v in z))
            elif s.out=='softmax': m=max(z); e=[math.exp(v-m) for v in z]; t=sum(e); A.append([v/t for v in e])
            elif s.out=='quad': A.append(z)
            else: A.append([sig(v) for v in z])
        return Z,A
    def loss(s,a,y):
        if s.out in('quad','sigm_quad'): return sum((p-q)**2 for p,q in zip(a,y))/2
        if s.out=='xent':
            if any(not 1e-4<p<1-1e-4 for p in a): s.ok=False; return 0.0
            return -sum(math.log(p) if q>0 else math.log(1-p) for p,q in zip(a,y))
        if any(p<1e-6 for p in a): s.ok=False; return 0.0
        return -sum(q*math.log(p) for p,q in zip(a,y))
    def addendum(s): return sum(h['l1']*sum(abs(z) for z in w[:s.sz[i+1]*s.sz[i]])+h['l2']*sum(z*z for z in w[:s.sz[i+1]*s.sz[i]])/2 for i,(h,w) in enumerate(zip(s.hp,s.w)))
    def correct(s,a,y,binary):
        if binary:
            if any(abs(p-.5)<1e-3 for p in a): s.ok=False
            return sum((p>.5)==(q>.5) for p,q in zip(a,y))
        t=sorted(a); s.ok=s.ok and (len(a)<2 or t[-1]-t[-2]>1e-4)
        return int(a.index(max(a))==y.index(max(y)))
    def step(s,X,Y):
        m=len(X)
        for i in range(s.L): s.w[i]=s.G[i].pre(s.w[i])
        F=[s.fprop(x) for x in X]; D=[]
        for (Z,A),y in zip(F,Y):
            d=[p-q for p,q in zip(A[-1],y)]
            if s.out=='sigm_quad': d=[v*p*(1-p) for v,p in zip(d,A[-1])]
            if s.clamp: d=[min(max(v,s.clamp[0]),s.clamp[1]) for v in d]
            if s.noise: d=[v+1e-6*s.noise.uniform(-1,1) for v in d]
            D.append(d)
        for i in reversed(range(s.L)):
            r,k=s.sz[i+1],s.sz[i]+1; w=s.w[i]
            g=[sum(D[t][q]*(F[t][1][i]+[1.0])[j] for t in range(m))/m for j in range(k) for q in range(r)]
            if i: D=[[sum(D[t][q]*w[j*r+q] for q in range(r))*ACT[s.acts[i-1]][1](F[t][0][i-1][j]) for j in range(k-1)] for t in range(m)]
            if s.noise: g=[v+1e-6*s.noise.uniform(-1,1) for v in g]
            if not s.hp[i]['frozen']: s.w[i]=s.G[i].apply(w,g)
            if any(abs(v)>50 for v in s.w[i]) or not s.G[i].ok: s.ok=False
class Tree(Net):
    """layers in packs: ('fc',i,activation) with weights i, ('v',nodes) one above the other, ('h',[(node,offset,count)]) side by side, ('id',), ('drop',node,p): a layer with dropout, ('pa',node,l1,l2): penalized activations, ('opt',g,compl,[(node,offset,count)]): layers that g leading gate features open, ('tile',node,t): one layer on t groups of features; the last node is the output layer"""
    def __init__(s,tree,out,shapes,w,hp,clamp):
        s.tree,s.out,s.shapes,s.hp,s.clamp=tree,out,shapes,hp,clamp; s.L=len(shapes); s.w=[]; o=0
        for r,k in shapes: s.w.append(list(w[o:o+r*k])); o+=r*k
        s.reset(); s.ok=True; s.noise=None; s.masks=None; s.pre=None
    def reset(s): s.G=[GRef(None,r,k,h['T'],h['lr'],h['mom'],h['nest'],h['l1'],h['l2'],h['mx'],h['ib'],None,False,.001) for (r,k),h in zip(s.shapes,s.hp)]
    def addendum(s): return sum(h['l1']*sum(abs(z) for z in w[:r*(k-1)])+h['l2']*sum(z*z for z in w[:r*(k-1)])/2 for h,w,(r,k) in zip(s.hp,s.w,s.shapes))
    def fwd(s,nd,x,mask=None):
        if nd[0]=='fc':
            if s.pre is not None and nd[1] not in s.pre: s.pre.add(nd[1]); s.w[nd[1]]=s.G[nd[1]].pre(s.w[nd[1]])
            r,k=s.shapes[nd[1]]; w=s.w[nd[1]]; a=x+[1.0]; assert len(a)==k; z=[sum(w[j*r+q]*a[j] for j in range(k)) for q in range(r)]
            s.ok=s.ok and (ACT[nd[2]][2] is None or all(abs(v)>1e-4 for v in z)); return [ACT[nd[2]][0](v) for v in z],(x,z)
        if nd[0]=='id': return list(x),()
        if nd[0]=='v':
            C=[]
            for q in nd[1]: x,c=s.fwd(q,x,mask); C.append(c)
            return x,C
        if nd[0]=='drop':
            a,c=s.fwd(nd[1],x,mask)
            if mask is None: return a,(c,None)
            u=[mask.pop(0) for _ in a]; s.ok=s.ok and all(abs(v-nd[2])>1e-5 for v in u); m=[1/nd[2] if v<nd[2] else 0.0 for v in u]; return [p*q for p,q in zip(a,m)],(c,m)
        if nd[0]=='pa': a,c=s.fwd(nd[1],x,mask); return a,(c,a)
        if nd[0]=='tile':
            n=len(x)//nd[2]; R=[s.fwd(nd[1],x[t*n:t*n+n],mask) for t in range(nd[2])]; return sum([a for a,_ in R],[]),[c for _,c in R]
        if nd[0]=='opt':
            s.ok=s.ok and all(v in(.25,.5,.75) or abs(v-.5)>1e-4 for v in x[:nd[1]]); G=[1.0 if v>.5 else 0.0 for v in x[:nd[1]]]; A=G+([1-v for v in G] if nd[2] else []); C=[]
            for g,(q,o,m,n) in zip(G,nd[3]):
                a,c=s.fwd(q,x[o:o+m],mask) if g else ([0.0]*n,None); assert len(a)==n; A+=a; C.append(c)
            return A,(C,len(x))
        A=[];C=[]
        for q,o,m in nd[1]: a,c=s.fwd(q,x[o:o+m],mask); A+=a; C.append((c,len(a)))
        return A,(C,len(x))
    def bwd(s,nd,c,d,g):
        if nd[0]=='fc':
            x,z=c; i=nd[1]; s.n[i]+=1; r,k=s.shapes[i]; w=s.w[i]; d=[v*ACT[nd[2]][1](q) for v,q in zip(d,z)]; a=x+[1.0]
            for j in range(k):
                for q in range(r): g[i][j*r+q]+=d[q]*a[j]
            return [sum(d[q]*w[j*r+q] for q in range(r)) for j in range(k-1)]
        if nd[0]=='id': return d
        if nd[0]=='drop': return s.bwd(nd[1],c[0],[p*q for p,q in zip(d,c[1])] if c[1] else d,g)
        if nd[0]=='v':
            for q,e in zip(reversed(nd[1]),reversed(c)): d=s.bwd(q,e,d,g)
            return d
        if nd[0]=='pa': return s.bwd(nd[1],c[0],[p+nd[2]*((q>0)-(q<0))+nd[3]*q for p,q in zip(d,c[1])],g)
        if nd[0]=='tile':
            n=len(d)//nd[2]; return sum([s.bwd(nd[1],e,d[t*n:t*n+n],g) for t,e in enumerate(c)],[])
        R=[0.0]*c[1]; p=0
        if nd[0]=='opt':
            p=nd[1]*(2 if nd[2] else 1)
            for (q,o,m,n),e in zip(nd[3],c[0]):
                if e is not None: R[o:o+m]=s.bwd(q,e,d[p:p+n],g)
                p+=n
            return R
        for (q,o,m),(e,n) in zip(nd[1],c[0]):
            for j,v in enumerate(s.bwd(q,e,d[p:p+n],g)): R[o+j]+=v
            p+=n
        return R
    def full(s,x,mask=None):
        a,C=s.fwd(('v',s.tree),x,mask); r,k=s.shapes[-1]; w=s.w[-1]; b=a+[1.0]; assert len(b)==k; z=[sum(w[j*r+q]*b[j] for j in range(k)) for q in range(r)]
        return a,C,(z if s.out=='quad' else [sig(v) for v in z])
    def fprop(s,x): return None,[s.full(x)[2]]
    def step(s,X,Y):
        m=len(X)
        s.w[-1]=s.G[-1].pre(s.w[-1]); s.pre={s.L-1}; s.n=[0]*(s.L-1)+[m]
        g=[[0.0]*len(w) for w in s.w]; r,k=s.shapes[-1]; w=s.w[-1]
        for t,(x,y) in enumerate(zip(X,Y)):
            a,C,A=s.full(x,list(s.masks[t]) if s.masks else None); d=[p-q for p,q in zip(A,y)]
            if s.out=='sigm_quad': d=[v*p*(1-p) for v,p in zip(d,A)]
            if s.clamp: d=[min(max(v,s.clamp[0]),s.clamp[1]) for v in d]
            if s.noise: d=[v+1e-6*s.noise.uniform(-1,1) for v in d]
            b=a+[1.0]
            for j in range(k):
                for q in range(r): g[-1][j*r+q]+=d[q]*b[j]
            s.bwd(('v',s.tree),C,[sum(d[q]*w[j*r+q] for q in range(r)) for j in range(k-1)],g)
        s.pre=None
        for i in range(s.L):
            if s.n[i]==0: continue
            e=[v/s.n[i]+(1e-6*s.noise.uniform(-1,1) if s.noise else 0.0) for v in g[i]]
            if not s.hp[i]['frozen']: s.w[i]=s.G[i].apply(s.w[i],e)
            if any(abs(v)>50 for v in s.w[i]) or not s.G[i].ok: s.ok=False
def netunit(P,wrapper,covers,build,out,binary,rowx=True,mink=1,nofull=False,**kw):
    """build(c,k,l) -> (h, cut, dropout p, width of the dropout mask, shapes of the weight matrices, make(w,hp,clamp) -> Net)"""
    @unit(P,wrapper,covers,prove=False,**kw)
    def _(c):
        n=c.int('n',1,small=(1,9)); n2=c.int('n2',1,small=(1,9)); k=c.int('k',mink,small=(mink,mink+2)); l=c.int('l',1,small=(1,3)); rx=c.bool('rx') if rowx else False; h,cut,dp,mw,shapes,make=build(c,k,l)
        L=len(shapes); nw=sum(a*b for a,b in shapes)
        V=[-1.5,-1.0,-.75,-.5,-.25,.25,.5,.75,1.0,1.25]; ld=lambda m,w:(w,m) if rx else (m,w)
        x=c.mat('x',*ld(n,k+1),dom=V); x2=c.mat('x2',*ld(n2,k+1),dom=V)
        for b in(x,x2): c.forall(b,lambda q:implies(q.row==k if rx else q.col==k,q.old==1))
        # every training sample is distinguishable by its first feature
        def at(b,s_,j): return b(s_,j) if rx else b(j,s_)
        for s_ in range(n): x.old[s_*(k+1) if rx else s_]=(s_-n/2+.25)/4
        def targets(nm,m):
            b=c.mat(nm,m,l,dom=[-.75,-.25,0.0,.25,.75,1.25] if out=='quad' else [0.0,1.0])
            if not binary:
                for s_ in range(m):
                    q=c.choice('%s%d'%(nm,s_),list(range(l)))
                    for j in range(l): b.old[j*m+s_]=1.0 if j==q else 0.0
            return b
        y=targets('y',n); y2=targets('y2',n2); w=c.mat('w',nw,1,dom=V)
        hp=[]; ic=[]; fc=[]
        for i in range(L):
            nest=c.bool('nest%d'%i); mx=c.choice('mx%d'%i,[0.0,0.0,0.0,1.0,4.0]); fr=c.choice('fr%d'%i,[0,0,0,0,1]) if not(nest and mx>0) else 0
            d=dict(T=c.choice('T%d'%i,[0,0,0,1,2,4,5,6,7,8]),lr=c.choice('lr%d'%i,[.25,.125,.5]),mom=c.choice('m%d'%i,[0.0,0.0,.5,.75]),nest=nest,l1=c.choice('l1_%d'%i,[0.0,0.0,.125]),l2=c.choice('l2_%d'%i,[0.0,0.0,.25]),mx=mx,ib=c.bool('ib%d'%i),frozen=fr); hp.append(d)
            ic+=[d['T'],int(d['nest']),fr,int(d['ib'])]; fc+=[d['lr'],d['mom'],d['l1'],d['l2'],d['mx']]
        clamp=c.choice('clamp',[None,None,(-.25,.5),(-.125,.125)]); divt=c.choice('divt',[1e5,1e5,.5,1.0]); nops=c.int('nops',1,4,small=(1,4)); big=max(n,n2); ops=[]; alive=False; trained=False
        for j in range(nops):
            kd=c.choice('kind%d'%j,[0,0,0,1,2]+([3,3] if alive and trained else []))
            if kd==0:
                ep=c.choice('ep%d'%j,[1,2,3]); bs=c.choice('bs%d'%j,[0]+list(range(1,n+2))); mf=c.choice('mf%d'%j,[0]+([q for q in range(1,big+2) if q>=bs] if bs else []))
                st=c.choice('st%d'%j,list(range(1,ep+1))); stop=c.choice('stop%d'%j,[-1,-1,0,1]); dl=c.choice('dl%d'%j,[0,-2,1,5]); fl=c.choice('fl%d'%j,[2,3] if nofull else [0,0,1,2]); fl|=8*c.choice('cb%d'%j,[0,0]+list(range(1,min(n2,big if mf==0 or mf>big else mf)+1))); ops.append([0,ep,bs,mf,st,stop,dl,fl]); alive=not fl&1; trained=True
            elif kd==1: ops.append([1,c.choice('b%d'%j,list(range(1,n2+1))),0,0,0,0,0,0])
            elif kd==2: ops.append([2,c.choice('d%d'%j,[0,1]),c.choice('b%d'%j,list(range(0,big+1))),0,0,0,0,0]); alive=True
            else: ops.append([3,c.choice('d%d'%j,[0,1]),0,0,0,0,0,0])
        if ops[-1][0]==0: ops.append([1,n2,0,0,0,0,0,0]); nops+=1
        cap=nops*3*(3+n2*l)+64*nops+nops*4*(n+n2+4)*(k+l+mw+4)*3+nops*200
        I=c.buf('ic',4*L,'i32',const=True,dom=0); I.old[:]=ic; Fb=c.buf('fc',5*L,const=True,dom=0); Fb.old[:]=fc; O=c.buf('ops',8*nops,'i32',const=True,dom=0); O.old[:]=sum(ops,[]); lg=c.buf('lg',cap)
        cl=clamp or (0.0,0.0); c.args(x,y,n,x2,y2,n2,k,l,rx,w,h,cut,dp,I,Fb,cl[0],cl[1],nops,O,divt,lg,cap); c.anypost(lg); c.anypost(w); c.ret_sat(lambda r:r>0)
        rows=lambda b,m,wd:[[at(b,s_,j) for j in range(wd)] for s_ in range(m)]
        yr=lambda b,m:[[b.old[j*m+s_] for j in range(l)] for s_ in range(m)]
        TX,SX,TY,SY=rows(x,n,k),rows(x2,n2,k),yr(y,n),yr(y2,n2); XY=[(TX,TY),(SX,SY)]
        # every comparison with an expected value is traced; a sample that fails is judged only if the expected values are stable against tiny
        # perturbations of the gradients (single precision arithmetic is far away from the reference otherwise, e.g. when RMSProp divides by a vanishing average)
        T=dict(tr=[],ref=None)
        def near(a,b):
            t=T['tr']; t.append((b,abs(a-b)<=2e-3*max(1.0,abs(b))))
            if T['ref'] is None: return t[-1][1]
            if len(t)>len(T['ref']): raise Unstable()
            w_,r_=T['ref'][len(t)-1]
            if abs(w_-b)>4e-4*max(1.0,abs(w_)): raise Unstable()
            return r_
        why=[]
        def no(m): why.append(m); return False
        def chk(rd,ret):
            def run(i,p,N,st,full):
                """operations from i on, log position p, st = (inference size, training size) the network is set up for or None"""
                if not N.ok: return True
                if i==nops:
                    if p!=ret: return no('%d values logged, expected %d'%(ret,p))
                    fin=sum(N.w,[]); return all(near(rd(w,q),fin[q]) for q in range(nw)) or no('final weights %s, expected %s'%([rd(w,q) for q in range(nw)],fin))
                o=ops[i]; get=lambda q:rd(lg,p+q)
                if o[0]==1:
                    m=o[1]
                    if get(0)!=5 or get(1)!=0 or get(2)!=m: return no('operation %d: inference failed or gave the wrong number of rows'%i)
                    for s_ in range(m):
                        a=N.fprop(SX[s_])[1][-1]
                        if not all(near(get(3+s_*l+j),a[j]) for j in range(l)): return not N.ok or no('operation %d: inference on sample %d: %s, expected %s'%(i,s_,[get(3+s_*l+j) for j in range(l)],a))
                    return run(i+1,p+3+m*l,N,st if st and m<=st[0] else (m,0),full)
                if o[0]==2:
                    if get(0)!=8 or get(1)!=0: return no('operation %d: init4fixedBatchFprop failed'%i)
                    b=int(get(2)); X=XY[o[1]][0]
                    if not(1<=b<=big) or (0<o[2]!=b): return no('operation %d: batch size %d'%(i,b))
                    q=3; s_=0
                    while s_<len(X):
                        m=get(q); q+=1
                        if m!=min(b,len(X)-s_): return no('operation %d: %d rows in a batch'%(i,m))
                        for t in range(int(m)):
                            a=N.fprop(X[s_+t])[1][-1]
                            if not all(near(get(q+t*l+j),a[j]) for j in range(l)): return not N.ok or no('operation %d: inference on sample %d: %s, expected %s'%(i,s_+t,[get(q+t*l+j) for j in range(l)],a))
                        q+=int(m)*l; s_+=int(m)
                    return run(i+1,p+q,N,st if st and b<=st[0] else (b,0),full)
                ev=lambda d:(sum(N.loss(N.fprop(a)[1][-1],b) for a,b in zip(*XY[d]))/len(XY[d][0])+(N.addendum() if full else 0.0),sum(N.correct(N.fprop(a)[1][-1],b,binary) for a,b in zip(*XY[d])))
                if o[0]==3:
                    v,cr=ev(o[1])
                    if not N.ok: return True
                    return (get(0)==9 and near(get(1),v) and get(2)==cr or no('operation %d: loss %s and %s correct, expected %s and %s'%(i,get(1),get(2),v,cr))) and run(i+1,p+3,N,st,full)
                _,ep,bs,mf,stride,stop,dl,fl=o; e=big if mf==0 or mf>big else mf; b=n if bs==0 or bs>n else bs; full=not fl&2
                if st and st[0]>=e and st[1]==b: alts=[(N,st)]
                else:
                    M=copy.deepcopy(N); M.reset(); alts=[(M,(e,b))]
                    if st and st[1]: alts.append((N,(max(e,st[0]),b)))
                return any(train(copy.deepcopy(A),s_,i,p,full) for A,s_ in alts)
            def train(N,st,i,p,full):
                _,ep,bs,mf,stride,stop,dl,fl=ops[i]; e=big if mf==0 or mf>big else mf; b=n if bs==0 or bs>n else bs
                get=lambda q:rd(lg,q)
                if get(p)!=6 or get(p+1)!=b or get(p+2)!=e or get(p+3)!=sum(len(z) for z,d in zip(N.w,N.hp) if not d['frozen']): return no('operation %d: training announced with %s, expected batch size %d, inference size %d'%(i,[get(p+q) for q in range(4)],b,e))
                p+=4
                def report(p,k_):
                    R=[]
                    for d in(0,1): R.append((sum(N.loss(N.fprop(a)[1][-1],q) for a,q in zip(*XY[d]))/len(XY[d][0])+(N.addendum() if full else 0.0),sum(N.correct(N.fprop(a)[1][-1],q,binary) for a,q in zip(*XY[d]))))
                    if not N.ok: return True,0
                    tot=[len(XY[d][0])*(l if binary else 1) for d in(0,1)]; want=[1,k_,R[0][0],R[1][0],tot[0],R[0][1],tot[1],R[1][1]]
                    return all(near(get(p+q),v) for q,v in enumerate(want)) or no('operation %d: report %s, expected %s'%(i,[get(p+q) for q in range(8)],want)),R[0][0]
                r,_=report(p,-1)
                if not N.ok: return True
                if not r: return False
                p+=8; err=0; kk=k+0
                for q in range(ep):
                    if get(p)!=4 or get(p+1)!=q or get(p+2)!=n//b: return no('operation %d epoch %d: log has %s, expected an epoch of %d batches'%(i,q,[get(p+z) for z in range(3)],n//b))
                    p+=3; seen=set()
                    for z in range(n//b):
                        if get(p)!=2 or get(p+1)!=b: return no('operation %d epoch %d: batch of %s samples, expected %d'%(i,q,get(p+1),b))
                        bx=[[get(p+2+s_*kk+j) for j in range(kk)] for s_ in range(b)]; N.masks=[[get(p+2+b*kk+s_*mw+j) for j in range(mw)] for s_ in range(b)] if mw else None; by=[[get(p+2+b*(kk+mw)+s_*l+j) for j in range(l)] for s_ in range(b)]; p+=2+b*(kk+mw+l)
                        for u,v in zip(bx,by):
                            if u not in TX or TX.index(u) in seen or TY[TX.index(u)]!=v: return no('operation %d epoch %d: a batch holds a sample that is not in the training set or was already used'%(i,q))
                            seen.add(TX.index(u))
                        N.step(bx,by)
                        if not N.ok: return True
                    if q==ep-1 or (q+1)%stride==0 or q<dl:
                        r,tl=report(p,q)
                        if not N.ok or abs(tl-divt)<1e-2: return True
                        if not r: return False
                        p+=8
                        if q<dl and tl>=divt: err=1; break
                    m=fl>>3
                    if m:
                        if get(p)!=5 or get(p+1)!=0 or get(p+2)!=m: return no('operation %d epoch %d: inference in the callback failed or gave the wrong number of rows'%(i,q))
                        for s_ in range(m):
                            a=N.fprop(SX[s_])[1][-1]
                            if not all(near(get(p+3+s_*l+j),a[j]) for j in range(l)): return not N.ok or no('operation %d epoch %d: inference in the callback on sample %d: %s, expected %s'%(i,q,s_,[get(p+3+s_*l+j) for j in range(l)],a))
                        p+=3+m*l
                    if q==stop: break
                if not err:
                    if get(p)!=7: return no('operation %d: training did not end after the expected epoch'%i)
                    p+=1
                if get(p)!=3 or (get(p+1)!=0)!=bool(err): return no('operation %d: train() returned %s'%(i,get(p+1)))
                return run(i+1,p+2,N,None if fl&1 else st,full)
            T.update(tr=[],ref=None); del why[:]
            if run(0,0,make(w.old,hp,clamp),None,True): return True
            msg='; or '.join(why[-2:]); ref=T['tr']
            for q in range(4):
                T.update(tr=[],ref=ref); N=make(w.old,hp,clamp); N.noise=random.Random(q)
                try:
                    if run(0,0,N,None,True): return True
                except Unstable: return True
            raise Mismatch(msg)
        c.final_sat(chk,'training, reports and inference match the reference network'); c.call()
