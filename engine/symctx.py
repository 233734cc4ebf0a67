"""Symbolic evaluation of a contract: builds the initial state, runs the verifier on the wrapper, emits post obligations."""
import z3, time, itertools
import terms as T
from terms import iv, rv, simp, fresh, AND, I, R, B
import engine as EN
from engine import Engine, Obj, Ptr, NULL, State, Q, HAVOC_INV, Base, Oblig, UNDEF, Undef
from ir import Unsupported, get_func, find_loops
import dsl

class Pos:
    """a cell position of a matrix/buffer in either view"""
    def __init__(self,buf,q): self.buf=buf; self.q=q
    @property
    def col(self):
        if len(self.q)==2: return self.q[0]
        return self.q[0]/self.buf.ld if self.buf.is_mat else None
    @property
    def row(self):
        if len(self.q)==2: return self.q[1]
        return self.q[0]%self.buf.ld if self.buf.is_mat else None
    @property
    def i(self):
        if len(self.q)==1: return self.q[0]
        return self.q[0]*self.buf.ld+self.q[1]
    def before_col(self,n):
        if len(self.q)==2: return self.q[0]<n
        return self.q[0]<n*self.buf.ld
    @property
    def old(self): return self.buf.base(self.q)

class SBuf:
    symbolic=True
    def __init__(self,ctx,name,elem,es,n=None,ld=None,ncols=None,const=False,view='1d'):
        self.ctx=ctx; self.name=name; self.is_mat=ld is not None; self.ld=ld; self.ncols=ncols
        self.n=n if n is not None else simp(ld*ncols)
        o=Obj(name,'param',simp(self.n*es),elem,es,None,None,const)
        if ld is not None and view=='2d': o.ld=ld; o.ncols=ncols
        o.n=self.n
        self.obj=o
        self.f=z3.Function('mem!%s'%name,*([I]*o.nc),o.sort())
    def base(self,q): return self.f(*q)
    def at(self,p):
        """cell at the same position (same leading dimension assumed)"""
        if len(p.q)==self.obj.nc: return self.f(*p.q)
        if self.obj.nc==1: return self.f(simp(p.i))
        raise Unsupported('view mismatch')
    def __call__(self,*q):
        q=[iv(x) if isinstance(x,int) else x for x in q]
        if self.is_mat and self.obj.nc==1 and len(q)==2: q=[simp(q[0]*self.ld+q[1])]
        return self.f(*q)

ES={'float':4,'double':8,'i32':4,'i64':8,'i8':1,'i1':1,'u8':1,'i16':2}
class SymCtx:
    symbolic=True
    def __init__(self,mod,udef,view,budget=240,prover=None):
        T.FOLDS.clear(); T.INVERSE.clear(); HAVOC_INV.clear(); T.UF.clear()
        for c in(T._IA,T._SC,T._TR,T._BD,T._LM,T._HI,T._HN,T._LC,T._CANON): c.clear()
        self.m=mod; self.ud=udef; self.view=view
        self.st=State(); self.params=[]; self.bufs=[]; self.posts={}; self.folds=[]; self.ints=[]
        self.handlers={}; self.pat_handlers=[]; self.alloc_may_fail=udef.alloc_fail; self.heap_type=udef.kw.get('heap_type')
        self.outsv={}; self.condpost={}; self.finals=None; self.extra_partials={}; self.extra_scalars=[]; self.leak_ok=udef.kw.get('leak_ok',False)
        self.eng=Engine(mod,self,prover or T.Prover(),budget); self.rets=[]; self.pre_labels=[]
        self.memlimit=1<<40
        self.assumed=[]
        self.thin=False
    # -------- inputs
    def int(self,name,lo=None,hi=None,small=None,bits=32):
        v=z3.Int(name)
        lo=-(1<<(bits-1)) if lo is None else lo; hi=(1<<(bits-1))-1 if hi is None else hi
        self.st.assume(AND(v>=lo,v<=hi)); self.ints.append(v); return v
    def bool(self,name): return z3.Bool(name)
    def real(self,name,lo=None,hi=None,vals=None,only=False):
        v=z3.Real(name)
        if lo is not None: self.st.assume(v>=rv(lo))
        if hi is not None: self.st.assume(v<=rv(hi))
        return v
    def choice(self,name,vals):
        """enumerated integer parameter"""
        v=z3.Int(name); self.st.assume(z3.Or(*[v==x for x in vals])); return v
    def mat(self,name,rows,ncols,elem='float',const=False,dom=None,view=None):
        ncols=iv(ncols) if isinstance(ncols,int) else ncols; rows=iv(rows) if isinstance(rows,int) else rows
        b=SBuf(self,name,elem,ES[elem],ld=rows,ncols=simp(ncols),const=const,view=view or self.view)
        self.st.assume(AND(simp(rows*ncols)<=self.memlimit))
        self._addbuf(b,dom); return b
    def buf(self,name,n,elem='float',const=False,dom=None):
        n=iv(n) if isinstance(n,int) else n
        b=SBuf(self,name,elem,ES[elem],n=simp(n),const=const)
        self.st.assume(n<=self.memlimit)
        self._addbuf(b,dom); return b
    DOMS={'binary':lambda x:z3.Or(x==0,x==1),'unit':lambda x:AND(x>=0,x<=1),'open01':lambda x:AND(x>0,x<1),'pos':lambda x:x>0,'nonneg':lambda x:x>=0}
    def _addbuf(self,b,dom):
        self.bufs.append(b); self.st.mem[b.obj]=Base(b.f,b.obj.nc)
        self.st.assume(b.obj.addr>0)
        if isinstance(dom,str) and dom in self.DOMS: self.forall(b,lambda p:self.DOMS[dom](p.old))
    def forall(self,b,pred):
        """precondition on every cell of the buffer (instantiated wherever the cell is mentioned)"""
        p=Pos(b,Q[:b.obj.nc])
        HAVOC_INV.setdefault(b.f.name(),[]).append(pred(p))
    def require(self,c):
        if c is True: return
        self.st.assume(c)
    def opaque(self,name):
        """pointer to an object whose contents the function must not rely on"""
        o=Obj(name,'cells',iv(1<<20)); o.symbolic=False; self.st.mem[o]={}; return ('opaque',Ptr(o,iv(0)))
    def struct(self,name,size,ty=None,symbolic=True):
        """object with symbolic scalar fields"""
        o=Obj(name,'cells',iv(size)); o.symbolic=symbolic; self.st.mem[o]={}; return ('opaque',Ptr(o,iv(0)))
    def null(self): return ('opaque',NULL)
    def fold(self,name,nargs,init,step,sort='real',allf=False,**kw):
        s={'real':R,'int':I,'bool':B}[sort]
        F=T.Fold(name,nargs,lambda *a:dsl.lit(init(*a),z3.Const('l',s)),lambda *a:dsl.lit(step(*a),z3.Const('l',s)),s,allf,**kw)
        self.folds.append(F); return F
    def inverse(self,F,pred,upto):
        """position of the r-th index below 'upto' where pred holds, F being the count of such indices (Skolem function; that F
        counts exactly the indices with pred is an obligation)"""
        def pr(i):
            x=pred(i); return z3.BoolVal(x) if isinstance(x,bool) else x
        F.pred=pr; f=z3.Function('inv!'+F.name,I,I); T.INVERSE['inv!'+F.name]=F; F.inv=f; F.upto=upto
        return lambda r:f(r if z3.is_expr(r) else iv(r))
    def partial(self,buf,fn): self.extra_partials.setdefault(buf.obj,[]).append(fn)
    def lemma(self,hyp,concl):
        pass
    def handler(self,name,fn): self.handlers[name]=fn
    def pat(self,p,fn): self.pat_handlers.append((p,fn))
    def args(self,*a):
        f=get_func(self.m,'@'+self.ud.name)
        if len(f.params)!=len(a): raise Unsupported('wrapper arity %s %d %d'%(self.ud.name,len(f.params),len(a)))
        for (pn,pt),v in zip(f.params,a):
            if isinstance(v,SBuf): x=Ptr(v.obj,iv(0))
            elif isinstance(v,tuple) and v[0]=='opaque': x=v[1]
            elif isinstance(v,bool): x=z3.BoolVal(v)
            elif isinstance(v,int) and pt.k=='ptr': x=NULL
            elif isinstance(v,int): x=iv(v) if pt.k=='int' else rv(v)
            elif isinstance(v,float): x=rv(v)
            else: x=v
            if z3.is_expr(x) and x.sort()==B and pt.k=='int' and pt.n>1: x=z3.If(x,iv(1),iv(0))
            self.st.env[pn]=x
    # -------- posts (declared before call: they also guide the invariant search)
    def post(self,buf,fn,tol=None,when=None):
        self.posts[buf]=fn
    def postif(self,buf,cond,fn): 
        """cells with cond hold fn; the other cells are unconstrained"""
        self.condpost[buf]=(cond,fn)
    def anypost(self,buf): self.condpost[buf]=(lambda p:z3.BoolVal(False),lambda p:None)
    def outs(self,buf,vals):
        """post: cell i of an output record holds vals[i] (None: unconstrained)"""
        self.outsv[buf]=vals
    def heap(self,elem,ld=None):
        """view of the heap blocks the code allocates"""
        self.heap_type=(elem,ES[elem],[x for x in (ld if isinstance(ld,list) else [ld]) if x is not None])
    def memeq(self,a,b,n):
        """the first n elements of two buffers are bytewise equal"""
        return self.eng.memeq(a.obj,iv(0),b.obj,iv(0),simp(n*a.obj.es))
    def returns(self,fn,tol=None):
        """fn() -> expected value"""
        self.rets.append(('eq',fn))
    def ret_sat(self,fn,label='result'):
        self.rets.append(('sat',fn))
    def aborts(self,cond):
        """the call must end in abort() exactly when cond holds"""
        self.abort_cond=dsl.lit(cond,z3.BoolVal(True))
    def final_sat(self,fn,label='final state'):
        """fn(read, ret)->Bool where read(buf,*coords) reads the final state"""
        self.rets.append(('final',fn))
    # -------- hooks used by the loop solver
    def int_pool(self): return [] if not getattr(self,'pool_ints',False) else list(self.ints)
    def scalar_facts(self,it,k): return []
    def scalar_terms(self,srt,k,ipool,tpool):
        out=[]
        for fn in self.extra_scalars:
            for t in tpool:
                try: x=fn(t)
                except Exception: continue
                for y in (x if isinstance(x,list) else [x]):
                    if z3.is_expr(y) and y.sort()==srt: out.append(('contract scalar@%s'%t,y))
        return out
    def scalar(self,fn): self.extra_scalars.append(fn)
    def expected(self,o):
        for b,fn in self.posts.items():
            if b.obj is o:
                p=Pos(b,tuple(Q[:o.nc])); v=fn(p)
                return dsl.lit(v,z3.Const('l',o.sort()))
        return None
    def partials(self,o,k,outer,solver):
        out=[]
        b=next((b for b in self.bufs if b.obj is o),None)
        ts=[]
        for t in (k,simp(k+1),simp(k-1)): ts.append(t)
        for fn in self.extra_partials.get(o,[]):
            for t in ts:
                p=Pos(b,tuple(Q[:o.nc])); out.append(('partial@%s'%t,dsl.lit(fn(p,t),z3.Const('l',o.sort()))))
        e=self.expected(o)
        if e is None: return out
        apps=[]
        seen=set(); st=[e]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in T.FOLDS: apps.append(x)
                st.extend(x.children())
        names=sorted({a.decl().name() for a in apps})
        sets=[names] if names else []
        if len(names)>1: sets+=[[n] for n in names]
        for ns in sets:
            for t in ts+list(outer)+[simp(x+1) for x in outer]:
                r=z3.substitute(e,*[(a,a.decl()(*a.children()[:-1],t)) for a in apps if a.decl().name() in ns])
                out.append(('fold%s@%s'%(ns,t),r))
        out.append(('post',e))
        return out
    # -------- run
    def call(self):
        E=self.eng; st=self.st
        # vacuity guard: the precondition must be satisfiable
        E.obs.append(Oblig([],z3.BoolVal(True),'precondition satisfiable','contract')); E.obs[-1].cover=list(st.pc)
        for F in self.folds:
            if F.skip: raise Unsupported('unproved fold lemma')
            if F.bound:
                a=[z3.Int('la%d!%s'%(j,F.name)) for j in range(F.n)]; t=z3.Int('lt!'+F.name); acc=z3.Const('lacc!'+F.name,F.sort)
                E.oblige(st,F.bound(*a,iv(F.base),F.init(*a)),'lemma: bound of ghost function %s holds initially'%F.name,'contract',assume=False)
                s=st.copy(); s.assume(t>=F.base); s.assume(F.bound(*a,t,acc)); E.oblige(s,F.bound(*a,simp(t+1),F.step(*a,t,acc)),'lemma: bound of ghost function %s is kept'%F.name,'contract',assume=False)
            if F.mono or F.allf:
                a=[z3.Int('la%d!%s'%(j,F.name)) for j in range(F.n)]; t=z3.Int('lt!'+F.name); acc=z3.Const('lacc!'+F.name,F.sort)
                w=F.step(*a,t,acc); g=z3.Implies(w,acc) if F.allf else AND(w>=acc,w<=acc+1) if F.mono=='count' else w>=acc
                s=st.copy(); s.assume(t>=F.base); E.oblige(s,g,'lemma: ghost function %s is monotone'%F.name,'contract',assume=False)
                if F.inv is not None:
                    if F.n or F.base!=0: raise Unsupported('inverse of a parametric fold')
                    E.oblige(s,AND(w==acc+z3.If(F.pred(t),iv(1),iv(0)),F.init()==0),'lemma: %s counts exactly the selected indices'%F.name,'contract',assume=False)
        f=get_func(self.m,'@'+self.ud.name)
        if not hasattr(f,'loops'): find_loops(f)
        E.stack=[]
        be,ex,rets=E.region(f,[(f.order[0],None,st)],None,None)
        if not rets and getattr(self,'abort_cond',None) is None: raise Unsupported('no terminating path')
        self.finals=rets
        for s,v in rets:
            E.paths+=1
            if getattr(self,'abort_cond',None) is not None: E.oblige(s,z3.Not(self.abort_cond),'post: the call must be refused (abort)','post',assume=False)
            for b in self.bufs:
                o=b.obj
                c=s.mem.get(o)
                q=tuple(z3.Int('z%d!%s'%(j,o.name)) for j in range(o.nc))
                inb=AND(q[0]>=0,q[0]<o.n) if o.nc==1 else AND(q[0]>=0,q[0]<o.ncols,q[1]>=0,q[1]<o.ld)
                fn=self.posts.get(b)
                if b in self.outsv:
                    for j,w in enumerate(self.outsv[b]):
                        if callable(w) and not z3.is_expr(w): w=w(v)
                        if w is None: continue
                        if isinstance(w,bool): w=int(w)
                        w=dsl.lit(w,z3.Const('l',o.sort()))
                        if w.sort()==B: w=z3.If(w,iv(1),iv(0))
                        E.oblige(s,c.read((iv(j),))==w,'post: output %s[%d]'%(b.name,j),'post',assume=False)
                    continue
                if b in self.condpost:
                    cf,vf=self.condpost[b]; pp=Pos(b,q); cc=cf(pp)
                    if z3.is_expr(cc) and z3.is_false(cc): continue
                    s2=s.copy(); s2.assume(inb); s2.assume(cc)
                    E.oblige(s2,c.read(q)==dsl.lit(vf(pp),z3.Const('l',o.sort())),'post: every constrained cell of %s'%b.name,'post',assume=False); continue
                if isinstance(c,Base):
                    if fn is None: 
                        E.oblige(s,z3.BoolVal(True),'frame: %s unchanged'%b.name,'post'); continue
                s2=s.copy(); s2.assume(inb)
                want=b.f(*q) if fn is None else dsl.lit(fn(Pos(b,q)),z3.Const('l',o.sort()))
                E.oblige(s2,c.read(q)==want,'frame: %s unchanged'%b.name if fn is None else 'post: every cell of %s'%b.name,'post',assume=False)
            for kind,fn in self.rets:
                if kind=='eq':
                    w=fn()
                    if v is None or isinstance(v,(Ptr,Undef)): raise Unsupported('return value')
                    if isinstance(v,list): raise Unsupported('aggregate return')
                    w=dsl.lit(w,v)
                    if w.sort()==B and v.sort()==I: v=v!=0
                    E.oblige(s,v==w,'post: returned value','post',assume=False)
                elif kind=='sat':
                    E.oblige(s,fn(v),'post: returned value','post',assume=False)
                else:
                    rd=lambda b,*q: s.mem[b.obj].read(tuple(iv(x) if isinstance(x,int) else x for x in ([simp(q[0]*b.ld+q[1])] if b.is_mat and b.obj.nc==1 and len(q)==2 else q)))
                    E.oblige(s,fn(rd,v),'post: final state','post',assume=False)
            if not self.leak_ok:
                for o,x in s.heap.items():
                    E.oblige(s,z3.BoolVal(x!='live'),'no leak: heap block released','post',assume=False)
    def discharge(self,stop_first=False):
        E=self.eng; bad=[]
        for ob in E.obs:
            E.tick()
            if ob.ok: continue
            if getattr(ob,'cover',None) is not None:
                ob.ok=E.pv.feasible(ob.cover,timeout=3000); 
                if not ob.ok: bad.append(ob)
                continue
            if T.is_true(ob.goal): ob.ok=True; continue
            if T.is_false(ob.goal):
                # must be unreachable
                ob.ok=E.pv.valid(ob.hyps+E.inst(ob.hyps),z3.BoolVal(False),True)
            else:
                ob.ok=self.prove(ob)
            if not ob.ok:
                bad.append(ob)
                if stop_first: break
        return bad
    def prove(self,ob):
        E=self.eng; g=ob.goal
        goals=[g]
        if z3.is_and(g): goals=list(g.children())
        for x in goals:
            if not E.pv.valid(ob.hyps+E.inst(ob.hyps+[x]),x,True): return False
        return True
