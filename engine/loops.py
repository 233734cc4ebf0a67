"""Loop rule: derives a loop invariant (closed forms of induction variables, trip bound, summaries of the written memory,
fold equalities taken from the contract) and CHECKS it: holds on entry, preserved by every path through the body, and the
loop terminates.  Nothing derived here is trusted: a candidate is used only after the solver has accepted both checks."""
import z3, itertools, os, re
import terms as T
from terms import iv, rv, simp, fresh, AND, I, R, B, to_poly, from_poly, poly_divide, div_exact
from ir import Unsupported, INT
import engine as EN
from engine import Ptr, NULL, Undef, UNDEF, FnPtr, Obj, Base, Bulk, Havoc, Q, HAVOC_INV, State, sub_val, sub_state, PathDead

DEBUG=os.environ.get('VP_DEBUG','')
def dbg(*a):
    if DEBUG: print(*a,flush=True)

def variant(e,mark):
    """does the term mention a symbol created after `mark`?"""
    for n in T.consts_of(e):
        j=n.rfind('!')
        if j>=0:
            try:
                if int(n[j+1:])>=mark and not n.startswith('Q!'): return True
            except ValueError: pass
    return False

class Item:
    """a loop-carried scalar: SSA phi or stack cell"""
    def __init__(self,kind,key,init,ty):
        self.kind=kind; self.key=key; self.init=init; self.ty=ty; self.delta=None; self.alts=[]; self.pick=None; self.sym=None
    def name(self): return '%s'%(self.key,) if self.kind=='phi' else '%s+%d'%(self.key[0].name,self.key[1])

class Alt:
    def __init__(self,label,fn): self.label=label; self.fn=fn     # fn(k)->term or node

class LoopSolver:
    def __init__(self,E,f,L,prev,st0):
        self.E=E; self.f=f; self.L=L; self.prev=prev; self.st0=st0
        self.hkey=(tuple(getattr(E,'stack',[])),f.name,L.header)

    # -------------------------------------------------------------- scalars
    def put(self,st,it,v):
        if it.kind=='phi': st.env[it.key]=v
        else:
            o,off=it.key; d=dict(st.mem[o]); d[off]=(it.ty,v); st.mem[o]=d
    def get(self,st,it,edge=None):
        if it.kind=='phi':
            ins=it.ins
            for v,pb in ins.extra:
                if pb==edge: return self.E.val(st,ins.ty,v)
            raise Unsupported('phi edge')
        o,off=it.key; c=st.mem.get(o)
        if c is None or off not in c: raise Unsupported('cell vanished')
        return c[off][1]
    def mksym(self,it,st):
        """fresh value for the item"""
        v=it.init
        if isinstance(v,Undef):
            if it.ty.k=='ptr': return v
            s=R if it.ty.k in('float','double') else B if it.ty.n==1 else I
            x=fresh('u',s); 
            if s==I: st.assume(self.E.rng(st,x,it.ty.n))
            it.sym=x; return x
        if isinstance(v,Ptr):
            if v.obj is None: return v
            es=v.obj.es if v.obj.es else 1
            x=fresh('p'); it.sym=x
            return Ptr(v.obj,simp(v.off+es*x))
        if isinstance(v,(FnPtr,list)): return v
        x=fresh('x',v.sort()); it.sym=x
        if v.sort()==I: 
            st.assume(self.E.rng(st,x,it.ty.n))
        return x
    def diff(self,a,b):
        if isinstance(a,Ptr):
            if not isinstance(b,Ptr) or a.obj is not b.obj: return None
            return simp(a.off-b.off)
        if isinstance(a,(Undef,FnPtr,list)) or isinstance(b,(Undef,FnPtr,list)): return None
        if a.sort()==B: return None
        return simp(a-b)
    def same(self,a,b):
        if isinstance(a,Ptr): return isinstance(b,Ptr) and a.obj is b.obj and simp(a.off-b.off).eq(iv(0))
        if isinstance(a,FnPtr): return isinstance(b,FnPtr) and a.name==b.name
        if isinstance(a,Undef): return isinstance(b,Undef)
        if isinstance(a,list): return isinstance(b,list) and len(a)==len(b) and all(self.same(x,y) for x,y in zip(a,b))
        return z3.is_expr(b) and a.eq(b)
    def closed(self,it,k):
        v=it.init
        if it.delta is None: return v
        if isinstance(v,Ptr): return Ptr(v.obj,simp(v.off+k*it.delta))
        if v.sort()==R: return simp(v+z3.ToReal(k)*it.delta)
        return simp(v+k*it.delta)

    # -------------------------------------------------------------- running the body
    def body(self,st):
        E=self.E; save=E.obs; E.obs=[]
        try:
            be,ex,rets=E.region(self.f,[(self.L.header,self.prev,st)],self.L.blocks,self.L.header)
            got=E.obs
        finally: E.obs=save
        return be,ex,rets,got

    def solve(self):
        E=self.E; f=self.f; L=self.L; st0=self.st0
        E.tick()
        items=[]
        for ins in E.phis(f,L):
            for v,pb in ins.extra:
                if pb==self.prev: init=E.val(st0,ins.ty,v); break
            else: raise Unsupported('phi pred')
            it=Item('phi',ins.res,init,ins.ty); it.ins=ins; items.append(it)
        r=self.try_unroll(items)
        if r is not None: return r
        mark=next(T._cnt)
        modarr=set(); cells={}
        # ---- discovery of the write set and of linear induction variables
        for rnd in range(6):
            st=st0.copy(); E.quiet+=1
            try:
                for it in items:
                    v=self.mksym(it,st) if it.delta is None or True else None
                    self.put(st,it,v); it.start=v
                for o in modarr: st.mem[o]=Havoc(z3.Function('h!%s!%d'%(o.name,next(T._cnt)),*([I]*o.nc),o.sort()),o.nc,st0.mem.get(o))
                start=dict(st.mem); stheap=dict(st.heap)
                be,ex,rets,_=self.body(st)
            finally: E.quiet-=1
            new=False
            for edge,s in be:
                if any(s.heap.get(o)!=x for o,x in stheap.items()) : raise Unsupported('heap change in loop')
                if any(x=='live' and o not in stheap for o,x in s.heap.items()): raise Unsupported('block allocated in the body survives it')
                for o,c in s.mem.items():
                    if o not in start:
                        if o.birth>=mark or (o.kind!='cells' and isinstance(c,Base)): continue      # born inside the body / only read
                        if o.kind=='cells':
                            c0=E.content(st0,o)
                            if c==c0: continue
                            new=True; continue    # now present in st0: the next round sees the writes
                        E.content(st0,o); modarr.add(o); new=True; continue
                    if c is start[o]: continue
                    if isinstance(c,dict):
                        c0=start[o]
                        for off,(t,v) in c.items():
                            if off in c0 and self.same(c0[off][1],v) : continue
                            if (o,off) in cells: continue
                            if off in st0.mem[o]: init=st0.mem[o][off][1]
                            else: init=UNDEF
                            it=Item('cell',(o,off),init,t); cells[(o,off)]=it; items.append(it); new=True
                        for off in c0:
                            if off not in c and (o,off) not in cells: raise Unsupported('cell retyped in loop')
                    elif o not in modarr: modarr.add(o); new=True
            if not new: break
        else: raise Unsupported('write set of loop does not stabilise')
        if not be and not ex and not rets: return self.finish_noloop(items,modarr)   # every path dies: the fatal obligations must be recorded
        # linear?
        for it in items:
            ds=[]
            for edge,s in be:
                ds.append(self.diff(self.get(s,it,edge),it.start))
            it.lin=False
            if ds and all(d is not None for d in ds) and all(d.eq(ds[0]) for d in ds) and not variant(ds[0],mark):
                it.lin=True; it.delta=ds[0]
            elif isinstance(it.init,(FnPtr,list)) or (isinstance(it.init,Ptr) and it.init.obj is None):
                if not all(self.same(self.get(s,it,e),it.init) for e,s in be): raise Unsupported('pointer changes object in loop')
                it.lin=True; it.delta=None
            elif isinstance(it.init,Undef):
                pass
        if not be: # body never loops back
            return self.finish_noloop(items,modarr)
        return self.analyse(items,sorted(modarr,key=lambda o:o.name),mark)

    def try_unroll(self,items):
        """execute a few iterations directly when the header condition decides without forking (small constant trip count)"""
        E=self.E; L=self.L
        key=('nounroll',)+self.hkey
        blk=self.f.blocks[L.header]
        if E.hints.get(key): return None
        st=self.st0.copy()
        for it in items: self.put(st,it,it.init)
        # cheap test: is the exit decided on the first iteration by constants only?
        cur=[(None,st)]; exits=[]; rets=[]
        save=E.obs; E.obs=[]; ok=False
        try:
            for n in range(9):
                nxt=[]
                for _,s in cur:
                    t=blk.ins[-1]
                    be,ex,rr=self.region_nofork(s)
                    if be is None: return None
                    exits+=ex; rets+=rr
                    for edge,s2 in be:
                        nv=[self.get(s2,it,edge) for it in items]
                        for it,v in zip(items,nv): self.put(s2,it,v)
                        nxt.append((edge,s2))
                cur=nxt
                if not cur: ok=True; break
                if len(cur)>16: return None
            if not ok: 
                E.hints[key]=True
                return None
        finally:
            got=E.obs; E.obs=save
        E.obs+=got
        return exits,rets
    def region_nofork(self,s):
        """body execution where the loop-exit decisions must be constant; gives up otherwise"""
        E=self.E; L=self.L; f=self.f
        # evaluate the exit branch condition: require constant
        h=f.blocks[L.header]
        exiting=[b for b in L.blocks if any(x not in L.blocks for x in f.blocks[b].succs())]
        E.nofork_blocks=getattr(E,'nofork_blocks',[])+[(f.name,set(exiting))]
        try:
            be,ex,rr=E.region(f,[(L.header,self.prev,s)],L.blocks,L.header)
            return be,ex,rr
        except EN.NoFork:
            return None,None,None
        finally: E.nofork_blocks=E.nofork_blocks[:-1]

    def finish_noloop(self,items,modarr):
        st=self.st0.copy()
        for it in items: self.put(st,it,it.init)
        be,ex,rets,got=self.body(st)
        self.E.obs+=got
        if be: raise Unsupported('loop analysis inconsistent')
        return ex,rets

    # -------------------------------------------------------------- analysis with counter k
    def analyse(self,items,modarr,mark):
        E=self.E; st0=self.st0; L=self.L; f=self.f
        E.quiet+=1
        k=z3.Int('k!%d'%next(T._cnt)); self.k=k
        kst=getattr(E,'kstack',[]); E.kstack=kst+[k]
        try:
            r=self.analyse2(items,modarr,mark,k)
        finally:
            E.quiet-=1; E.kstack=kst
        exits,rets,got=r
        if not E.quiet: E.obs+=got
        return exits,rets

    def start_state(self,items,modarr,k,facts,nodes,phase):
        """state at the loop head at iteration k"""
        st=self.st0.copy(); st.loads=[]
        st.assume(k>=0)
        for it in items:
            if it.lin: v=self.closed(it,k)
            elif it.pick is not None: v=self.altval(it,it.pick.fn(k))
            else: v=self.mksym(it,st); it.cur=v
            if it.lin or it.pick is not None:
                if z3.is_expr(v) and v.sort()==I and it.ty.k=='int': st.assume(E_rng(v,it.ty.n))
            it.cur=v
            self.put(st,it,v)
        self.hv={}
        for o in modarr:
            n=nodes.get(o)
            if n is not None: st.mem[o]=n(k)
            else:
                fn=z3.Function('h!%s!%d'%(o.name,next(T._cnt)),*([I]*o.nc),o.sort())
                st.mem[o]=Havoc(fn,o.nc,self.st0.mem.get(o)); self.hv[o]=fn
        return st
    def altval(self,it,v):
        if isinstance(it.init,Ptr): return Ptr(it.init.obj,v)
        return v
    def scal(self,it,v):
        return v.off if isinstance(v,Ptr) else v

    def analyse2(self,items,modarr,mark,k):
        E=self.E; st0=self.st0; L=self.L
        nodes={}
        st=self.start_state(items,modarr,k,[],nodes,'explore')
        npc=len(st.pc)
        hv0=dict(self.hv); syms={it:it.sym for it in items if not it.lin and it.sym is not None}
        start_mem=dict(st.mem)
        be,ex,rets,_=self.body(st)
        dbg('LOOP',L.header,'depth',len(E.kstack),'items',[(it.name(),str(it.delta) if it.lin else 'NL') for it in items],'arr',[o.name for o in modarr],'be',len(be),'ex',len(ex),'rets',len(rets))
        # ---- trip bound
        facts=[]     # (label, fn(k, vals)->Bool)
        Ns=[]
        conds=[]
        for edge,s in be: conds.append([c for c in s.pc[npc:]])
        common=[]
        if conds:
            for c in conds[0]:
                if all(any(c.eq(d) for d in cs) for cs in conds[1:]): common.append(c)
        local=mark
        exitc=[]
        for (b,p,s) in ex: exitc.append(s.pc[npc:])
        def lin_only(c):
            n=T.consts_of(c)
            return k.decl().name() in n and not any(variant_name(x,mark) and x!=k.decl().name() for x in n)
        cand=[]
        for c in common:
            if lin_only(c): cand.append(c)
        for c in cand:
            a=c
            neg=False
            while z3.is_not(a): a=a.arg(0); neg=not neg
            if z3.is_app(a) and a.num_args()==2 and a.decl().kind() in(z3.Z3_OP_EQ,z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT) and a.arg(0).sort()!=B:
                kind=a.decl().kind()
                D=simp(a.arg(0)-a.arg(1))
                if D.sort()!=I: continue
                root=self.root(D,k)
                if kind==z3.Z3_OP_EQ:
                    if root is not None: Ns.append(root)
                else:
                    # continue while D<0-like: last value of k satisfying it, plus one
                    lo=(kind in(z3.Z3_OP_LE,z3.Z3_OP_LT))!=neg
                    strict=(kind in(z3.Z3_OP_LT,z3.Z3_OP_GT))!=neg
                    # normalise to  D' < 0  (integers)
                    Dp=D if lo else simp(-D)
                    if not strict: Dp=simp(Dp-1)
                    root=self.root(Dp,k)
                    if root is not None: Ns.append(root)
                    facts.append(('prev '+str(len(facts)),(lambda kk,c=c: z3.Or(kk==0,z3.substitute(c,(k,simp(kk-1)))))))
                    # ranking from the difference
                    Ns_rank=None
        u=[]; 
        for n in Ns:
            n=simp(n)
            if not any(n.eq(x) for x in u): u.append(n)
        Ns=u
        for i,n in enumerate(Ns):
            facts.append(('k<=N%d'%i,(lambda kk,n=n: kk<=n)))
            facts.append(('k<=max(N%d,0)'%i,(lambda kk,n=n: z3.Or(kk<=n,kk==0))))
        self.Ns=Ns
        facts=[fc for fc in facts if E.valid(st0,fc[1](iv(0)))]
        # drop the weaker of duplicates
        labs={l for l,_ in facts}
        facts=[(l,g) for l,g in facts if not(l.startswith('k<=max') and ('k<=N'+l[8:].split(',')[0]) in labs)]
        # facts from exit of inner guards: nonneg coordinates come for free from closed forms
        # ---- guess environment: havocked contents read as on entry
        def guess(e,node_of=None):
            tbl={}
            for o,fn in hv0.items():
                ent=st0.mem.get(o) or E.content(st0.copy(),o)
                tbl[fn.name()]=(lambda *a,ent=ent: E.read(base_pc,ent,tuple(simp(x) for x in a)))
            return T.subst_fn(e,tbl,{}) if tbl else e
        base_pc=list(st.pc)+[g(k) for _,g in facts]
        # ---- candidates for the non-linear scalars
        nl=[it for it in items if not it.lin and it.sym is not None]
        self.cmov=[]
        if nl or (E.u.folds if E.u else []):
            coords_inv,coords_mov=self.coord_pool([s for _,s in be]+[x[2] for x in ex],k,mark)
            ipool=[]; self.cmov=[t for t in coords_mov if not variant_except(t,mark,k)][:6]
            for t in coords_inv+list(E.kstack[:-1])+(E.u.int_pool() if E.u else []): add(ipool,t)
            add(ipool,iv(0))
            tpool=[k,simp(k+1),simp(k-1)]
            for it in items:
                if it.lin and it.ty.k=='int' and z3.is_expr(it.init) and it.init.sort()==I: 
                    v=self.closed(it,k)
                    add(tpool,v); add(tpool,simp(v+1)); add(tpool,simp(v-1))
            for t in coords_mov: add(tpool,t); add(tpool,simp(t+1)); 
            for t in self.st_kpool(k): add(tpool,t)
        hint=E.hints.get(self.hkey,{})
        remaining=list(nl)
        for it in nl: it.alts=[]; it.pick=None
        # candidate terms for each, filtered by entry and (guessed) preservation, with other scalars still symbolic
        picks={}
        for rnd in range(3):
            progress=False
            for it in list(remaining):
                for lab,fn in self.scalar_cands(it,k,ipool,tpool,mark):
                    if not self.entry_ok(it,fn,st0): continue
                    if not self.step_ok(it,fn,be,npc,k,picks,guess,facts): continue
                    it.alts.append(Alt(lab,fn)); progress=True
                    break
                if it.alts: picks[it]=it.alts[0].fn; it.pick=it.alts[0]; remaining.remove(it)
            if not progress: break
        # generic facts about unresolved scalars
        sfacts=[]
        for it in remaining:
            s0=it.init
            if isinstance(s0,Undef) or isinstance(s0,Ptr): continue
            if s0.sort() in(I,R):
                sfacts.append((it,'==init',lambda x,s0=s0:x==s0)); sfacts.append((it,'>=init',lambda x,s0=s0:x>=s0)); sfacts.append((it,'<=init',lambda x,s0=s0:x<=s0))
                if s0.sort()==I: 
                    sfacts.append((it,'<=init+k',lambda x,s0=s0:x<=s0+k))
                    add0=[t for t in tpool]
            else:
                sfacts.append((it,'true',lambda x:x)); sfacts.append((it,'false',lambda x:z3.Not(x)))
            for lab,g in (E.u.scalar_facts(it,k) if E.u else []): sfacts.append((it,lab,g))
        sfacts=[(it,l,g) for it,l,g in sfacts if E.valid(st0,z3.substitute(g(it.init),(k,iv(0))))]
        # boolean folds as facts
        bfacts=[]
        for F in (E.u.folds if E.u else []):
            if F.sort!=B: continue
            for args in itertools.product(ipool,repeat=F.n):
                for ti,t in enumerate(tpool):
                    fn=(lambda kk,F=F,args=args,t=t: F(*args,simp(z3.substitute(t,(k,kk)) if not isinstance(kk,type(None)) else t)))
                    if not E.valid(st0,fn(iv(0))): continue
                    ok=True
                    for edge,s in be:
                        hy=self.sub_pc(s,npc,picks,k,guess,facts)+[fn(k)]
                        if not E.pv.valid(hy,fn(simp(k+1)),False): ok=False; break
                    if ok: bfacts.append((F.name+str([str(a) for a in args])+'@'+str(t),fn))
        facts=facts+bfacts
        # ---- memory candidates
        malts={}
        for o in modarr:
            malts[o]=self.mem_cands(o,be,npc,k,hv0,picks,guess,st0,start_mem,mark)
            dbg('  mem cands',o.name,[a.label for a in malts[o]])
        mi={o:0 for o in modarr}
        # ---- verify
        for rnd in range(40):
            E.tick()
            nodes={}; frames=[]
            for o in modarr:
                while mi[o]<len(malts[o]):
                    a=malts[o][mi[o]]
                    if a.fn is None or self.mem_entry_ok(o,a,st0): break
                    dbg('  mem entry fails',o.name,a.label); mi[o]+=1
                a=malts[o][mi[o]] if mi[o]<len(malts[o]) else None
                if a is not None and a.fn is not None: nodes[o]=a.fn
            st=self.start_state(items,modarr,k,facts,nodes,'verify')
            for l,g in facts: st.assume(g(k))
            for it,l,g in sfacts:
                if it.pick is None: st.assume(g(self.scal(it,it.cur)))
            for o in modarr:
                if o not in nodes:
                    a=malts[o][mi[o]] if mi[o]<len(malts[o]) else None
                    if a is not None and a.fn is None and a.frame is not None:
                        fn=self.hv[o]; qq=Q[:o.nc]
                        ent=st0.mem.get(o) or E.content(st0,o)
                        HAVOC_INV[fn.name()]=[z3.Implies(z3.Not(a.frame(k)),fn(*qq)==ent.read(tuple(qq)))]
                        frames.append((o,a,fn,ent))
            npc2=len(st.pc)
            E.quiet-=1
            try: be,ex,rets,got=self.body(st)
            finally: E.quiet+=1
            bad=False; invobs=[]
            for edge,s in be:
                k1=simp(k+1)
                for it in items:
                    v=self.get(s,it,edge)
                    if it.lin:
                        want=self.closed(it,k1)
                        if self.same(v,want): continue
                        d=self.diff(v,want)
                        if d is None or not E.valid(s,d==0):
                            dbg('  linear fails',it.name()); it.lin=False; it.delta=None; bad=True
                            if isinstance(it.init,(FnPtr,list)) or (isinstance(it.init,Ptr) and it.init.obj is None): raise Unsupported('pointer evolution')
                    elif it.pick is not None:
                        want=it.pick.fn(k1)
                        vv=self.scal(it,v)
                        if isinstance(vv,Undef) or not E.valid(s,vv==want):
                            dbg('  pick fails',it.name(),it.pick.label)
                            it.alts=[a for a in it.alts if a is not it.pick]; it.pick=it.alts[0] if it.alts else None; bad=True
                        else: invobs.append((s,vv==want,'invariant of %s preserved'%it.name()))
                nf=[]
                for l,g in facts:
                    if E.valid(s,g(k1)): nf.append((l,g)); invobs.append((s,g(k1),'invariant %s preserved'%l))
                    else: dbg('  fact fails',l); bad=True
                facts=nf
                nf=[]
                for it,l,g in sfacts:
                    if it.pick is not None: continue
                    v=self.scal(it,self.get(s,it,edge))
                    if not isinstance(v,Undef) and E.valid(s,z3.substitute(g(v),(k,k1))): nf.append((it,l,g))
                    else: bad=True; dbg('  sfact fails',it.name(),l)
                sfacts=nf
                for o in modarr:
                    q=tuple(z3.Int('q%d!%d'%(j,next(T._cnt))) for j in range(o.nc))
                    inb=self.inb(o,q)
                    s2=s.copy(); s2.assume(inb)
                    if o in nodes:
                        want=nodes[o](k1).read(q); gotv=s.mem[o].read(q)
                        if not E.valid(s2,gotv==want,hard=False):
                            dbg('  mem fails',o.name,malts[o][mi[o]].label)
                            if DEBUG=='2': dbg('    got',simp(gotv),'\n    want',simp(want),'\n   pc',s2.pc[npc2:])
                            mi[o]+=1; bad=True; del nodes[o]
                        else: invobs.append((s2,gotv==want,'memory summary of %s preserved'%o.name))
                    else:
                        a=malts[o][mi[o]] if mi[o]<len(malts[o]) else None
                        if a is not None and a.fn is None and a.frame is not None:
                            ent=st0.mem.get(o)
                            fr=z3.substitute(a.frame(k1),*[(Q[j],q[j]) for j in range(o.nc)])
                            gv=s.mem[o].read(q); wv=ent.read(q)
                            if not E.valid(s2,z3.Implies(z3.Not(fr),gv==wv)):
                                dbg('  frame fails',o.name); mi[o]+=1; bad=True
                if bad: break
            if not bad: break
            if not be and not bad: break
        else: raise Unsupported('loop invariant search did not converge')
        # ---- termination
        term=None
        labs={l for l,_ in facts}
        for i,n in enumerate(Ns):
            if 'k<=N%d'%i in labs or 'k<=max(N%d,0)'%i in labs: term='bounded by %s'%n
        if term is None:
            for l,g in facts:
                if l.startswith('prev '):
                    # g(k) = k==0 or cond(k-1) with cond linear in k: unbounded k violates it
                    kk=fresh('kt'); big=fresh('bnd')
                    c=g(kk)
                    if self.falsifiable_for_large(c,kk): term='ranking by the exit comparison'; break
        oblist=list(got)
        for s,g,lab in invobs:
            o=EN.Oblig(list(s.pc),g,lab,'loop %s of %s'%(L.header,self.f.name[1:60])); o.ok=True; oblist.append(o)
        o=EN.Oblig([],z3.BoolVal(term is not None),'loop terminates','loop %s of %s'%(L.header,self.f.name[1:60])); oblist.append(o)
        if term is None: dbg('  NO TERMINATION',[str(n) for n in Ns],labs)
        # ---- exits
        outs=[]
        for b,p,s in ex: outs.append((b,p,self.subst_exit(s,k,Ns)))
        outr=[]
        for s,v in rets:
            outr.append((s,v))
        dbg('LOOP done',L.header,'picks',[(it.name(),it.pick.label if it.pick else 'lin' if it.lin else '?') for it in items],'mem',[(o.name,malts[o][mi[o]].label if mi[o]<len(malts[o]) else 'havoc') for o in modarr],'facts',[l for l,_ in facts])
        return outs,outr,oblist

    def subst_exit(self,s,k,Ns):
        E=self.E
        for n in Ns:
            if E.valid(s,k==n):
                loads=s.loads; s=sub_state(s,[(k,n)]); s.pc=[simp(c) for c in s.pc]
                s.loads=loads
                return s
        # k fixed by a numeric value?
        return s
    def falsifiable_for_large(self,c,kk):
        """c(kk) is Or(kk==0, linear inequality with constant positive growth)"""
        for a in (c.children() if z3.is_or(c) else [c]):
            b=a
            if z3.is_app(b) and b.num_args()==2 and b.arg(0).sort()==I and z3.is_eq(b) and b.arg(0).eq(kk): continue
            neg=False
            while z3.is_not(b): b=b.arg(0); neg=not neg
            if b.decl().kind() in(z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT):
                lo=(b.decl().kind() in(z3.Z3_OP_LE,z3.Z3_OP_LT))!=neg
                D=simp(b.arg(0)-b.arg(1))
                co,rest=coef(D,kk)
                if co is None: return False
                if not lo: co=simp(-co)
                if not self.E.valid(self.st0,co>0): return False
            else: return False
        return True
    def root(self,D,k):
        """N with D(N)=0 for D linear in k"""
        co,rest=coef(D,k)
        if co is None or T.as_int(co)==0: return None
        return div_exact(simp(-rest),co)
    def inb(self,o,q):
        if o.nc==1: return AND(q[0]>=0,q[0]<o.n)
        return AND(q[0]>=0,q[0]<o.ncols,q[1]>=0,q[1]<o.ld)
    def mem_entry_ok(self,o,a,st0):
        E=self.E
        q=tuple(z3.Int('q%d!%d'%(j,next(T._cnt))) for j in range(o.nc))
        ent=st0.mem.get(o) or E.content(st0,o)
        s=st0.copy(); s.assume(self.inb(o,q))
        return E.valid(s,a.fn(iv(0)).read(q)==ent.read(q))
    def entry_ok(self,it,fn,st0):
        v=self.scal(it,it.init)
        if isinstance(v,Undef): return False
        t=fn(iv(0))
        if t.sort()!=v.sort(): return False
        return self.E.valid(st0,t==v)
    def sub_pc(self,s,npc,picks,k,guess,facts):
        m=[(it.sym,self.symval(it,fn(k))) for it,fn in picks.items()]
        hy=[guess(z3.substitute(c,*m)) if m else guess(c) for c in s.pc]
        hy+= [g(k) for _,g in facts]
        return hy
    def symval(self,it,v):
        """value of the item's symbol such that the item equals v"""
        if isinstance(it.init,Ptr):
            es=it.init.obj.es or 1
            x=div_exact(simp(v-it.init.off),es)
            return x if x is not None else simp((v-it.init.off)/es)
        return v
    def step_ok(self,it,fn,be,npc,k,picks,guess,facts):
        E=self.E
        p=dict(picks); p[it]=fn
        m=[(x.sym,self.symval(x,g(k))) for x,g in p.items()]
        for edge,s in be:
            v=self.scal(it,self.get(s,it,edge))
            if isinstance(v,Undef): return False
            v=guess(z3.substitute(v,*m))
            hy=[guess(z3.substitute(c,*m)) for c in s.pc]+[g(k) for _,g in facts]
            if not E.pv.valid(hy+E.inst(hy+[v]),v==fn(simp(k+1)),False): return False
        return True
    def scalar_cands(self,it,k,ipool,tpool,mark):
        E=self.E
        srt=B if it.ty.k=='int' and it.ty.n==1 else R if it.ty.k in('float','double') else I
        for F in (E.u.folds if E.u else []):
            wraps=[('',lambda t:t)]
            if F.sort==B and srt==I: wraps=[('b2i',lambda t:z3.If(t,iv(1),iv(0)))]
            elif F.sort==B and srt==B: wraps=[('',lambda t:t),('not',lambda t:z3.Not(t))]
            elif F.sort==I and srt==R: wraps=[('i2r',lambda t:z3.ToReal(t))]
            elif F.sort!=srt: continue
            for args in itertools.product(ipool,repeat=F.n):
                for ti,t in enumerate(tpool):
                    for wl,w in wraps:
                        yield ('%s%s(%s;%s)'%(wl,F.name,','.join(map(str,args)),t),
                           (lambda kk,F=F,args=args,t=t,w=w: w(F(*args,simp(z3.substitute(t,(k,kk)))))))
        v0=self.scal(it,it.init)
        if isinstance(it.init,Ptr) and it.init.obj is not None and not isinstance(v0,Undef):
            es=it.init.obj.es or 1
            for F in (E.u.folds if E.u else []):
                if F.sort!=I: continue
                for args in itertools.product(ipool,repeat=F.n):
                    for t in tpool:
                        b0=F(*args,simp(z3.substitute(t,(k,iv(0)))))
                        yield ('ptr+%s(%s;%s)'%(F.name,','.join(map(str,args)),t),
                           (lambda kk,F=F,args=args,t=t,b0=b0: v0+es*F(*args,simp(z3.substitute(t,(k,kk))))-es*b0))
        if srt in(R,I) and not isinstance(v0,Undef) and not isinstance(it.init,Ptr):
            for F in (E.u.folds if E.u else []):
                if F.sort!=srt: continue
                for args in itertools.product(ipool,repeat=F.n):
                    for t in tpool:
                        b0=F(*args,simp(z3.substitute(t,(k,iv(0)))))
                        yield ('%s(%s;%s)-base'%(F.name,','.join(map(str,args)),t),
                           (lambda kk,F=F,args=args,t=t,b0=b0: v0+F(*args,simp(z3.substitute(t,(k,kk))))-b0))
        for lab,fn in (E.u.scalar_terms(srt,k,ipool,tpool) if E.u else []):
            yield lab,(lambda kk,fn=fn: z3.substitute(fn,(k,kk)))
        # value of another linear scalar one step behind / constant after first iteration
        v=self.scal(it,it.init)
        if not isinstance(v,Undef): yield 'init',(lambda kk,v=v:v)
        if srt==I and not isinstance(it.init,Ptr):
            for t in tpool:
                yield 'int %s'%t,(lambda kk,t=t: simp(z3.substitute(t,(k,kk))))
    def coord_pool(self,sts,k,mark):
        inv=[]; mov=[]
        for s in sts:
            for o,q in s.loads:
                for t in q:
                    t=simp(t)
                    if not z3.is_expr(t): continue
                    n=T.consts_of(t)
                    if k.decl().name() in n:
                        if not any(variant_name(x,mark) and x!=k.decl().name() for x in n): add(mov,t)
                    elif not any(variant_name(x,mark) for x in n): add(inv,t)
            if len(inv)>12 or len(mov)>12: break
        return inv[:12],mov[:12]
    def st_kpool(self,k):
        return []
    # -------------------------------------------------------------- memory summaries
    def chain(self,node):
        out=[]
        while isinstance(node,Bulk): out.append(node); node=node.prev
        return out[::-1],node
    def mem_cands(self,o,be,npc,k,hv0,picks,guess,st0,start_mem,mark):
        E=self.E; alts=[]
        ent=st0.mem.get(o) or E.content(st0,o)
        nc=o.nc
        m=[(it.sym,self.symval(it,fn(k))) for it,fn in picks.items()]
        def G(e):
            return guess(z3.substitute(e,*m)) if m else guess(e)
        pieces=[]; okd=True; frames=[]; unknown=False
        for edge,s in be:
            bulks,bot=self.chain(s.mem[o])
            if bot is not start_mem[o]:
                unknown=True
                if isinstance(bot,Havoc) and getattr(bot,'frame',None) is not None: frames.append(bot.frame)
                else: frames.append(None)
            pcx=AND(*[c for c in s.pc[npc:] if c.get_id() not in s.facts]) if len(be)>1 else None
            for b in bulks:
                pieces.append((b,pcx))
        summ=[]
        for b,pcx in pieces:
            if m and b.box is not None: b=Bulk(b.prev,simp(G(b.cond)),b.val,b.nc,[(simp(G(x)),simp(G(y))) for x,y in b.box])
            u=self.union(b,k,o,mark,st0)
            if u is None: okd=False; frames.append(None); continue
            lo_cond,j,box=u
            frames.append(lo_cond)
            if j is None:
                # constant footprint: last write wins (valid if value independent of the previous content)
                val=G(b.val); cnd=lo_cond
                vv=z3.substitute(val,(k,simp(k-1))) if not isinstance(k,int) else val
                summ.append((AND(k>0,z3.substitute(cnd,(k,simp(k-1)))),vv if True else None,pcx,box))
            else:
                val=z3.substitute(G(b.val),(k,j)); cnd=lo_cond
                if pcx is not None: cnd=AND(cnd,z3.substitute(G(pcx),(k,j)))
                inner=z3.substitute(b.cond,(k,j))
                summ.append((AND(cnd,inner),val,None,box))
        def mk(kk,summ=summ):
            n=ent
            for c,v,pcx,bx in summ:
                n=Bulk(n,z3.substitute(c,(k,kk)),z3.substitute(v,(k,kk)),nc,[(z3.substitute(a,(k,kk)),z3.substitute(b,(k,kk))) for a,b in bx])
            return n
        if okd and not unknown and summ and all(x[2] is None for x in summ):
            alts.append(Alt('derived',mk))
        # contract supplied partial contents
        if E.u is not None:
            pe=E.u.expected(o) if hasattr(E.u,'expected') else None
            okf=bool(frames) and all(x is not None for x in frames)
            fr=(z3.Or(*frames) if len(frames)>1 else frames[0]) if okf else None
            if pe is None and okf and o.sort()==R:
                # scratch memory: partial sums of the contract's ghost sums
                for F in E.u.folds:
                    if F.sort!=R or F.n!=1: continue
                    for tm in self.cmov:
                        ba=simp(z3.substitute(tm,(k,iv(0))))
                        for t2 in (tm,simp(tm+1)):
                            term=simp(F(Q[nc-1],t2)-F(Q[nc-1],ba))
                            alts.append(Alt('within footprint %s@%s-base'%(F.name,t2),(lambda kk,fr=fr,term=term: Bulk(ent,z3.substitute(fr,(k,kk)),z3.substitute(term,(k,kk)),nc))))
            if pe is not None and frames and all(x is not None for x in frames):
                alts.append(Alt('post within footprint',(lambda kk,fr=fr,pe=pe: Bulk(ent,z3.substitute(fr,(k,kk)),z3.substitute(pe,(k,kk)),nc))))
            pl=E.u.partials(o,k,E.kstack[:-1],self)
            for lab,term in pl:
                if not lab.startswith(('fold','partial')) or not frames or any(x is None for x in frames): continue
                alts.append(Alt('within footprint '+lab,(lambda kk,fr=fr,term=term: Bulk(ent,z3.substitute(fr,(k,kk)),z3.substitute(term,(k,kk)),nc))))
            for lab,term in pl:
                alts.append(Alt('contract '+lab,(lambda kk,term=term: Bulk(ent,z3.BoolVal(True),z3.substitute(term,(k,kk)),nc))))
        if okd and not unknown and summ and any(x[2] is not None for x in summ):
            alts.append(Alt('derived-last',mk))
        # frame only
        if frames and all(x is not None for x in frames):
            a=Alt('frame',None); a.frame=(lambda kk: z3.substitute(z3.Or(*[fr for fr in frames]),(k,kk))); alts.append(a)
        a=Alt('havoc',None); a.frame=None; alts.append(a)
        return alts
    def union(self,b,k,o,mark,st0):
        """union over iterations j<k of the footprint of bulk b: (cond over Q and k, j as term over Q or None)"""
        if b.box is None: 
            # maybe the condition does not depend on k
            return None
        E=self.E
        cs=[]; js=[]; mov=False; box=[]; tri=[]
        for d,(lo,hi) in enumerate(b.box):
            lo=simp(lo); hi=simp(hi)
            if variant_except(lo,mark,k) or variant_except(hi,mark,k): return None
            cl,rl=coef(lo,k); ch,rh=coef(hi,k)
            if cl is None or ch is None:
                # position given by a count: the iteration that wrote it is the count's inverse
                for F in (E.u.folds if E.u else []):
                    if F.inv is None or T.as_int(simp(hi-lo))!=1: continue
                    a=simp(lo-F(k))
                    if k.decl().name() in T.consts_of(a): continue
                    cs.append(AND(Q[d]>=a,Q[d]<simp(a+F(k)))); box.append((a,simp(a+F(k)))); js.append((True,F.inv(simp(Q[d]-a)))); mov=True
                    break
                else: return None
                continue
            cl0=T.as_int(cl)==0; ch0=T.as_int(ch)==0
            if cl0 and ch0: cs.append(AND(Q[d]>=lo,Q[d]<hi)); box.append((lo,hi)); continue
            if not simp(cl-ch).eq(iv(0)):
                # growing/shrinking box: expressible when another coordinate determines the iteration
                if T.as_int(cl) is None or T.as_int(ch) is None: return None
                L=rl if T.as_int(cl)>=0 else simp(z3.substitute(lo,(k,simp(k-1)))); H=rh if T.as_int(ch)<=0 else simp(z3.substitute(hi,(k,simp(k-1))))
                box.append((L,H)); tri.append((d,lo,hi)); mov=True; continue
            w=simp(hi-lo); bb=cl; bi=T.as_int(bb)
            mov=True
            a=rl
            if bi is not None and T.as_int(w)==abs(bi):
                if bi>0:
                    box.append((a,simp(a+k*bi)))
                    cs.append(AND(Q[d]>=a,Q[d]<simp(a+k*bi))); js.append((bi==1,simp(Q[d]-a) if bi==1 else (Q[d]-a)/iv(bi)))
                else:
                    ab=-bi
                    box.append((simp(a+k*bi+ab),simp(a+ab)))
                    cs.append(AND(Q[d]>=simp(a+k*bi+ab),Q[d]<simp(a+ab))); js.append((ab==1,simp(a-Q[d]) if ab==1 else simp((a+ab-1-Q[d])/iv(ab))))
            elif simp(w-bb).eq(iv(0)):
                box.append((a,simp(a+k*bb)))
                cs.append(AND(Q[d]>=a,Q[d]<simp(a+k*bb))); js.append((False,(Q[d]-a)/bb))
            elif T.as_int(w)==1:
                box.append((a,simp(a+k*bb)) if bi is None or bi>0 else (simp(a+k*bb+1),simp(a+1)))
                cs.append(AND(Q[d]>=a,Q[d]<simp(a+k*bb),(Q[d]-a)%bb==0)) if bi is None or bi>0 else cs.append(AND(Q[d]<=a,Q[d]>simp(a+k*bb),(a-Q[d])%iv(-bi)==0))
                js.append((False,(Q[d]-a)/bb if bi is None or bi>0 else (a-Q[d])/iv(-bi)))
            else: return None
        if not mov: return AND(*cs),None,box
        js.sort(key=lambda x:not x[0])
        if tri:
            if not js or not js[0][0]: return None
            for d,lo,hi in tri: cs.append(AND(Q[d]>=z3.substitute(lo,(k,js[0][1])),Q[d]<z3.substitute(hi,(k,js[0][1]))))
        return AND(*cs),js[0][1],box

def E_rng(v,n): return AND(v>=-(1<<(n-1)),v<=(1<<(n-1))-1)
def add(pool,t):
    t=simp(t)
    if not any(t.eq(x) for x in pool): pool.append(t)
def variant_name(n,mark):
    j=n.rfind('!')
    if j<0 or n.startswith('Q!'): return False
    try: return int(n[j+1:])>=mark
    except ValueError: return False
def variant_except(e,mark,k):
    return any(variant_name(x,mark) and x!=k.decl().name() for x in T.consts_of(e))
def coef(D,k):
    """D = co*k + rest (co free of k), else (None,None)"""
    p=to_poly(D); kid=None
    co={}; rest={}
    for mno,c in p.items():
        ks=[a for a in mno if T.ATOMS[a].eq(k)]
        if len(ks)==0:
            for a in mno:
                if k.decl().name() in T.consts_of(T.ATOMS[a]): return None,None
            rest[mno]=c
        elif len(ks)==1:
            l=list(mno); l.remove(ks[0])
            for a in l:
                if k.decl().name() in T.consts_of(T.ATOMS[a]): return None,None
            co[tuple(l)]=c
        else: return None,None
    return from_poly(co),from_poly(rest)
