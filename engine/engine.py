"""Deductive verifier over LLVM IR: symbolic execution with contracts, automatically derived and machine-checked loop
invariants (closed forms, memory summaries, fold invariants), and SMT discharge of every obligation."""
import re, z3, re, time, itertools, os
from fractions import Fraction
from ir import *
import ir as IR
import terms as T
from terms import iv, rv, simp, fresh, AND, eqs, I, R, B, uf, to_poly, from_poly, div_exact, split_by, poly_divide

Q=[z3.Int('Q!0'),z3.Int('Q!1'),z3.Int('Q!2')]      # placeholders for cell coordinates
DEBUG=os.environ.get('VP_DEBUG','')

class ForkOn(Exception):
    def __init__(self,c): self.c=c
class PathDead(Exception): pass
class NoFork(Exception): pass

class Undef:
    def __repr__(self): return 'undef'
UNDEF=Undef()

class Ptr:
    __slots__=('obj','off')
    def __init__(self,obj,off): self.obj=obj; self.off=off
    def __repr__(self): return 'Ptr(%s,%s)'%(self.obj and self.obj.name,self.off)
NULL=Ptr(None,iv(0))

class Packed:
    """64-bit integer made of two 32-bit halves (how the ABI passes small structs)"""
    def __init__(self,lo,hi): self.lo=lo; self.hi=hi
    def __repr__(self): return 'Packed(%s,%s)'%(self.lo,self.hi)
class FnPtr:
    def __init__(self,name): self.name=name

class Obj:
    """memory object. es None: not typed yet. ld None: one-dimensional."""
    def __init__(self,name,kind,size,elem=None,es=None,ld=None,ncols=None,const=False):
        self.name=name; self.kind=kind; self.size=size; self.elem=elem; self.es=es; self.ld=ld; self.ncols=ncols; self.const=const
        self.addr=z3.Int('addr!'+name)
        self.n=None           # number of elements (term), 1D
        self.uninit=False; self.birth=next(T._cnt)
    @property
    def nc(self): return 2 if self.ld is not None else 1
    def sort(self): return R if self.elem in('float','double') else I
    def __repr__(self): return 'Obj(%s)'%self.name

# ------------------------------------------------------------------ array contents
class Node: prev=None
class Base(Node):
    def __init__(self,f,nc): self.f=f; self.nc=nc
    def read(self,p): return self.f(*p)
    def subst(self,m): return self
class Bulk(Node):
    """cells q with cond(q) hold val(q) (terms over Q placeholders); other cells as in prev.  box: list of (lo,hi) or None"""
    def __init__(self,prev,cond,val,nc,box=None): self.prev=prev; self.cond=cond; self.val=val; self.nc=nc; self.box=box
    def read(self,p):
        m=[(Q[i],p[i]) for i in range(self.nc)]
        c=simp(z3.substitute(self.cond,*m))
        if z3.is_false(c): return self.prev.read(p)
        v=z3.substitute(self.val,*m)
        if z3.is_true(c): return v
        return z3.If(c,v,self.prev.read(p))
    def subst(self,m):
        pr=self.prev.subst(m); c=z3.substitute(self.cond,*m); v=z3.substitute(self.val,*m)
        bx=[(z3.substitute(a,*m),z3.substitute(b,*m)) for a,b in self.box] if self.box else None
        # unchanged content keeps its identity (a loop that only reads it must not count as modifying it)
        if pr is self.prev and c.eq(self.cond) and v.eq(self.val) and (bx is None or all(x.eq(z) and y.eq(w) for (x,y),(z,w) in zip(bx,self.box))): return self
        return Bulk(pr,c,v,self.nc,bx)
def store_node(prev,p,val):
    nc=len(p)
    return Bulk(prev,AND(*[Q[i]==p[i] for i in range(nc)]),val,nc,[(p[i],simp(p[i]+1)) for i in range(nc)])
class Havoc(Node):
    def __init__(self,f,nc,prev): self.f=f; self.nc=nc; self.prev=None; self.entry=prev
    def read(self,p): return self.f(*p)
    def subst(self,m): return self

HAVOC_INV={}

def has_ite(e):
    seen=set(); st=[e]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x,z3.Z3_OP_ITE): return True
        st.extend(x.children())
    return False

class State:
    __slots__=('env','pc','mem','heap','loads','depth','events','dec','facts')
    def __init__(self): self.env={}; self.pc=[]; self.mem={}; self.heap={}; self.loads=[]; self.depth=0; self.events=[]; self.dec={}; self.facts=frozenset()
    def copy(self):
        s=State(); s.env=dict(self.env); s.pc=list(self.pc); s.mem=dict(self.mem); s.heap=dict(self.heap); s.loads=list(self.loads); s.depth=self.depth; s.events=list(self.events); s.dec=dict(self.dec); s.facts=self.facts; return s
    def assume(self,c):
        if not T.is_true(c): self.pc.append(c)

def sub_val(v,m):
    if isinstance(v,Ptr): return Ptr(v.obj,simp(z3.substitute(v.off,*m))) if v.obj else v
    if isinstance(v,list): return [sub_val(x,m) for x in v]
    if isinstance(v,Packed): return Packed(sub_val(v.lo,m),sub_val(v.hi,m))
    if z3.is_expr(v): return z3.substitute(v,*m)
    return v
def sub_state(s,m):
    s.env={k:sub_val(v,m) for k,v in s.env.items()}
    s.pc=[z3.substitute(c,*m) for c in s.pc]
    nm={}
    for o,c in s.mem.items():
        if isinstance(c,dict): nm[o]={k:(t,sub_val(v,m)) for k,(t,v) in c.items()}
        else: nm[o]=c.subst(m)
    s.mem=nm
    s.events=[tuple(sub_val(x,m) if not isinstance(x,str) else x for x in e) for e in s.events]
    return s

class Oblig:
    def __init__(self,hyps,goal,kind,where): self.hyps=hyps; self.goal=goal; self.kind=kind; self.where=where; self.ok=None; self.model=None

def _floorf(f): return f.numerator//f.denominator
def r2i(e):
    """integer term equal to the real term e, if e is an integer polynomial over integer atoms"""
    e=simp(e)
    if e.sort()==I: return e
    p=to_poly(e); ts=[]
    for m,c in p.items():
        if Fraction(c).denominator!=1: return None
        t=iv(int(c))
        for a in m:
            x=T.ATOMS[a]
            if not z3.is_app_of(x,z3.Z3_OP_TO_REAL): return None
            t=t*x.arg(0)
        ts.append(t)
    return simp(z3.Sum(ts)) if ts else iv(0)
def always_div(e,d):
    """is the integer polynomial e divisible by d for all values of its atoms? (residues enumerated)"""
    p=to_poly(e); at=sorted({a for m in p for a in m})
    if len(at)>3 or d>8 or any(Fraction(c).denominator!=1 for c in p.values()): return False
    for v in itertools.product(range(d),repeat=len(at)):
        env=dict(zip(at,v)); s=0
        for m,c in p.items():
            t=int(c)
            for a in m: t*=env[a]
            s+=t
        if s%d: return False
    return True
def sel_only(f):
    """SSA values whose every use is as a value operand of a select"""
    r=getattr(f,'_selonly',None)
    if r is not None: return r
    good=set(); bad=set()
    for b in f.order:
        for ins in f.blocks[b].ins:
            names=set(re.findall(r'%[-\w.$"]+',(ins.line or '').split(' = ',1)[-1]))
            if ins.op=='select' and ins.line:
                vs={w[1] for w in ins.a[1:] if w[0]=='v'}; good|=vs; bad|=(names-vs)
                if ins.a[0][0]=='v': bad.add(ins.a[0][1])
            else: bad|=names
    f._selonly=good-bad; return f._selonly
def strip_mod(t,M):
    """a term congruent to t modulo M, with redundant wrap-arounds removed"""
    for _ in range(8):
        if z3.is_app_of(t,z3.Z3_OP_ITE):
            d=simp(t.arg(1)-t.arg(2))
            if z3.is_int_value(d) and d.as_long()%M==0:
                t=t.arg(2) if z3.is_app_of(t.arg(1),z3.Z3_OP_ADD) or z3.is_app_of(t.arg(1),z3.Z3_OP_MOD) else t.arg(1); continue
            return t
        if z3.is_app_of(t,z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long()%M==0: t=t.arg(0); continue
        if z3.is_app_of(t,z3.Z3_OP_ADD):
            r=[x for x in t.children() if not(z3.is_int_value(x) and x.as_long()%M==0)]
            if len(r)==1: t=r[0]; continue
        return t
    return t
def flag_conds(t,out,seen):
    """conditions of the ites of a term built from numerals only; False when the term has other leaves"""
    if t.get_id() in seen: return True
    seen.add(t.get_id())
    if z3.is_int_value(t): return True
    k=t.decl().kind()
    if k==z3.Z3_OP_ITE:
        c=t.arg(0)
        if not any(c.eq(o) for o in out): out.append(c)
        return len(out)<=7 and flag_conds(t.arg(1),out,seen) and flag_conds(t.arg(2),out,seen)
    if k in(z3.Z3_OP_ADD,z3.Z3_OP_SUB,z3.Z3_OP_UMINUS,z3.Z3_OP_MUL,z3.Z3_OP_IDIV,z3.Z3_OP_MOD): return all(flag_conds(x,out,seen) for x in t.children())
    return False
def flagop(op,a,b,n):
    """and / or / xor of flag words: case distinction over the conditions the flags depend on (exact)"""
    cs=[]; seen=set()
    if not(flag_conds(a,cs,seen) and flag_conds(b,cs,seen)) or not cs: return None
    def go(x,y,k):
        if k==len(cs):
            u,w=T.as_int(x),T.as_int(y)
            if u is None or w is None: raise ValueError
            r={'and':u&w,'or':u|w,'xor':u^w}[op]&((1<<n)-1)
            return iv(r-(1<<n) if r>>(n-1) else r)
        c=cs[k]; v=[]
        for t in(True,False):
            q=(c,z3.BoolVal(t)); v.append(go(simp(z3.substitute(x,q)),simp(z3.substitute(y,q)),k+1))
        return v[0] if v[0].eq(v[1]) else z3.If(c,v[0],v[1])
    try: return simp(go(a,b,0))
    except ValueError: return None
class Engine:
    def __init__(self,mod,unit,prover=None,budget=400):
        self.m=mod; self.dl=DL(mod); self.u=unit; self.pv=prover or T.Prover()
        self.quiet=0; self.defer=None; self.obs=[]; self.failed=[]; self.hints={}; self.gobj={}
        self.t0=time.process_time(); self.budget=budget; self.loopinfo={}; self.notes=set(); self.trusted=set(); self.nloops=set()
        self.paths=0; self.zx={}

    # ---------------------------------------------------------------- proving
    def tick(self):
        if time.process_time()-self.t0>self.budget: raise Unsupported('time budget exceeded')
    def valid(self,st,g,hard=False):
        self.tick()
        g=simp(g)
        if T.is_true(g): return True
        return self.pv.valid(st.pc+self.inst(st.pc+[g]),g,hard)
    def inst(self,fs):
        """instances of invariants of havocked contents occurring in the formulas"""
        if not HAVOC_INV and not T.UF: return []
        out=[]; seen=set(); st=list(fs); exps=[]
        while st:
            x=st.pop(); i=x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                n=x.decl().name()
                if n in HAVOC_INV:
                    for inv in HAVOC_INV[n]:
                        out.append(z3.substitute(inv,*[(Q[j],x.arg(j)) for j in range(x.num_args())]))
                elif n[:2]=='m_' and x.num_args()==1:
                    a=x.arg(0)
                    if n=='m_exp': out.append(x>0); out.append((x<1)==(a<0)); out.append((x>1)==(a>0)); exps.append(x)
                    elif n=='m_sqrt': out.append(z3.Implies(a>=0,z3.And(x>=0,x*x==a))); out.append(z3.Implies(a>0,x>0))
                    elif n=='m_log': out.append(z3.Implies(a>0,z3.And((x>0)==(a>1),(x<0)==(a<1))))
                st.extend(x.children())
        for i,x in enumerate(exps):
            for y in exps[i+1:]:
                if T.is_true(simp(x.arg(0)+y.arg(0)==0)): out.append(x*y==1)
        return out
    def oblige(self,st,g,kind,ins,assume=True):
        g=simp(g)
        if T.is_true(g):
            if not self.quiet: self.obs.append(Oblig([],z3.BoolVal(True),kind,str(ins)))
            return
        if not self.quiet:
            self.obs.append(Oblig(list(st.pc),g,kind,str(ins)))
        if assume and not any(p.eq(g) for p in st.pc):
            st.assume(g); st.facts=st.facts|{g.get_id()}
    def decide(self,st,c):
        c=simp(c)
        if T.is_true(c): return True
        if T.is_false(c): return False
        d=st.dec.get(c.get_id())
        if d is not None and d[0].eq(c): return d[1]
        for p in st.pc[-40:]:
            if p.eq(c): return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
        raise ForkOn(c)
    def decided(self,st,c):
        """True/False/None without forking (solver)"""
        c=simp(c)
        if T.is_true(c): return True
        if T.is_false(c): return False
        if self.valid(st,c): return True
        if self.valid(st,z3.Not(c)): return False
        return None

    # ---------------------------------------------------------------- values
    def rng(self,st,e,n):
        """facts for a fresh iN value"""
        return AND(e>=-(1<<(n-1)),e<=(1<<(n-1))-1)
    def wrap(self,st,e,n,ins,nsw=False,why='overflow'):
        e=simp(e)
        lo,hi=-(1<<(n-1)),(1<<(n-1))-1
        if z3.is_int_value(e):
            v=e.as_long()
            if lo<=v<=hi: return e
            if nsw: self.oblige(st,z3.BoolVal(False),'no signed overflow',ins)
            return iv((v-lo)%(1<<n)+lo)
        ok=AND(e>=lo,e<=hi)
        if nsw:
            if self.defer is not None:
                # a speculated operand of select instructions only: overflow matters where it is selected
                if not self.valid(st,ok): self.defer.append((ok,ins))
                return e
            self.oblige(st,ok,'no signed overflow',ins,assume=False)
            return e
        if self.valid(st,ok): return e
        return simp((e-lo)%iv(1<<n)+lo)
    def unsigned(self,st,e,n):
        e=simp(e)
        if z3.is_int_value(e):
            return e if e.as_long()>=0 else iv(e.as_long()+(1<<n))
        if self.valid(st,e>=0): return e
        return simp(z3.If(e<0,e+(1<<n),e))

    def const_val(self,ty,c):
        if ty.k=='int':
            if ty.n==1: return z3.BoolVal(bool(c))
            c=int(c)
            if c>=(1<<(ty.n-1)): c-=(1<<ty.n)
            return iv(c)
        if ty.k in('float','double'):
            if isinstance(c,tuple):
                if c[0]=='inf': return uf('fp_inf',R)() if c[1]>0 else -uf('fp_inf',R)()
                return uf('fp_nan',R)()
            return rv(c)
        raise Unsupported('const of %r'%ty)

    def val(self,st,ty,v):
        k=v[0]
        if k=='v':
            r=st.env.get(v[1])
            if r is None: raise Unsupported('undefined %s'%v[1])
            return r
        if k=='c': return self.const_val(ty,v[1])
        if k=='null': return NULL
        if k=='undef':
            return UNDEF
        if k=='zero':
            if ty.k=='ptr': return NULL
            if ty.k in('int','float','double'): return self.const_val(ty,0)
            t=self.dl.res(ty)
            if t.k=='struct': return [self.val(st,e,('zero',)) for e in t.el]
            if t.k=='array': return [self.val(st,t.el,('zero',)) for _ in range(t.n)]
            raise Unsupported('zeroinit')
        if k=='agg': return [self.val(st,t,x) for t,x in v[1]]
        if k=='g':
            if v[1] in self.m.funcs or v[1] in self.m.decls: return FnPtr(v[1])
            return Ptr(self.global_obj(v[1]),iv(0))
        if k=='ce':
            if v[1]=='gep':
                bt,ops=v[2],v[3]
                return self.gep(st,bt,self.val(st,*ops[0]),[(t,self.val(st,t,x)) for t,x in ops[1:]])
            if v[1]=='inttoptr':
                x=self.val(st,v[2],v[3]); n=T.as_int(x)
                return Ptr(None,iv(n))
            if v[1] in('bitcast','ptrtoint'):
                x=self.val(st,v[2],v[3])
                if v[1]=='bitcast': return x
                return self.p2i(x)
            raise Unsupported('const expr %s'%v[1])
        raise Unsupported('value %r'%(v,))
    def p2i(self,p):
        if p.obj is None: return p.off
        return simp(p.obj.addr+p.off)

    def global_obj(self,name):
        if name in self.gobj: return self.gobj[name]
        ty,init,const=self.m.globals.get(name,(None,None,False))
        if ty is None: raise Unsupported('global %s'%name)
        t=self.dl.res(ty)
        o=Obj(name,'cells',iv(self.dl.size(ty)),const=const); o.gty=ty; o.init=init
        self.gobj[name]=o
        return o
    def init_global(self,st,o):
        cells={}
        def put(ty,v,off):
            t=self.dl.res(ty)
            if v is None: return
            if v[0]=='zero':
                if t.k=='struct':
                    for i,e in enumerate(t.el):
                        fo,ft=self.dl.field(ty,i); put(ft,('zero',),off+fo)
                elif t.k=='array':
                    if t.n>4096: raise Unsupported('big global')
                    for i in range(t.n): put(t.el,('zero',),off+i*self.dl.size(t.el))
                else: cells[off]=(ty,self.val(st,ty,v))
            elif v[0]=='agg':
                o2=0
                for i,(et,ev) in enumerate(v[1]):
                    if t.k=='struct': fo,ft=self.dl.field(ty,i)
                    else: fo,ft=i*self.dl.size(t.el),t.el
                    put(ft,ev,off+fo)
            elif v[0]=='str': pass
            else: cells[off]=(ty,self.val(st,ty,v))
        put(o.gty,o.init if o.const else None,0)
        return cells

    def gep(self,st,bt,base,idx):
        if isinstance(base,Undef): raise Unsupported('gep undef')
        off=base.off; ty=bt; first=True
        for t,i in idx:
            if not z3.is_expr(i): raise Unsupported('gep idx')
            if first: off=off+i*self.dl.size(ty); first=False
            else:
                r=self.dl.res(ty)
                if r.k=='struct':
                    fo,ft=self.dl.field(ty,i.as_long()); off=off+fo; ty=ft
                else: off=off+i*self.dl.size(r.el); ty=r.el
        return Ptr(base.obj,simp(off))

    # ---------------------------------------------------------------- memory
    def tname(self,ty): return 'float' if ty.k=='float' else 'double' if ty.k=='double' else 'i%d'%ty.n if ty.k=='int' else ty.k
    def type_obj(self,st,o,ty):
        """first typed access to an untyped heap object"""
        o.elem=self.tname(ty); o.es=self.dl.size(ty)
        if o.n is None:
            o.n=div_exact(o.size,o.es)
            if o.n is None: o.n=simp(o.size/iv(o.es))
    def content(self,st,o):
        c=st.mem.get(o)
        if c is None:
            if o.kind=='cells':
                c=self.init_global(st,o) if hasattr(o,'gty') else {}
            else:
                f=z3.Function('mem!%s'%o.name,*([I]*o.nc),o.sort()); c=Base(f,o.nc)
            st.mem[o]=c
        return c
    def coords(self,st,o,off,ins,check=True,what='load'):
        """element coordinates of byte offset; records the bounds obligation"""
        e=div_exact(off,o.es)
        if e is None:
            e=fresh('el'); st.assume(e*o.es==off)   # misaligned accesses excluded by obligation
            self.oblige(st,off%o.es==0,'aligned access',ins)
        if o.ld is None:
            if check: self.oblige(st,AND(e>=0,e<o.n),'%s in bounds of %s'%(what,o.name),ins)
            return (simp(e),)
        e=self.eqnorm(st,e,o)
        sp=split_by(e,o.ld)
        if sp is None: raise Unsupported('2D split')
        c,r=sp
        if not self.valid(st,AND(r>=0,r<o.ld)):
            for c2,r2 in((simp(c-1),simp(r+o.ld)),(simp(c+1),simp(r-o.ld))):
                if self.valid(st,AND(r2>=0,r2<o.ld)): c,r=c2,r2; break
            else:
                if has_ite(e):
                    c,r=split_by(self.resolve_ite(st,e),o.ld)
                    if not self.valid(st,AND(r>=0,r<o.ld)):
                        for c2,r2 in((simp(c-1),simp(r+o.ld)),(simp(c+1),simp(r-o.ld))):
                            if self.valid(st,AND(r2>=0,r2<o.ld)): c,r=c2,r2; break
        if check:
            g=AND(r>=0,r<o.ld,c>=0,c<o.ncols)
            self.oblige(st,g,'%s in bounds of %s'%(what,o.name),ins)
        return (c,r)
    def eqnorm(self,st,e,o):
        """rewrite with the equalities between input variables known on this path, towards the variables of the object's shape"""
        sh=set(T.consts_of(o.ld))|set(T.consts_of(o.ncols))
        ce=[n for n in T.consts_of(e) if n not in sh]
        if not ce: return e
        m=[]
        for c in st.pc:
            for a in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(a) and z3.is_const(a.arg(0)) and z3.is_const(a.arg(1)) and a.arg(0).sort()==I:
                    for x,y in((a.arg(0),a.arg(1)),(a.arg(1),a.arg(0))):
                        if x.decl().name() in ce and y.decl().name() in sh: m.append((x,y))
        return simp(z3.substitute(e,*m)) if m else e
    def exactcv(self,st,ty,v,ins):
        if getattr(self.u,'exact_conv',False):
            m=(1<<24) if ty.k=='float' else (1<<53)
            self.oblige(st,AND(v<=m,v>=-m),'integer exactly representable as %s'%ty.k,ins)
    def floor(self,st,x):
        """greatest integer <= x; for x = a*sqrt(A)+b the defining inequalities are also stated without the root"""
        x=simp(x); i=r2i(x)
        if i is not None: return i
        p=to_poly(x)
        at=[m for m in p if m]
        if len(at)==1 and len(at[0])==1 and T.ATOMS[at[0][0]].decl().name()=='m_sqrt':
            sq=T.ATOMS[at[0][0]]; A=sq.arg(0); al=p[at[0]]; be=p.get((),Fraction(0)); Ai=r2i(A)
            if Ai is not None:
                n=z3.Int('floor!%s'%x.sexpr())
                st.assume(AND(z3.ToReal(n)<=x,x<z3.ToReal(n)+1))
                # e=(n+d-be)/al as a scaled integer: e = E/D with D>0
                D=(Fraction(1)/al).numerator if al>0 else 1
                def sc(d):
                    u=Fraction(1)/al; w=(d-be)*u      # e = u*n + w
                    den=u.denominator*w.denominator
                    return simp(iv(int(u*den))*n+iv(int(w*den))),den
                E1,d1=sc(0); E2,d2=sc(1)
                pre=Ai>=0
                if al>0: f=AND(z3.Implies(E1>=0,Ai*(d1*d1)>=E1*E1),E2>0,Ai*(d2*d2)<E2*E2,n>=_floorf(be))
                else: f=AND(E1>=0,Ai*(d1*d1)<=E1*E1,z3.Implies(E2>=0,Ai*(d2*d2)>E2*E2),n<=_floorf(be))
                st.assume(z3.Implies(pre,simp(f)))
                self.trusted.add('sqrt: s>=0 and s*s=x, used at the integer points next to it (lemma: for e>=0, s<e iff x<e*e)')
                return n
        return z3.ToInt(x)
    def resolve_ite(self,st,e):
        """case split on the conditions of the conditional subterms of e"""
        for _ in range(20):
            seen=set(); stk=[e]; it=None
            while stk:
                x=stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app_of(x,z3.Z3_OP_ITE) and not has_ite(x.arg(0)): it=x; break
                stk.extend(x.children())
            if it is None: return e
            d=self.decide(st,it.arg(0))
            e=simp(z3.substitute(e,(it,it.arg(1) if d else it.arg(2))))
        return e
    def simp_ite(self,st,e):
        """e without the case distinctions that the path condition decides"""
        for _ in range(12):
            done=True; seen=set(); stk=[e]
            while stk and done:
                x=stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app_of(x,z3.Z3_OP_ITE):
                    for c,v in((x.arg(0),x.arg(1)),(z3.Not(x.arg(0)),x.arg(2))):
                        if self.valid(st,c): e=simp(z3.substitute(e,(x,v))); done=False; break
                stk.extend(x.children())
            if done: break
        return e
    def null_check(self,st,p,ins):
        if isinstance(p,Undef): raise Unsupported('deref undef')
        if p.obj is None:
            self.oblige(st,z3.BoolVal(False),'null dereference',ins); raise PathDead()
        if p.obj.kind=='heap' and st.heap.get(p.obj)!='live':
            self.oblige(st,z3.BoolVal(False),'use after free of %s'%p.obj.name,ins); raise PathDead()
    def read(self,pc,node,p):
        """content read with the case distinctions that the path condition decides left out"""
        stack=[]
        while isinstance(node,Bulk):
            m=[(Q[i],p[i]) for i in range(node.nc)]
            c=simp(z3.substitute(node.cond,*m))
            if T.is_false(c): node=node.prev; continue
            v=z3.substitute(node.val,*m)
            if T.is_true(c): break
            if isinstance(node.prev,Bulk) or stack or not(z3.is_const(v)):
                if self.pv.valid(pc,z3.Not(c),False): node=node.prev; continue
                if self.pv.valid(pc,c,False): break
            stack.append((c,v)); node=node.prev
        else: v=node.read(p)
        while stack:
            c,w=stack.pop(); v=z3.If(c,w,v)
        return v
    def load(self,st,ty,p,ins):
        self.null_check(st,p,ins); o=p.obj
        c=self.content(st,o)
        if o.kind=='cells':
            off=T.as_int(p.off)
            if off is None: return self.cells_sym_load(st,o,p,ty,ins)
            if off in c:
                t,v=c[off]
                if t==ty or (t.k==ty.k and t.k in('ptr',)): return v
                return self.retype(st,v,t,ty)
            if ty.k=='struct' or ty.k=='array': return self.load_agg(st,ty,p,ins)
            # reading a part / whole of differently sized cells
            return self.cells_mixed(st,o,c,off,ty,ins)
        if o.es is None: self.type_obj(st,o,ty); c=st.mem.get(o) or self.content(st,o)
        if self.dl.size(ty)!=o.es: raise Unsupported('access size mismatch on %s: %r'%(o.name,ty))
        q=self.coords(st,o,p.off,ins,True,'load')
        v=self.read(st.pc,c,q)
        st.loads.append((o,q))
        if self.tname(ty)!=o.elem: return self.retype_arr(st,v,o.elem,ty)
        if ty.k=='int':
            v=simp(v)
            if not z3.is_int_value(v): st.assume(self.rng(st,v,ty.n))
            if ty.n==1: return v!=0
        return v
    def load_agg(self,st,ty,p,ins):
        t=self.dl.res(ty); out=[]
        if t.k=='struct':
            for i,e in enumerate(t.el):
                fo,ft=self.dl.field(ty,i); out.append(self.load(st,ft,Ptr(p.obj,simp(p.off+fo)),ins))
        else:
            for i in range(t.n): out.append(self.load(st,t.el,Ptr(p.obj,simp(p.off+i*self.dl.size(t.el))),ins))
        return out
    def store_agg(self,st,ty,v,p,ins):
        t=self.dl.res(ty)
        if isinstance(v,Undef): return
        if t.k=='struct':
            for i,e in enumerate(t.el):
                fo,ft=self.dl.field(ty,i); self.store(st,ft,v[i],Ptr(p.obj,simp(p.off+fo)),ins)
        else:
            for i in range(t.n): self.store(st,t.el,v[i],Ptr(p.obj,simp(p.off+i*self.dl.size(t.el))),ins)
    def cells_mixed(self,st,o,c,off,ty,ins):
        n=self.dl.size(ty)
        # little-endian composition of smaller integer cells / extraction from a larger one
        for co,(t,v) in c.items():
            s=self.dl.size(t)
            if co<=off and off+n<=co+s and t.k=='int' and ty.k=='int' and z3.is_expr(v):
                vv=v if t.n>1 else z3.If(v,iv(1),iv(0))
                u=self.unsigned(st,vv,t.n)
                x=simp((u/iv(1<<(8*(off-co))))%iv(1<<ty.n)) if ty.n>1 else simp((u/iv(1<<(8*(off-co))))%2)
                if ty.n==1: return x==1
                return simp(z3.If(x>=(1<<(ty.n-1)),x-(1<<ty.n),x))
        if ty.k=='int' and ty.n==64:
            ce=[c.get(off),c.get(off+4)]
            if any(x is not None and x[0]==INT(32) for x in ce) and all(x is None or x[0]==INT(32) for x in ce):
                return Packed(*[UNDEF if x is None else x[1] for x in ce])
        if ty.k=='int':
            acc=iv(0); pos=0; okk=True
            while pos<n:
                cell=c.get(off+pos)
                if cell is None: 
                    okk=False; break
                t,v=cell
                if isinstance(v,Undef): 
                    okk=False; break
                if t.k=='int': vv=v if t.n>1 else z3.If(v,iv(1),iv(0)); u=self.unsigned(st,vv,max(t.n,8))
                else: okk=False; break
                acc=acc+u*(1<<(8*pos)); pos+=self.dl.size(t)
            if okk and pos==n:
                x=simp(acc)
                return simp(z3.If(x>=(1<<(ty.n-1)),x-(1<<ty.n),x))
        if getattr(o,'symbolic',False):
            v=self.symcell(st,o,off,ty); return v
        self.notes.add('read of uninitialised stack cell %s+%d'%(o.name,off))
        return UNDEF
    def symcell(self,st,o,off,ty):
        if ty.k=='ptr': raise Unsupported('symbolic pointer cell %s+%d'%(o.name,off))
        s=R if ty.k in('float','double') else B if ty.n==1 else I
        v=z3.Const('cell!%s!%d!%s'%(o.name,off,ty),s)
        if s==I: st.assume(self.rng(st,v,ty.n))
        d=dict(st.mem[o]); d[off]=(ty,v); st.mem[o]=d
        return v
    def cells_sym_load(self,st,o,p,ty,ins):
        c=st.mem[o]; 
        offs=sorted(k for k,(t,v) in c.items() if t==ty and z3.is_expr(v))
        if not offs: raise Unsupported('symbolic offset into %s'%o.name)
        self.oblige(st,z3.Or(*[p.off==k for k in offs]),'load in bounds of %s'%o.name,ins)
        r=c[offs[-1]][1]
        for k in offs[:-1][::-1]: r=z3.If(p.off==k,c[k][1],r)
        return r
    def retype(self,st,v,t,ty):
        if isinstance(v,Undef): return v
        if t.k=='int' and ty.k=='int':
            if t.n==8 and ty.n==1: return simp(v%2==1)
            if t.n==1 and ty.n==8: return z3.If(v,iv(1),iv(0))
            if ty.n<t.n:
                w=strip_mod(v,1<<ty.n)
                if z3.is_app(w) and w.decl().name()=='fbits%d'%ty.n: return w
                u=self.unsigned(st,v,t.n); x=u%iv(1<<ty.n)
                return simp(z3.If(x>=(1<<(ty.n-1)),x-(1<<ty.n),x))
        if t.k in('float','double') and ty.k=='int': return self.fbits(st,v,ty.n)
        if t.k=='int' and ty.k in('float','double'): return self.unfbits(st,v,t.n)
        raise Unsupported('retype %r->%r'%(t,ty))
    def retype_arr(self,st,v,elem,ty):
        if elem in('float','double') and ty.k=='int': return self.fbits(st,v,ty.n)
        if elem=='i8' and ty.k=='int' and ty.n==1: return v!=0
        raise Unsupported('retype array %s->%r'%(elem,ty))
    ONE={32:0x3f800000,64:0x3ff0000000000000}
    def fbits(self,st,v,n):
        """bit pattern of a float, axiomatised on 0 and 1 (negative zero and NaN excluded)"""
        f=uf('fbits%d'%n,R,I)
        v=simp(v)
        if z3.is_app(v) and v.decl().name()=='unfbits%d'%n: return v.arg(0)
        if z3.is_rational_value(v):
            fr=Fraction(v.numerator_as_long(),v.denominator_as_long())
            if fr==0: return iv(0)
            if fr==1: return iv(self.ONE[n])
            import struct
            b=struct.unpack('<i' if n==32 else '<q',struct.pack('<f' if n==32 else '<d',float(fr)))[0]
            return iv(b)
        t=f(v); self.trusted.add('float bit patterns: axioms for +0.0, 1.0 and sign only (no -0.0, no NaN)')
        return t
    def unfbits(self,st,v,n):
        v=simp(v)
        if z3.is_app(v) and v.decl().name()=='fbits%d'%n: return v.arg(0)
        if z3.is_int_value(v):
            import struct
            x=v.as_long()
            d=struct.unpack('<f' if n==32 else '<d',struct.pack('<i' if n==32 else '<q',x))[0]
            if d==d and abs(d)!=float('inf'): return rv(Fraction(d))
        if z3.is_app_of(v,z3.Z3_OP_ITE): return z3.If(v.arg(0),self.unfbits(st,v.arg(1),n),self.unfbits(st,v.arg(2),n))
        t=uf('unfbits%d'%n,I,R)(v)
        return t
    def store(self,st,ty,v,p,ins):
        self.null_check(st,p,ins); o=p.obj
        if o.const: 
            self.oblige(st,z3.BoolVal(False),'write to read-only %s'%o.name,ins); raise PathDead()
        if isinstance(v,Packed):
            if o.kind=='cells' or o.es==4:
                for q,x in((0,v.lo),(4,v.hi)):
                    if not isinstance(x,Undef): self.store(st,INT(32),x,Ptr(o,simp(p.off+q)),ins)
                return
            v=self.unpack(st,v)
        c=self.content(st,o)
        if o.kind=='cells':
            off=T.as_int(p.off)
            if off is None: raise Unsupported('symbolic store offset into %s'%o.name)
            if ty.k in('struct','array'): return self.store_agg(st,ty,v,p,ins)
            n=self.dl.size(ty); d=dict(c)
            sz=T.as_int(o.size)
            if sz is not None and not(0<=off and off+n<=sz):
                self.oblige(st,z3.BoolVal(False),'store in bounds of %s'%o.name,ins); raise PathDead()
            for k in list(d):
                if k<off+n and off<k+self.dl.size(d[k][0]): del d[k]
            d[off]=(ty,v); st.mem[o]=d; return
        if o.es is None: self.type_obj(st,o,ty); c=self.content(st,o)
        if isinstance(v,Undef): 
            v=fresh('undef',o.sort())
        if self.dl.size(ty)!=o.es: raise Unsupported('store size mismatch on %s'%o.name)
        q=self.coords(st,o,p.off,ins,True,'store')
        if isinstance(v,Ptr): raise Unsupported('pointer stored into array')
        if self.tname(ty)!=o.elem:
            if o.elem in('float','double') and ty.k=='int': v=self.unfbits(st,v,ty.n)
            elif o.elem=='i8' and ty.k=='int' and ty.n==1: v=z3.If(v,iv(1),iv(0))
            elif o.elem=='i1': pass
            else: raise Unsupported('store type %r into %s'%(ty,o.elem))
        elif ty.k=='int' and ty.n==1: v=z3.If(v,iv(1),iv(0))
        st.mem[o]=store_node(c,q,v)

    # contiguous range of n elements at byte offset: list of boxes (bounds checked)
    def crange(self,st,o,off,n,ins,what):
        e=div_exact(off,o.es)
        if e is None: raise Unsupported('memop alignment')
        if o.ld is None:
            self.oblige(st,z3.Implies(n>0,AND(e>=0,e+n<=o.n)),'%s range in bounds of %s'%(what,o.name),ins)
            return ('1d',e)
        n0=n; n=self.eqnorm(st,n,o); e=self.eqnorm(st,e,o)
        if has_ite(n): n=self.resolve_ite(st,n)
        if has_ite(e): e=self.resolve_ite(st,e)
        c,r=split_by(e,o.ld)
        if T.as_int(r)!=0 and not self.valid(st,r>=0): 
            if self.valid(st,AND(r+o.ld>=0,r<0)): c,r=simp(c-1),simp(r+o.ld)
        m=div_exact(n,o.ld)
        if m is not None and T.as_int(r)==0 and T.as_int(m)!=1:
            self.oblige(st,z3.Implies(m>0,AND(c>=0,c+m<=o.ncols)),'%s range in bounds of %s'%(what,o.name),ins)
            return ('cols',c,m)
        if self.valid(st,z3.Implies(n>0,AND(r>=0,r+n<=o.ld))) or m is None or T.as_int(m)==1:
            self.oblige(st,z3.Implies(n>0,AND(r>=0,r+n<=o.ld,c>=0,c<o.ncols)),'%s range in bounds of %s'%(what,o.name),ins)
            return ('col',c,r)
        raise Unsupported('2D range')
    def memcpy(self,st,d,s,n,ins):
        n=simp(n)
        nn=T.as_int(n)
        if nn==0: return
        if d.obj is None or s.obj is None or isinstance(d,Undef):
            # zero-length copies with null pointers are harmless
            self.oblige(st,n==0,'memcpy with null pointer',ins); return
        self.null_check(st,d,ins); self.null_check(st,s,ins)
        if d.obj.const: self.oblige(st,z3.BoolVal(False),'write to read-only %s'%d.obj.name,ins); raise PathDead()
        if d.obj.kind=='cells' or s.obj.kind=='cells':
            if nn is None: raise Unsupported('memcpy cells symbolic size')
            return self.memcpy_cells(st,d,s,nn,ins)
        if d.obj.es is None and s.obj.es is None: raise Unsupported('untyped memcpy')
        for a,b in((d.obj,s.obj),(s.obj,d.obj)):
            if a.es is None:
                a.elem=b.elem; a.es=b.es; a.n=div_exact(a.size,a.es)
                if a.n is None: a.n=simp(a.size/iv(a.es))
        do,so=d.obj,s.obj
        if do.es!=so.es: raise Unsupported('memcpy elem sizes')
        conv=lambda v:v
        if do.elem!=so.elem:
            if do.elem in('float','double') and so.elem.startswith('i'): conv=lambda v:self.unfbits(st,v,so.es*8)
            elif so.elem in('float','double'): conv=lambda v:self.fbits(st,v,so.es*8)
        ne=div_exact(n,do.es)
        if ne is None: raise Unsupported('memcpy length %s'%n)
        self.oblige(st,ne>=0,'memcpy length nonnegative',ins)
        sc=self.content(st,so); dc=self.content(st,do)
        sr=self.crange(st,so,s.off,ne,ins,'memcpy read'); dr=self.crange(st,do,d.off,ne,ins,'memcpy write')
        if dr[0]=='1d':
            box=[(dr[1],simp(dr[1]+ne))]
            if sr[0]=='1d': v=sc.read((simp(Q[0]-dr[1]+sr[1]),)); st.loads.append((so,(sr[1],)))
            elif sr[0]=='col': v=sc.read((sr[1],simp(sr[2]+Q[0]-dr[1]))); st.loads.append((so,(sr[1],sr[2])))
            else:
                x=Q[0]-dr[1]; v=sc.read((simp(sr[1]+x/so.ld),simp(x%so.ld)))
        elif dr[0]=='col':
            box=[(dr[1],simp(dr[1]+1)),(dr[2],simp(dr[2]+ne))]
            x=Q[1]-dr[2]
            if sr[0]=='1d': v=sc.read((simp(sr[1]+x),))
            elif sr[0]=='col': v=sc.read((sr[1],simp(sr[2]+x))); st.loads.append((so,(sr[1],sr[2])))
            else: v=sc.read((sr[1],simp(x)))
        else:
            box=[(dr[1],simp(dr[1]+dr[2])),(iv(0),do.ld)]
            if sr[0]=='1d': v=sc.read((simp(sr[1]+(Q[0]-dr[1])*do.ld+Q[1]),))
            elif sr[0]=='cols' and (simp(so.ld-do.ld).eq(iv(0)) or self.valid(st,so.ld==do.ld)): v=sc.read((simp(sr[1]+Q[0]-dr[1]),Q[1]))
            else: raise Unsupported('memcpy shape')
        cond=AND(*[AND(Q[i]>=lo,Q[i]<hi) for i,(lo,hi) in enumerate(box)])
        st.mem[do]=Bulk(dc,cond,conv(v),do.nc,box)
    def memcpy_cells(self,st,d,s,nn,ins):
        if s.obj.kind=='cells' and d.obj.kind=='cells':
            so,do=T.as_int(s.off),T.as_int(d.off)
            if so is None or do is None: raise Unsupported('memcpy cells offset')
            sc=self.content(st,s.obj); dd=dict(self.content(st,d.obj))
            for k in list(dd):
                if do<=k<do+nn: del dd[k]
            for k,(t,v) in sc.items():
                if so<=k and k+self.dl.size(t)<=so+nn: dd[k-so+do]=(t,v)
                elif k<so+nn and so<k+self.dl.size(t):
                    # partial overlap: split integers
                    if t.k=='int' and z3.is_expr(v):
                        raise Unsupported('partial cell copy')
            st.mem[d.obj]=dd; return
        # between array element(s) and cells
        if s.obj.kind=='cells':
            if d.obj.es is None: raise Unsupported('memcpy cells->untyped')
            for i in range(nn//d.obj.es):
                so=T.as_int(s.off)+i*d.obj.es
                c=self.content(st,s.obj)
                if so not in c: raise Unsupported('memcpy cells missing')
                t,v=c[so]; self.store(st,t,v,Ptr(d.obj,simp(d.off+i*d.obj.es)),ins)
            return
        ty={'float':FLOAT,'double':DOUBLE}.get(s.obj.elem) or INT(s.obj.es*8)
        for i in range(nn//s.obj.es):
            v=self.load(st,ty,Ptr(s.obj,simp(s.off+i*s.obj.es)),ins)
            self.store(st,ty,v,Ptr(d.obj,simp(d.off+i*s.obj.es)),ins)
    def memset(self,st,d,b,n,ins):
        n=simp(n); nn=T.as_int(n)
        if nn==0: return
        self.null_check(st,d,ins); o=d.obj
        if o.const: self.oblige(st,z3.BoolVal(False),'write to read-only %s'%o.name,ins); raise PathDead()
        bv=T.as_int(b) if z3.is_expr(b) else None
        if o.kind=='cells':
            off=T.as_int(d.off)
            if nn is None or off is None or bv is None: raise Unsupported('memset cells')
            dd=dict(self.content(st,o))
            for k in list(dd):
                if off<=k<off+nn: del dd[k]
            ty=getattr(o,'aty',None)
            bb=bv-256 if bv>127 else bv
            for i in range(nn): dd[off+i]=(INT(8),iv(bb))
            # typed zeros for pointer/float fields of the object
            if bv==0 and ty is not None:
                def walk(t,base):
                    r=self.dl.res(t)
                    if r.k=='struct':
                        for i in range(len(r.el)):
                            fo,ft=self.dl.field(t,i); walk(ft,base+fo)
                    elif r.k=='array':
                        for i in range(r.n): walk(r.el,base+i*self.dl.size(r.el))
                    elif off<=base and base+self.dl.size(t)<=off+nn:
                        for j in range(self.dl.size(t)): dd.pop(base+j,None)
                        dd[base]=(t,self.val(st,t,('zero',)))
                walk(ty,0)
            st.mem[o]=dd; return
        if o.es is None:
            raise Unsupported('memset on untyped heap')
        ne=div_exact(n,o.es)
        if ne is None: raise Unsupported('memset length')
        if bv is None and o.es!=1: raise Unsupported('memset value')
        if o.elem in('float','double'):
            if bv!=0: raise Unsupported('memset float nonzero')
            v=rv(0)
        elif o.es==1: v=b
        else:
            x=0
            for _ in range(o.es): x=(x<<8)|(bv&255)
            if x>=1<<(8*o.es-1): x-=1<<(8*o.es)
            v=iv(x)
        self.oblige(st,ne>=0,'memset length nonnegative',ins)
        dc=self.content(st,o); dr=self.crange(st,o,d.off,ne,ins,'memset')
        if dr[0]=='1d': box=[(dr[1],simp(dr[1]+ne))]
        elif dr[0]=='col': box=[(dr[1],simp(dr[1]+1)),(dr[2],simp(dr[2]+ne))]
        else: box=[(dr[1],simp(dr[1]+dr[2])),(iv(0),o.ld)]
        cond=AND(*[AND(Q[i]>=lo,Q[i]<hi) for i,(lo,hi) in enumerate(box)])
        st.mem[o]=Bulk(dc,cond,v,o.nc,box)

    # ---------------------------------------------------------------- instructions
    def step(self,f,st,ins):
        op=ins.op; ty=ins.ty
        V=lambda t,x:self.val(st,t,x)
        if op in BIN:
            a=V(ty,ins.a[0]); b=V(ty,ins.a[1]); self.defer=None
            if 'nsw' in ins.flags and ins.res in sel_only(f): self.defer=[]
            st.env[ins.res]=self.binop(st,ins,ty,op,a,b)
            if self.defer: st.env['poison '+ins.res]=self.defer[0]
            self.defer=None; return
        if op=='fneg': st.env[ins.res]=simp(-V(ty,ins.a[0])); return
        if op=='icmp':
            a=V(ty,ins.a[0]); b=V(ty,ins.a[1]); st.env[ins.res]=self.icmp(st,ins,ty,a,b); return
        if op=='fcmp':
            a=V(ty,ins.a[0]); b=V(ty,ins.a[1]); p=ins.extra
            if isinstance(a,Undef) or isinstance(b,Undef): raise Unsupported('fcmp undef')
            if p in('ord',): r=z3.BoolVal(True)
            elif p=='uno': r=z3.BoolVal(False)
            else:
                r={'eq':a==b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b,'ne':a!=b}[p[1:]] if p not in('true','false') else z3.BoolVal(p=='true')
            st.env[ins.res]=simp(r); return
        if op in CAST: st.env[ins.res]=self.cast(st,ins,op,ins.extra,ty,V(ins.extra,ins.a[0])); return
        if op=='select':
            c=V(INT(1),ins.a[0]); a=V(ty,ins.a[1]); b=V(ty,ins.a[2])
            for w,cc in((ins.a[1],c),(ins.a[2],None)):
                ps=st.env.get('poison '+str(w[1])) if w[0]=='v' else None
                if ps: self.oblige(st,z3.Implies(c if cc is not None else z3.Not(c),ps[0]),'no signed overflow',ps[1],assume=False)
            st.env[ins.res]=self.select(st,c,a,b); return
        if op=='alloca':
            t=self.dl.res(ty); st.depth+=1
            nm='%s.%s.%d'%(f.name[1:40],ins.res[1:],next(T._cnt))
            o=Obj(nm,'cells',iv(self.dl.size(ty))); o.aty=ty
            if ins.extra is not None:
                n=T.as_int(V(*ins.extra[0:2]) if isinstance(ins.extra,tuple) else None)
                if n!=1: raise Unsupported('dynamic alloca')
            st.mem[o]={}; st.env[ins.res]=Ptr(o,iv(0)); return
        if op=='load':
            p=V(PTR,ins.a[0])
            if ty.k in('struct','array'): st.env[ins.res]=self.load_agg(st,ty,p,ins)
            else: st.env[ins.res]=self.load(st,ty,p,ins)
            return
        if op=='store':
            p=V(PTR,ins.a[1]); v=V(ty,ins.a[0])
            self.store(st,ty,v,p,ins); return
        if op=='gep':
            base=V(PTR,ins.a[0]); idx=[(t,V(t,x)) for t,x in ins.extra]
            st.env[ins.res]=self.gep(st,ty,base,idx); return
        if op=='extractvalue':
            v=V(ty,ins.a[0])
            for i in ins.extra: v=v[i] if not isinstance(v,Undef) else v
            st.env[ins.res]=v; return
        if op=='insertvalue':
            import copy
            v=V(ty,ins.a[0]); et,idx=ins.extra; x=V(et,ins.a[1])
            def mk(t,v,idx):
                r=self.dl.res(t)
                n=len(r.el) if r.k=='struct' else r.n
                v=list(v) if isinstance(v,list) else [UNDEF]*n
                if len(idx)==1: v[idx[0]]=x
                else: v[idx[0]]=mk(r.el[idx[0]] if r.k=='struct' else r.el,v[idx[0]],idx[1:])
                return v
            st.env[ins.res]=mk(ty,v,idx); return
        if op=='freeze':
            st.env[ins.res]=V(ty,ins.a[0]); return
        raise Unsupported('instr %s %s'%(op,ins.extra if op=='unsup' else ''))

    def boolish(self,e):
        e=simp(e)
        if z3.is_int_value(e) and e.as_long() in(0,1): return z3.BoolVal(e.as_long()==1)
        if z3.is_app_of(e,z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
            a,b=e.arg(1).as_long(),e.arg(2).as_long()
            if (a,b)==(1,0): return e.arg(0)
            if (a,b)==(0,1): return simp(z3.Not(e.arg(0)))
        return None
    def unpack(self,st,x):
        if not isinstance(x,Packed): return x
        if isinstance(x.lo,Undef) or isinstance(x.hi,Undef): return UNDEF
        return simp(self.unsigned(st,x.lo,32)+x.hi*(1<<32))
    def as_lo(self,st,x):
        """x viewed as an i64 with zero upper half: its low 32 bits as signed i32, or None"""
        if isinstance(x,Undef): return UNDEF
        if isinstance(x,Packed): return None
        z=self.zx.get(x.get_id())
        if z is not None and (z[0] is x or z[0].eq(x)): return z[1]
        n=T.as_int(x)
        if n is not None and 0<=n<(1<<32): return iv(n if n<(1<<31) else n-(1<<32))
        return None
    def binop(self,st,ins,ty,op,a,b):
        if ty.k=='int' and ty.n==64:
            if op=='shl' and T.as_int(b)==32 and not isinstance(a,Packed):
                lo=self.as_lo(st,a)
                if lo is not None: return Packed(iv(0),lo)
            if op in('or','add') and (isinstance(a,Packed) or isinstance(b,Packed)):
                x,y=(a,b) if isinstance(a,Packed) else (b,a)
                if isinstance(y,Undef): y=Packed(UNDEF,iv(0)) if T.as_int(x.lo)==0 else Packed(iv(0),UNDEF)
                lo=y if isinstance(y,Packed) else None
                if lo is None:
                    l=self.as_lo(st,y)
                    if l is not None: lo=Packed(l,iv(0))
                def cmb(u,w):
                    if not isinstance(u,Undef) and T.as_int(u)==0: return w
                    if not isinstance(w,Undef) and T.as_int(w)==0: return u
                    return None
                if lo is not None:
                    r=Packed(cmb(x.lo,lo.lo),cmb(x.hi,lo.hi))
                    if r.lo is not None and r.hi is not None: return r
            if op=='or' and isinstance(a,Undef)!=isinstance(b,Undef):
                l=self.as_lo(st,b if isinstance(a,Undef) else a)
                if l is not None: return Packed(l,UNDEF)
            if op=='lshr' and isinstance(a,Packed) and T.as_int(b)==32:
                if isinstance(a.hi,Undef): return UNDEF
                u=self.unsigned(st,a.hi,32); self.zx[u.get_id()]=(u,a.hi); return u
            if op=='and' and isinstance(a,Packed) and not isinstance(b,Packed):
                m=T.as_int(b)
                if m==(1<<32)-1:
                    if isinstance(a.lo,Undef): return UNDEF
                    u=self.unsigned(st,a.lo,32); self.zx[u.get_id()]=(u,a.lo); return u
                if m==-(1<<32): return Packed(iv(0),a.hi)
            a=self.unpack(st,a); b=self.unpack(st,b)
        if isinstance(a,Undef) or isinstance(b,Undef):
            if op in('and','or','xor'): return UNDEF
            raise Unsupported('%s on undef'%op)
        if op in('fadd','fsub','fmul','fdiv'):
            if op=='fadd': return simp(a+b)
            if op=='fsub': return simp(a-b)
            if op=='fmul': return simp(a*b)
            return simp(T.rdiv(a,b))
        if op=='frem': raise Unsupported('frem')
        n=ty.n
        if n==1:
            r={'and':z3.And(a,b),'or':z3.Or(a,b),'xor':z3.Xor(a,b),'add':z3.Xor(a,b),'mul':z3.And(a,b)}.get(op)
            if r is None: raise Unsupported('i1 '+op)
            return simp(r)
        nsw='nsw' in ins.flags
        if op=='add': return self.wrap(st,a+b,n,ins,nsw)
        if op=='sub': return self.wrap(st,a-b,n,ins,nsw)
        if op=='mul': return self.wrap(st,a*b,n,ins,nsw)
        bi=T.as_int(b); ai=T.as_int(a)
        if op=='shl':
            if bi is None: raise Unsupported('shl var')
            return self.wrap(st,a*(1<<bi),n,ins,nsw)
        if op in('sdiv','udiv','srem','urem'):
            if has_ite(b): b=self.simp_ite(st,b)
            self.oblige(st,b!=0,'no division by zero',ins)
            if op[0]=='u': a=self.unsigned(st,a,n); b=self.unsigned(st,b,n)
            if op in('sdiv','udiv'):
                x=div_exact(a,b)
                if x is not None and self.valid(st,b!=0): return x
            if op in('sdiv','udiv') and T.as_int(b) in(2,3,4,6,8) and not has_ite(a) and always_div(a,T.as_int(b)):
                q=z3.Int('quot!%d!%s'%(T.as_int(b),simp(a).sexpr())); st.assume(q*b==a); return q
            pos=op[0]=='u' or (self.valid(st,a>=0) and self.valid(st,b>0))
            if pos: q=a/b; r=a%b
            else:
                aa=z3.If(a<0,-a,a); ab=z3.If(b<0,-b,b)
                q=z3.If((a<0)!=(b<0),-(aa/ab),aa/ab); r=z3.If(a<0,-(aa%ab),aa%ab)
            x=q if op in('sdiv','udiv') else r
            if op[0]=='u': return self.wrap(st,x,n,ins)
            return simp(x)
        if op in('lshr','ashr'):
            if bi is None: raise Unsupported('shift var')
            if op=='lshr': a=self.unsigned(st,a,n)
            x=div_exact(a,iv(1<<bi))
            return x if x is not None else simp(a/iv(1<<bi))
        # bitwise
        if ai is not None and bi is not None:
            return iv({'and':ai&bi,'or':ai|bi,'xor':ai^bi}[op])
        ba,bb=self.boolish(a),self.boolish(b)
        if ba is not None and bb is not None:
            r={'and':z3.And(ba,bb),'or':z3.Or(ba,bb),'xor':z3.Xor(ba,bb)}[op]
            return simp(z3.If(r,iv(1),iv(0)))
        w=flagop(op,a,b,n)
        if w is not None: return w
        if op=='and':
            for x,m in((a,bi),(b,ai)):
                if m is None: continue
                if m>=0 and (m&(m+1))==0: return simp(self.unsigned(st,x,n)%iv(m+1))
                if m<0 and ((-m)&(-m-1))==0: return simp(x-x%iv(-m))
                if m==1: return simp(x%2)
                if m>0 and (m&(m-1))==0: return simp(((x/iv(m))%2)*m)
            for x,y in((ba,b),(bb,a)):
                if x is not None: return simp(z3.If(x,y%2,iv(0)))
        if op=='xor' and (bi==-1 or ai==-1): return simp(-1-(a if bi==-1 else b))
        if op in('or','xor') :
            if ai==0: return b
            if bi==0: return a
        if op=='or':
            # bool | int used as flags accumulators
            f=uf('bitor%d'%n,I,I,I); x,y=(a,b) if a.get_id()<b.get_id() else (b,a)
            t=f(x,y); st.assume(AND((t==0)==z3.And(x==0,y==0),self.rng(st,t,n),z3.Implies(z3.And(x>=0,y>=0),z3.And(t>=x,t>=y,t<=x+y)),z3.Implies(x==y,t==x),z3.Implies(x==0,t==y),z3.Implies(y==0,t==x)))
            self.trusted.add('bitwise or: axioms only for zero/equality/ordering')
            return t
        raise Unsupported('bitwise %s'%op)

    def select(self,st,c,a,b):
        if isinstance(c,Undef): raise Unsupported('select undef')
        c=simp(c)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isinstance(a,Undef) and isinstance(b,Undef): return a
        if isinstance(a,Undef) or isinstance(b,Undef): return a if self.decide(st,c) else b
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj: return Ptr(a.obj,simp(z3.If(c,a.off,b.off)))
            return a if self.decide(st,c) else b
        if isinstance(a,Packed) and isinstance(b,Packed): return Packed(self.select(st,c,a.lo,b.lo),self.select(st,c,a.hi,b.hi))
        if isinstance(a,(list,FnPtr,Packed)) or isinstance(b,Packed): return a if self.decide(st,c) else b
        return simp(z3.If(c,a,b))

    def icmp(self,st,ins,ty,a,b):
        p=ins.extra; a=self.unpack(st,a); b=self.unpack(st,b)
        if isinstance(a,Undef) or isinstance(b,Undef): raise Unsupported('icmp undef')
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            if isinstance(a,FnPtr) and isinstance(b,FnPtr): e=a.name==b.name
            else: e=False
            return z3.BoolVal(e if p=='eq' else not e)
        if isinstance(a,Ptr):
            if a.obj is b.obj: x,y=a.off,b.off
            elif p in('eq','ne'):
                # different objects (or null) never compare equal
                return z3.BoolVal(p=='ne')
            elif a.obj is None or b.obj is None:
                x,y=self.p2i(a),self.p2i(b)
                for o in(a.obj,b.obj):
                    if o is not None: st.assume(o.addr>0)
            else:
                x,y=self.p2i(a),self.p2i(b)
            r={'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p]
            return simp(r)
        if ty.k=='int' and ty.n==1:
            return simp(a==b) if p=='eq' else simp(a!=b) if p=='ne' else self._i1cmp(a,b,p)
        if p in('ult','ule','ugt','uge'):
            a=self.unsigned(st,a,ty.n); b=self.unsigned(st,b,ty.n); p='s'+p[1:]
        return simp({'eq':a==b,'ne':a!=b,'slt':a<b,'sle':a<=b,'sgt':a>b,'sge':a>=b}[p])
    def _i1cmp(self,a,b,p):
        x=z3.If(a,iv(1),iv(0)); y=z3.If(b,iv(1),iv(0))
        if p[0]=='s': x=-x; y=-y
        return simp({'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[p[1:]])

    def cast(self,st,ins,op,t,ty,v):
        if isinstance(v,Undef): return v
        if isinstance(v,Packed):
            if op=='trunc' and ty.n==32: return v.lo
            v=self.unpack(st,v)
            if isinstance(v,Undef): return v
        if op=='sext':
            if t.n==1: return simp(z3.If(v,iv(-1),iv(0)))
            return v
        if op=='zext':
            if t.n==1: return simp(z3.If(v,iv(1),iv(0)))
            u=self.unsigned(st,v,t.n)
            if t.n==32 and ty.n==64: self.zx[u.get_id()]=(u,v)
            return u
        if op=='trunc':
            if ty.n==1:
                b=self.boolish(v)
                if b is not None: return b
                return simp(v%2==1)
            return self.wrap(st,v,ty.n,ins,False)
        if op in('fpext','fptrunc'):
            return v
        if op=='sitofp':
            if t.n==1: return simp(z3.If(v,rv(-1),rv(0)))
            b=self.boolish(v)
            if b is not None and not z3.is_int_value(simp(v)): return simp(z3.If(b,rv(1),rv(0)))
            self.exactcv(st,ty,v,ins)
            return simp(z3.ToReal(v))
        if op=='uitofp':
            if t.n==1: return simp(z3.If(v,rv(1),rv(0)))
            b=self.boolish(v)
            if b is not None and not z3.is_int_value(simp(v)): return simp(z3.If(b,rv(1),rv(0)))
            self.exactcv(st,ty,self.unsigned(st,v,t.n),ins)
            return simp(z3.ToReal(self.unsigned(st,v,t.n)))
        if op=='fptrunc' and getattr(self.u,'exact_conv',False):
            self.oblige(st,z3.BoolVal(False),'no narrowing of floating-point values',ins)
        if op in('fptosi','fptoui'):
            v=simp(v)
            x=r2i(v)
            if x is None: x=z3.If(v>=0,self.floor(st,v),-self.floor(st,-v))
            lo,hi=(-(1<<(ty.n-1)),(1<<(ty.n-1))-1)
            self.oblige(st,AND(x>=lo,x<=hi) if op=='fptosi' else AND(x>=0,x<(1<<ty.n)),'float to integer in range',ins)
            if op=='fptoui': return self.wrap(st,x,ty.n,ins)
            return simp(x)
        if op=='ptrtoint': return self.p2i(v)
        if op=='inttoptr':
            v=simp(v)
            p=to_poly(v)
            for o in list(st.mem):
                a=o.addr
                T.ATOMS[a.get_id()]=a
                if (a.get_id(),) in p: return Ptr(o,simp(v-a))
            n=T.as_int(v)
            if n is not None: return Ptr(None,iv(n))
            raise Unsupported('inttoptr')
        if op=='bitcast':
            if t.k in('float','double') and ty.k=='int': return self.fbits(st,v,ty.n)
            if t.k=='int' and ty.k in('float','double'): return self.unfbits(st,v,t.n)
            return v
        raise Unsupported(op)

    # ---------------------------------------------------------------- calls
    MATH1={'exp','log','sqrt','log1p','expm1','sin','cos','tan','tanh','cbrt','erf','log2','exp2','log10','lgamma','sinh','cosh','atan'}
    def call(self,f,st,ins):
        """returns list of (state) after the call; result bound in env"""
        k,cal=ins.extra['callee']; args=ins.extra['args']
        if k=='local':
            v=st.env.get(cal)
            if isinstance(v,FnPtr): cal=v.name
            else: raise Unsupported('indirect call %s'%ins.line[:80])
        elif k!='glob': raise Unsupported('call %r'%(cal,))
        name=cal[1:].strip('"')
        def A(i): return self.val(st,*args[i])
        def ret(v):
            if ins.res: st.env[ins.res]=v
            return [st]
        h=self.u.handlers.get(name) if self.u is not None else None
        if h is None and self.u is not None:
            for pat,hh in self.u.pat_handlers:
                if re.search(pat,name): h=hh; break
        if h is not None:
            r=h(self,st,[self.val(st,*a) for a in args],ins)
            if isinstance(r,list): 
                return r
            return ret(r)
        if cal in self.m.funcs:
            return self.call_inline(st,cal,[self.val(st,*a) if a[0].k!='metadata' else None for a in args],ins)
        if name.startswith('llvm.'):
            b=name[5:]
            if b.startswith(('lifetime','dbg','experimental.noalias','donothing','prefetch','stacksave','stackrestore')): return ret(UNDEF)
            if b.startswith('assume'):
                return [st]
            if b.startswith('memcpy') or b.startswith('memmove'):
                self.memcpy(st,A(0),A(1),A(2),ins); return [st]
            if b.startswith('memset'): self.memset(st,A(0),A(1),A(2),ins); return [st]
            if b.startswith('fabs'): x=A(0); return ret(simp(z3.If(x<0,-x,x)))
            if b.startswith('smax'): x,y=A(0),A(1); return ret(simp(z3.If(x>y,x,y)))
            if b.startswith('smin'): x,y=A(0),A(1); return ret(simp(z3.If(x<y,x,y)))
            if b.startswith(('maxnum','minnum')):
                x,y=A(0),A(1); return ret(simp(z3.If(x>y,x,y) if b.startswith('max') else z3.If(x<y,x,y)))
            if b.startswith('abs.'): x=A(0); return ret(simp(z3.If(x<0,-x,x)))
            if b.startswith('fmuladd') or b.startswith('fma.'):
                return ret(simp(A(0)*A(1)+A(2)))
            mm=re.match(r'(exp|log|sqrt|sin|cos|exp2|log2|log10)\.f',b)
            if mm: return ret(self.math1(st,mm.group(1),A(0),ins))
            if b.startswith('pow.'): return ret(uf('m_pow',R,R,R)(A(0),A(1)))
            if b.startswith('floor.'): return ret(z3.ToReal(self.floor(st,A(0))))
            if b.startswith('ceil.'): return ret(simp(-z3.ToReal(self.floor(st,-A(0)))))
            if b.startswith('expect'): return ret(A(0))
            if b.startswith('is.constant'): return ret(z3.BoolVal(False))
            if b.startswith('objectsize'): return ret(iv(-1))
            if b.startswith('trap'): 
                self.oblige(st,z3.BoolVal(False),'trap reached',ins); raise PathDead()
            mm=re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)',b)
            if mm:
                n=int(mm.group(3)); x,y=A(0),A(1)
                if mm.group(1)=='u': x,y=self.unsigned(st,x,n),self.unsigned(st,y,n); lo,hi=0,(1<<n)-1
                else: lo,hi=-(1<<(n-1)),(1<<(n-1))-1
                r={'add':x+y,'sub':x-y,'mul':x*y}[mm.group(2)]
                ov=simp(z3.Or(r<lo,r>hi))
                d=self.decided(st,ov)
                if d is not None: ov=z3.BoolVal(d)
                if d is False and mm.group(1)=='s': return ret([simp(r),ov])
                return ret([self.wrap(st,r,n,ins),ov])
            if b=='x86.sse.stmxcsr':
                v=iv(0x1f80); self.store(st,IR.Ty('int',32),v,A(0),ins); return [st]
            if b=='x86.sse.ldmxcsr': return [st]
            raise Unsupported('intrinsic %s'%name)
        base=name[:-1] if name.endswith('f') and name[:-1] in self.MATH1|{'pow','fabs','floor','ceil','nextafter','round','fmax','fmin'} else name
        if base in self.MATH1: return ret(self.math1(st,base,A(0),ins))
        if base=='fabs': x=A(0); return ret(simp(z3.If(x<0,-x,x)))
        if base=='floor': return ret(z3.ToReal(self.floor(st,A(0))))
        if base=='ceil': return ret(simp(-z3.ToReal(self.floor(st,-A(0)))))
        if base=='round': x=A(0); return ret(z3.If(x>=0,z3.ToReal(z3.ToInt(x+rv(Fraction(1,2)))),-z3.ToReal(z3.ToInt(-x+rv(Fraction(1,2))))))
        if base in('fmax','fmin'): x,y=A(0),A(1); return ret(simp(z3.If(x>y,x,y) if base=='fmax' else z3.If(x<y,x,y)))
        if base=='pow': return ret(uf('m_pow',R,R,R)(A(0),A(1)))
        if base=='nextafter': return ret(uf('m_nextafter',R,R,R)(A(0),A(1)))
        if name in('malloc','aligned_alloc','_mm_malloc','_aligned_malloc','vp_amalloc','_Znwm','_Znam','_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t'):
            sz=A(1) if name=='aligned_alloc' else A(0)
            return self.malloc(st,sz,ins,name in('_Znwm','_Znam'))
        if name=='posix_memalign':
            p=A(0); out=[]
            ok=st; bad=st.copy()
            o=self.heap_obj(ok,A(2)); self.store(ok,PTR,Ptr(o,iv(0)),p,ins); ok.env[ins.res]=iv(0); ok.events.append(('malloc',Ptr(o,iv(0))))
            out.append(ok)
            if self.u.alloc_may_fail:
                bad.env[ins.res]=iv(12); bad.events.append(('malloc_failed',)); out.append(bad)
            return out
        if name in('free','_aligned_free','_mm_free','vp_afree','_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm'):
            p=A(0)
            if p.obj is None: return [st]
            if p.obj.kind!='heap':
                self.oblige(st,z3.BoolVal(False),'free of memory not owned (%s)'%p.obj.name,ins); raise PathDead()
            if st.heap.get(p.obj)!='live':
                self.oblige(st,z3.BoolVal(False),'double free of %s'%p.obj.name,ins); raise PathDead()
            self.oblige(st,p.off==0,'free of the start of the block',ins)
            st.heap[p.obj]='freed'; st.events.append(('free',p))
            return [st]
        if name=='memcmp':
            p,q,n=A(0),A(1),A(2)
            self.null_check(st,p,ins); self.null_check(st,q,ins)
            nn=T.as_int(simp(n))
            if nn is not None and 'cells' in(p.obj.kind,q.obj.kind):
                e=[]; w=4 if nn%4==0 else 1
                for i in range(0,nn,w): e.append(self.load(st,INT(8*w),Ptr(p.obj,simp(p.off+i)),ins)==self.load(st,INT(8*w),Ptr(q.obj,simp(q.off+i)),ins))
                r=fresh('memcmp'); st.assume(AND(self.rng(st,r,32),(r==0)==AND(*e))); self.trusted.add('memcmp(a,b,n)==0 iff the n bytes are equal')
                return ret(r)
            ne=div_exact(n,p.obj.es or 1)
            if ne is None or p.obj.es!=q.obj.es: raise Unsupported('memcmp')
            self.crange(st,p.obj,p.off,ne,ins,'memcmp'); self.crange(st,q.obj,q.off,ne,ins,'memcmp')
            if not(isinstance(st.mem[p.obj],Base) and isinstance(st.mem[q.obj],Base)): raise Unsupported('memcmp of modified memory')
            e=self.memeq(p.obj,p.off,q.obj,q.off,n); r=fresh('memcmp'); st.assume(AND(self.rng(st,r,32),(r==0)==e))
            self.trusted.add('memcmp(a,b,n)==0 iff the n bytes are equal')
            return ret(r)
        if name in('memcpy','memmove'): self.memcpy(st,A(0),A(1),A(2),ins); return ret(A(0))
        if name=='memset': self.memset(st,A(0),A(1),A(2),ins); return ret(A(0))
        if name in('ldiv','lldiv'):
            a,b=A(0),A(1)
            self.oblige(st,AND(a>=0,b>0),'ldiv operands in the modelled range',ins)
            x=div_exact(a,b)
            if x is not None: return ret([x,iv(0)])
            q,r=fresh('quot'),fresh('rem')
            st.assume(AND(a==q*b+r,r>=0,r<b,q>=0,q<=a))
            return ret([q,r])
        if name in('abort','_ZSt9terminatev','__clang_call_terminate','exit','__cxa_throw','_ZSt20__throw_length_errorPKc','_ZSt17__throw_bad_allocv','_ZSt28__throw_bad_array_new_lengthv'):
            ab=getattr(self.u,'abort_cond',None) if name=='abort' else None
            self.oblige(st,z3.BoolVal(False) if ab is None else ab,'%s reached'%name,ins); raise PathDead()
        if name in('vp_print',): return [st]
        if name=='vp_split':
            a,b=A(0),A(1); m=fresh('split'); self.oblige(st,a+1<b,'partition point exists',ins); st.assume(AND(m>a,m<b)); return ret(m)
        raise Unsupported('external %s'%name)
    def memeq(self,o1,f1,o2,f2,n):
        if o1.name>o2.name: o1,f1,o2,f2=o2,f2,o1,f1
        return uf('memeq!%s!%s'%(o1.name,o2.name),I,I,I,B)(simp(f1),simp(f2),simp(n))
    def math1(self,st,name,x,ins):
        x=simp(x)
        f=uf('m_'+name,R,R); t=f(x)
        if name=='exp':
            if z3.is_rational_value(x) and x.numerator_as_long()==0: return rv(1)
        if name=='sqrt':
            self.oblige(st,x>=0,'sqrt of a nonnegative number',ins,assume=False) if getattr(self.u,'check_sqrt',False) else None
            if z3.is_rational_value(x) and x.as_fraction() in(0,1): return x
        if name=='log' and z3.is_rational_value(x) and x.as_fraction()==1: return rv(0)
        if name=='log1p': return uf('m_log',R,R)(simp(1+x))
        if name=='expm1': return simp(uf('m_exp',R,R)(x)-1)
        return t
    def heap_obj(self,st,size,name=None):
        o=Obj(name or 'heap%d'%next(T._cnt),'heap',simp(size)); st.heap[o]='live'; st.events.append(('alloc',Ptr(o,iv(0)),simp(size)))
        t=getattr(self.u,'heap_type',None)
        if t:
            o.elem,o.es=t[0],t[1]
            for ld in (t[2] if len(t)>2 and t[2] is not None else []):   # 2D view of heap blocks: ld
                ne=div_exact(o.size,o.es)
                m=div_exact(ne,ld) if ne is not None else None
                if m is not None: o.ld=ld; o.ncols=m; break
            o.n=div_exact(o.size,o.es)
            if o.n is None: o.n=simp(o.size/iv(o.es))
        else: 
            o.elem=None
        return o
    def malloc(self,st,size,ins,nothrow_never_null=False):
        bad=st.copy()
        o=self.heap_obj(st,size); st.env[ins.res]=Ptr(o,iv(0)); out=[st]
        if self.u.alloc_may_fail and not nothrow_never_null:
            bad.env[ins.res]=NULL; bad.events.append(('malloc_failed',)); out.append(bad)
        return out
    def call_inline(self,st,cal,argv,ins):
        f=get_func(self.m,cal)
        if len(getattr(self,'stack',[]))>40: raise Unsupported('call depth')
        saved=st.env; self.stack=getattr(self,'stack',[])+[cal]
        st.env={}
        for (pn,pt),v in zip(f.params,argv): st.env[pn]=v
        try:
            if not hasattr(f,'loops'): find_loops(f)
            be,ex,rets=self.region(f,[(f.order[0],None,st)],None,None)
        finally: self.stack=self.stack[:-1]
        out=[]
        for s,v in rets:
            s.env=dict(saved)
            if ins.res: s.env[ins.res]=v
            out.append(s)
        return out

    # ---------------------------------------------------------------- region execution
    def region(self,f,starts,inside,header):
        """symbolically execute from starts. inside/header: loop body mode. returns (backedges, exits, rets)"""
        work=[]; be=[]; ex=[]; rets=[]
        for b,p,s in starts: work.append((b,p,0,s,True))
        while work:
            self.tick()
            b,prev,idx,st,first=work.pop()
            if idx==0 and not first:
                if header is not None and b==header: be.append((prev,st)); continue
                if inside is not None and b not in inside: ex.append((b,prev,st)); continue
            if idx==0 and b in f.loops and not (first and b==header):
                r,rr=self.do_loop(f,f.loops[b],prev,st)
                for nb,np,ns in r:
                    # the exit block may be the header of an enclosing loop
                    work.append((nb,np,0,ns,False))
                rets+=rr
                continue
            blk=f.blocks[b]
            if idx==0 and not (first and b==header):
                newv={}
                n=0
                for ins in blk.ins:
                    if ins.op!='phi': break
                    n+=1
                    for v,pb in ins.extra:
                        if pb==prev: newv[ins.res]=self.val(st,ins.ty,v); break
                    else: raise Unsupported('phi pred %s'%prev)
                st.env.update(newv); idx=n
            elif idx==0:
                idx=sum(1 for i in blk.ins if i.op=='phi')
            try:
                done=False
                while idx<len(blk.ins):
                    ins=blk.ins[idx]
                    if ins.op in('br','switch','ret','unreachable'):
                        done=True
                        if ins.op=='br':
                            if len(ins.extra)==1: work.append((ins.extra[0],b,0,st,False)); break
                            c=self.val(st,INT(1),ins.a[0])
                            if isinstance(c,Undef): raise Unsupported('branch on undef')
                            if self.decide(st,c): work.append((ins.extra[0],b,0,st,False))
                            else: work.append((ins.extra[1],b,0,st,False))
                        elif ins.op=='switch':
                            v=self.val(st,ins.ty,ins.a[0]); d,cs=ins.extra
                            for cv,tb in cs:
                                if self.decide(st,v==cv if ins.ty.n>1 else (v if cv else z3.Not(v))):
                                    work.append((tb,b,0,st,False)); break
                            else: work.append((d,b,0,st,False))
                        elif ins.op=='ret':
                            rets.append((st,self.val(st,ins.ty,ins.a[0]) if ins.a else None))
                        else:
                            self.oblige(st,z3.BoolVal(False),'unreachable code reached',ins)
                        break
                    if ins.op in('call','invoke'):
                        sts=self.call(f,st,ins)
                        nxt=idx+1
                        if ins.op=='invoke':
                            for s in sts: work.append((ins.extra['normal'],b,0,s,False))
                            done=True; break
                        if len(sts)==1 and sts[0] is st: idx=nxt; continue
                        for s in sts: work.append((b,prev,nxt,s,False))
                        done=True; break
                    self.step(f,st,ins); idx+=1
            except PathDead: continue
            except ForkOn as fk:
                for fn,bs in getattr(self,'nofork_blocks',[]):
                    if fn==f.name and b in bs: raise NoFork()
                for c,dv in((fk.c,True),(simp(z3.Not(fk.c)),False)):
                    s=st.copy(); s.dec[fk.c.get_id()]=(fk.c,dv)
                    s.assume(c)
                    if self.pv.feasible(s.pc+self.inst(s.pc)):
                        work.append((b,prev,idx if idx>0 else 0,s,first if idx==0 else False))
                continue
        return be,ex,rets

    # ---------------------------------------------------------------- loops
    def phis(self,f,L):
        return [i for i in f.blocks[L.header].ins if i.op=='phi']

    def do_loop(self,f,L,prev,st0):
        """returns (exits, rets)"""
        from loops import LoopSolver
        key=(f.name,L.header)
        if not self.quiet: self.nloops.add(key)
        return LoopSolver(self,f,L,prev,st0).solve()
