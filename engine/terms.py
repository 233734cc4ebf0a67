"""Term helpers on top of z3: polynomials, exact division, linear abstraction, and the prover interface."""
import z3, time, itertools
from fractions import Fraction

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
_cnt = itertools.count()
def fresh(name, sort=I): return z3.Const('%s!%d' % (name, next(_cnt)), sort)
def iv(n): return z3.IntVal(n)
def rv(x):
    x = Fraction(x); return z3.RealVal('%d/%d' % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
def simp(e): return z3.simplify(e, som=True, blast_distinct=True) if z3.is_expr(e) else e
def is_true(e): return e is True or (z3.is_expr(e) and z3.is_true(e))
def is_false(e): return e is False or (z3.is_expr(e) and z3.is_false(e))
def as_int(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else None
def AND(*a):
    a=[x for x in a if not is_true(x)]
    if not a: return z3.BoolVal(True)
    return z3.And(*a) if len(a)>1 else a[0]
def eqs(p,q): return AND(*[x==y for x,y in zip(p,q)])

rinv = z3.Function('rinv', R, R)
UF = {}
def uf(name, *sorts):
    k=(name,)+tuple(str(s) for s in sorts)
    if k not in UF: UF[k]=z3.Function(name,*sorts)
    return UF[k]

def rdiv(x,y):
    y=simp(y)
    if z3.is_rational_value(y):
        f=Fraction(y.numerator_as_long(),y.denominator_as_long())
        if f!=0: return x*rv(1/f)
    return x*mk_rinv(y)
def mk_rinv(y):
    """1/y, distributed over products and signs so that equal quotients get equal terms"""
    y=simp(y)
    if z3.is_rational_value(y) :
        f=Fraction(y.numerator_as_long(),y.denominator_as_long())
        if f!=0: return rv(1/f)
    if z3.is_mul(y):
        r=None
        for a in y.children():
            t=mk_rinv(a); r=t if r is None else r*t
        return r
    if y.decl().eq(rinv): return y.arg(0)
    if z3.is_app_of(y, z3.Z3_OP_ITE): return z3.If(y.arg(0), mk_rinv(y.arg(1)), mk_rinv(y.arg(2)))
    # normalise leading sign / scale of sums:  1/(a+b)
    if z3.is_add(y):
        p=to_poly(y)
        lead=min(p, key=lambda m: (len(m), [str(ATOMS[a]) for a in m]))
        c=p[lead]
        if c<0:
            return -mk_rinv(simp(-y))
    return rinv(y)

# ------------------------------------------------------------------ polynomials over atoms
ATOMS={}
def to_poly(e):
    """z3 arithmetic term -> {monomial: coeff}, monomial = sorted tuple of atom ids"""
    e=simp(e); out={}
    def mono(t):
        c=Fraction(1); fs=[]
        st=[t]
        while st:
            x=st.pop()
            if z3.is_int_value(x): c*=x.as_long()
            elif z3.is_rational_value(x): c*=Fraction(x.numerator_as_long(),x.denominator_as_long())
            elif z3.is_mul(x): st.extend(x.children())
            elif z3.is_app_of(x,z3.Z3_OP_UMINUS): c=-c; st.append(x.arg(0))
            elif z3.is_app_of(x,z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long()>0:
                for _ in range(x.arg(1).as_long()): st.append(x.arg(0))
            else:
                x=canon_atom(x); ATOMS[x.get_id()]=x; fs.append(x.get_id())
        return c,tuple(sorted(fs))
    st=[(1,e)]
    while st:
        s,x=st.pop()
        if z3.is_add(x):
            for y in x.children(): st.append((s,y))
        elif z3.is_sub(x):
            ch=x.children(); st.append((s,ch[0]))
            for y in ch[1:]: st.append((-s,y))
        else:
            c,m=mono(x); c*=s
            out[m]=out.get(m,0)+c
    return {m:c for m,c in out.items() if c!=0}

def from_poly(p, real=False):
    ts=[]
    for m,c in p.items():
        t=None
        for a in m: t=ATOMS[a] if t is None else t*ATOMS[a]
        if real: cc=rv(c)
        else:
            assert Fraction(c).denominator==1
            cc=iv(int(c))
        if t is None: t=cc
        elif c!=1: t=cc*t
        ts.append(t)
    if not ts: return rv(0) if real else iv(0)
    return simp(z3.Sum(ts)) if len(ts)>1 else ts[0]

def poly_divide(p, d):
    """exact division of integer polynomials; None if not exact"""
    if not d: return None
    if not p: return {}
    def lead(q): return max(q, key=lambda m:(len(m),m))
    def mdiv(a,b):
        a=list(a)
        for x in b:
            if x in a: a.remove(x)
            else: return None
        return tuple(a)
    q={}; p=dict(p); ld=lead(d); n=0
    while p:
        n+=1
        if n>200: return None
        # pick any monomial of p divisible by lead(d)
        cand=None
        for m in sorted(p,key=lambda m:(len(m),m),reverse=True):
            r=mdiv(m,ld)
            if r is not None and (Fraction(p[m])/d[ld]).denominator==1: cand=(m,r); break
        if cand is None: return None
        m,r=cand; c=Fraction(p[m])/d[ld]
        q[r]=q.get(r,0)+c
        for dm,dc in d.items():
            mm=tuple(sorted(dm+r)); p[mm]=p.get(mm,0)-c*dc
            if p[mm]==0: del p[mm]
    return q

def div_exact(e,d):
    """e/d as integer term if d divides e exactly as polynomial, else None"""
    q=poly_divide(to_poly(e),to_poly(d if z3.is_expr(d) else iv(d)))
    return None if q is None else from_poly(q)

def split_by(e, ld):
    """e = c*ld + r syntactically (ld an atom): returns (c,r)"""
    ldp=to_poly(ld)
    if len(ldp)==2 and () in ldp:
        # ld = atom + const: rewrite the atom in terms of a new name for ld
        (m,c0),=[x for x in ldp.items() if x[0]]
        if len(m)!=1 or c0!=1: return None
        L=z3.Int('L!ld'); a=ATOMS[m[0]]
        e2=z3.substitute(e,(a,L-int(ldp[()])))
        r=split_by(e2,L)
        if r is None: return None
        return tuple(simp(z3.substitute(x,(L,ld))) for x in r)
    p=to_poly(e)
    if len(ldp)!=1: return None
    (m,c0),=ldp.items()
    if m==() and c0==int(c0) and c0>0:
        n=int(c0); cq={}; rr={}   # a literal number of rows
        for mm,c in p.items():
            if c!=int(c): return None
            d,r=divmod(int(c),n)
            if mm!=() and r: return None
            if d: cq[mm]=d
            if r: rr[mm]=r
        return from_poly(cq),from_poly(rr)
    if len(m)!=1 or c0!=1:
        return None
    a=m[0]; cq={}; rr={}
    for mm,c in p.items():
        if a in mm:
            l=list(mm); l.remove(a); cq[tuple(l)]=c
        else: rr[mm]=c
    return from_poly(cq), from_poly(rr)

def consts_of(e, cache=None):
    """set of names of uninterpreted constants / function symbols in e"""
    out=set(); seen=set(); st=[e]
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    return out

def subst_fn(e, table, cache):
    """replace applications of uninterpreted functions: table name -> callable(args)->term"""
    i=e.get_id()
    if i in cache: return cache[i][1]
    if not z3.is_app(e) or e.num_args()==0:
        r=e
        if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_UNINTERPRETED and e.decl().name() in table: r=table[e.decl().name()]()
    else:
        ch=[subst_fn(c,table,cache) for c in e.children()]
        if e.decl().kind()==z3.Z3_OP_UNINTERPRETED and e.decl().name() in table:
            r=table[e.decl().name()](*ch)
        elif all(a.eq(b) for a,b in zip(ch,e.children())): r=e
        else: r=e.decl()(*ch)
    cache[i]=(e,r)
    return r

# ------------------------------------------------------------------ recursive spec functions (folds)
FOLDS={}; INVERSE={}
class Fold:
    """S(args..., t): S(.., base)=init(args) ; S(..,t+1)=step(args,t,S(..,t)).  'allf' folds are conjunctions and
    additionally get the (proved) monotonicity lemma S(N) => S(t) for t<=N."""
    def __init__(self,name,nargs,init,step,sort=R,allf=False,base=0,nonneg=False,bound=None,skip=None,mono=None):
        self.inv=None; self.memo={}; self.mono=mono   # 'up': steps never decrease; 'count': steps add 0 or 1 (obligations of their own)
        self.name=name; self.n=nargs; self.init=init; self.step=step; self.sort=sort; self.allf=allf; self.base=base
        self.skip=skip
        self.bound=bound
        self.f=z3.Function(name,*([I]*(nargs+1)),sort); FOLDS[name]=self
    def __call__(self,*a):
        assert len(a)==self.n+1
        a=[iv(x) if isinstance(x,int) else x for x in a]
        if self.base is not None and z3.is_int_value(a[-1]) and a[-1].as_long()<=(self.base if isinstance(self.base,int) else self.base.as_long()):
            r=self.init(*a[:-1]); return iv(r) if isinstance(r,int) and not isinstance(r,bool) and self.sort==I else r if z3.is_expr(r) else self.f(*a)
        return self.f(*a)
    def unfold_of(self,x):
        i=x.get_id(); c=self.memo.get(i)
        if c is None: c=self.memo[i]=(x,[msimp(a) for a in self.unfold(x.children())])
        return c[1]
    def unfold(self,a):
        args,t=a[:-1],simp(a[-1])
        tm=simp(t-1)
        ax=[z3.Implies(t>self.base, self.f(*a)==self.step(*args,tm,self.f(*args,tm))),
            z3.Implies(t<=self.base, self.f(*a)==self.init(*args))]
        if self.bound:
            ax.append(z3.Implies(t>=self.base,self.bound(*args,t,self.f(*a))))
        return ax

_IA={}
def apps_of(f):
    """fold, bit-pattern and reciprocal applications inside f (memoised)"""
    i=f.get_id(); c=_IA.get(i)
    if c is not None: return c[1]
    out=[]; seen=set(); st=[f]
    while st:
        x=st.pop(); j=x.get_id()
        if j in seen: continue
        seen.add(j)
        if z3.is_app(x) and x.num_args():
            n=x.decl().name()
            if n in FOLDS or n in INVERSE or n=='rinv' or n[:5]=='fbits' or n[:7]=='unfbits': out.append((n,x))
            st.extend(x.children())
    _IA[i]=(f,out)
    return out
def all_apps(fs):
    seen=set(); out=[]
    for f in fs:
        for n,x in apps_of(f):
            j=x.get_id()
            if j not in seen: seen.add(j); out.append((n,x))
    return out
_SC={}
def msimp(f):
    i=f.get_id(); c=_SC.get(i)
    if c is None: c=_SC[i]=(f,simp(f))
    return c[1]
def inverse_axioms(fs):
    ax=[]
    for n,x in all_apps(fs):
        F=INVERSE.get(n)
        if F is not None:
            r=x.arg(0); ax.append(z3.Implies(AND(r>=0,r<F(F.upto)),AND(x>=0,x<F.upto,F.pred(x),F(x)==r)))
    return ax
def fold_axioms(fs, depth=2):
    """one-step unfolding instances for every fold application occurring in the formulas (bounded closure)"""
    ax=[]; done=set(); frontier=list(fs)
    apps_all={}
    for d in range(depth):
        new=[]
        for n,x in all_apps(frontier):
            if n in FOLDS and x.get_id() not in done: done.add(x.get_id()); new.append(x); apps_all.setdefault(n,[]).append(x)
        frontier=[]
        for x in new:
            F=FOLDS[x.decl().name()]
            a=F.unfold_of(x); ax+=a
            if not(F.mono or F.allf): frontier+=a; continue
            # monotone counts: one step back, and one forward to be related to the value at the end
            ch=x.children(); y=F.f(*ch[:-1],simp(ch[-1]+1)); k=y.get_id(); _IA[('keep',k)]=y
            if k not in done: done.add(k); apps_all[x.decl().name()].append(y); ax+=F.unfold_of(y)
        if not frontier: break
    for n,apps in apps_all.items():
        F=FOLDS[n]
        if F.allf:
            for x in apps:
                for y in apps:
                    if x is y: continue
                    ax.append(z3.Implies(AND(eqs(x.children()[:-1],y.children()[:-1]), x.children()[-1]<=y.children()[-1], y), x))
        elif F.mono:
            for x in apps:
                t=x.children()[-1]; i0=F.init(*x.children()[:-1]); ax.append(z3.Implies(t>=F.base,AND(x>=i0,*([x-i0<=t-F.base] if F.mono=='count' else []))))
                for y in apps:
                    if x is y: continue
                    tx=x.children()[-1]; ty=y.children()[-1]
                    c=[y>=x]+([y-x<=ty-tx] if F.mono=='count' else [])
                    ax.append(z3.Implies(AND(eqs(x.children()[:-1],y.children()[:-1]),tx>=F.base,tx<=ty),AND(*c)))
        elif F.skip is not None:
            # steps that leave the value unchanged may be skipped: lemma instances S(u)=S(t) if skip(args,t,u)
            for x in apps:
                for y in apps:
                    if x is y: continue
                    ax.append(z3.Implies(AND(eqs(x.children()[:-1],y.children()[:-1]), F.skip(*x.children()[:-1],x.children()[-1],y.children()[-1])), x==y))
    return ax

# ------------------------------------------------------------------ linear abstraction
quoI=z3.Function('quoI',I,I,I); remI=z3.Function('remI',I,I,I)
mulI=z3.Function('mulI',I,I,I); mulR=z3.Function('mulR',R,R,R)
_TR={}; _DF={}
def lin_tr(e):
    """(translation with products of unknowns abstracted, list of those products), memoised"""
    i=e.get_id(); c=_TR.get(i)
    if c is not None: return c[1],c[2]
    im={}
    if z3.is_mul(e):
        nums=[]; fs=[]
        for a in e.children():
            if z3.is_int_value(a) or z3.is_rational_value(a): nums.append(a)
            else:
                t,m=lin_tr(a); fs.append(t); im.update(m)
        if len(fs)>1:
            fs.sort(key=lambda x:(x.decl().name() if z3.is_app(x) else '',x.get_id()))
            real=e.sort()==R; r=fs[0]
            for x in fs[1:]:
                r2=(mulR if real else mulI)(r,x); im[r2.get_id()]=(r2,r,x); r=r2
        elif fs: r=fs[0]
        else: r=iv(1) if e.sort()==I else rv(1)
        for n in nums: r=n*r
    elif z3.is_app(e) and e.decl().kind() in(z3.Z3_OP_IDIV,z3.Z3_OP_MOD) and not z3.is_int_value(e.arg(1)):
        # quotient and remainder by an unknown divisor: fresh values with their defining equation (for a positive divisor)
        a,b=e.children(); q=quoI(a,b); m=remI(a,b)
        t,im2=lin_tr(q if e.decl().kind()==z3.Z3_OP_IDIV else m); im.update(im2); r=t
        key=-1-q.get_id()
        if key not in _DF: _DF[key]=None; f,im3=lin_tr(simp(z3.Implies(b>0,z3.And(simp(q*b)+m==a,m>=0,m<b)))); f2,im4=lin_tr(simp(z3.Implies(z3.And(b>0,a>=0),q>=0))); _DF[key]=(q,z3.And(f,f2),{**im3,**im4})
        if _DF[key]: im.update(_DF[key][2]); im[key]=_DF[key][1]
    elif z3.is_app(e) and e.num_args()>0:
        cs=e.children(); ch=[]
        for a in cs:
            t,m=lin_tr(a); ch.append(t)
            if m: im.update(m)
        r=e if all(a.eq(b) for a,b in zip(ch,cs)) else e.decl()(*ch)
    else: r=e
    _TR[i]=(e,r,im)
    return r,im
_BD={}
_LM={}
class Lin:
    def __init__(self): self.im={}; self.df={}
    def tr(self,e):
        r,m=lin_tr(e)
        for k,v in m.items():
            if k<0: self.df[k]=v
            else: self.im[k]=v
        return r
    def bounds(self,fl):
        """constant bounds of atoms stated by the (translated) hypotheses: [lo,hi]"""
        bd={}
        rec=[]
        def lo(x,c): rec.append((False,x.get_id(),c))
        def hi(x,c): rec.append((True,x.get_id(),c))
        def go(f,neg):
            if z3.is_not(f): return go(f.arg(0),not neg)
            if (z3.is_and(f) and not neg) or (z3.is_or(f) and neg):
                for a in f.children(): go(a,neg)
                return
            if not(z3.is_app(f) and f.num_args()==2 and f.arg(0).sort()==I): return
            k=f.decl().kind(); a,b=f.arg(0),f.arg(1)
            M={z3.Z3_OP_LE:'<=',z3.Z3_OP_LT:'<',z3.Z3_OP_GE:'>=',z3.Z3_OP_GT:'>',z3.Z3_OP_EQ:'=='}.get(k)
            if M is None: return
            if z3.is_int_value(a): a,b=b,a; M={'<=':'>=','<':'>','>=':'<=','>':'<','==':'=='}[M]
            if not z3.is_int_value(b): return
            if neg:
                if M=='==': return
                M={'<=':'>','<':'>=','>=':'<','>':'<='}[M]
            c=b.as_long()
            if M=='<=': hi(a,c)
            elif M=='<': hi(a,c-1)
            elif M=='>=': lo(a,c)
            elif M=='>': lo(a,c+1)
            else: lo(a,c); hi(a,c)
        for f in fl:
            i=f.get_id(); c=_BD.get(i)
            if c is None:
                rec=[]; go(f,False); c=_BD[i]=(f,rec)
            for up,xi,v in c[1]:
                b=bd.setdefault(xi,[None,None])
                if up: b[1]=v if b[1] is None else min(b[1],v)
                else: b[0]=v if b[0] is None else max(b[0],v)
        return bd
    def lemmas(self,fl=()):
        out=list(self.df.values()); L=list(self.im.values())
        bd=self.bounds(fl)
        for m,x,y in L:
            if m.sort()==R: continue
            bx,by=bd.get(x.get_id()),bd.get(y.get_id())
            if bx and by and None not in bx and None not in by:
                ps=[p*q for p in bx for q in by]; l,h=min(ps),max(ps)
                out.append(z3.And(m>=l,m<=h)); b=bd.setdefault(m.get_id(),[None,None])
                b[0]=l if b[0] is None else max(b[0],l); b[1]=h if b[1] is None else min(b[1],h)
        for m,x,y in L:
            c=_LM.get(m.get_id())
            if c is None:
                o=[]
                if m.sort()==R:
                    if not x.eq(y): o.append(mulR(y,x)==m)
                    o.append(z3.Implies(x==0,m==0)); o.append(z3.Implies(y==0,m==0))
                    o.append(z3.Implies(x==1,m==y)); o.append(z3.Implies(y==1,m==x))
                    o.append(z3.Implies(z3.And(x>0,y>0),m>0)); o.append(z3.Implies(z3.And(x<0,y<0),m>0))
                    o.append(z3.Implies(z3.And(x>0,y<0),m<0)); o.append(z3.Implies(z3.And(x<0,y>0),m<0))
                else:
                    o.append(z3.Implies(z3.And(x>=0,y>=0),m>=0))
                    o.append(z3.Implies(z3.And(x>=1,y>=1),z3.And(m>=x,m>=y)))
                    o.append(z3.Implies(z3.Or(x==0,y==0),m==0))
                    o.append(z3.Implies(x==1,m==y)); o.append(z3.Implies(y==1,m==x))
                c=_LM[m.get_id()]=(m,o)
            out+=c[1]
        sqs=[(m,x) for m,x,y in L if m.sort()!=R and x.eq(y)]
        for m,x in sqs:
            out.append(m>=x); out.append(m>=-x)
            for m2,y in sqs:
                if m is m2: continue
                out.append(z3.Implies(z3.And(x>=y,y>=0),m-m2>=x-y)); out.append(z3.Implies(z3.And(x>y,y>=0),m>=m2+2*y+1))
                out.append(z3.Implies(z3.And(-x>=y,y>=0),m-m2>=-x-y)); out.append(z3.Implies(z3.And(-x>y,y>=0),m>=m2+2*y+1))
        LI=[t for t in L if t[0].sort()!=R]
        for m1,x1,y1 in LI:
            for m2,x2,y2 in LI:
                if m1 is m2: continue
                key=(m1.get_id(),m2.get_id(),bool(self.df)); c=_LM.get(key)
                if c is None:
                    o=[]
                    for (u1,v1) in((x1,y1),(y1,x1)):
                        for (u2,v2) in((x2,y2),(y2,x2)):
                            if v1.eq(v2):
                                o.append(z3.Implies(z3.And(v1>=0,u1<u2), m1+v1<=m2))
                                o.append(z3.Implies(z3.And(v1>=0,u1<=u2), m1<=m2))
                                if self.df: o.append(z3.Implies(u1+1==u2, m1+v1==m2))
                    c=_LM[key]=((m1,m2),o)
                out+=c[1]
        return out

_LC={}
def _itecond(e,depth=0):
    if z3.is_app_of(e,z3.Z3_OP_ITE): return e.arg(0)
    if z3.is_app(e) and (e.decl().kind() in(z3.Z3_OP_MUL,z3.Z3_OP_ADD) or e.decl().eq(rinv) or e.decl().name()[:2]=='m_'):
        for a in e.children():
            c=_itecond(a)
            if c is not None: return c
    return None
def lift(e,budget=None):
    """pull case distinctions out of real products, quotients and math functions"""
    i=e.get_id()
    if i in _LC and _LC[i][0].eq(e): return _LC[i][1]
    budget=[24] if budget is None else budget
    r=e
    if z3.is_app(e) and e.num_args():
        if e.sort()==R and ((e.decl().kind()==z3.Z3_OP_MUL) or e.decl().eq(rinv) or e.decl().name()[:2]=='m_'):
            c=_itecond(e)
            if c is not None and budget[0]>0:
                budget[0]-=1
                a=simp(z3.substitute(e,(c,z3.BoolVal(True)))); b=simp(z3.substitute(e,(c,z3.BoolVal(False))))
                r=z3.If(c,lift(a,budget),lift(b,budget)); _LC[i]=(e,r); return r
        ch=[lift(a) for a in e.children()]
        if not all(a.eq(b) for a,b in zip(ch,e.children())): r=e.decl()(*ch) if e.decl().kind() not in(z3.Z3_OP_ADD,z3.Z3_OP_MUL,z3.Z3_OP_AND,z3.Z3_OP_OR) else {z3.Z3_OP_ADD:z3.Sum,z3.Z3_OP_MUL:z3.Product,z3.Z3_OP_AND:z3.And,z3.Z3_OP_OR:z3.Or}[e.decl().kind()](*ch)
    _LC[i]=(e,r)
    return r
def rinv_lemmas(fs):
    out=[]
    for n,x in all_apps(fs):
        if n!='rinv': continue
        c=_LM.get(x.get_id())
        if c is None:
            a=x.arg(0); c=_LM[x.get_id()]=(x,[msimp(z3.Implies(a>0,x>0)),msimp(z3.Implies(a<0,x<0)),msimp(z3.Implies(a!=0,simp(a*x)==1))])
        out+=c[1]
        if len(out)>=24: break
    return out
_CMP=None
def factored(fs):
    """comparisons divided by a common factor that another formula bounds below by 1"""
    pos=None; out=[]
    for f in fs:
        a=f; neg=False
        if z3.is_not(a): a=a.arg(0); neg=True
        if not(z3.is_app(a) and a.num_args()==2): continue
        kd=a.decl().kind()
        if kd not in(z3.Z3_OP_EQ,z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT) or a.arg(0).sort()!=I: continue
        if not has_ite_nl(a) and not (kd==z3.Z3_OP_EQ and has_nl(a)): continue
        p=to_poly(a.arg(0)-a.arg(1))
        if not p or () in p: continue
        com=None
        for m in p: com=set(m) if com is None else com&set(m)
        if not com: continue
        if pos is None:
            pos=set()
            for h in fs:
                for b in (h.children() if z3.is_and(h) else [h]):
                    if z3.is_app_of(b,z3.Z3_OP_GE) and z3.is_int_value(b.arg(1)) and b.arg(1).as_long()>=1: pos.add(b.arg(0).get_id())
                    elif z3.is_not(b) and z3.is_app_of(b.arg(0),z3.Z3_OP_LE) and z3.is_int_value(b.arg(0).arg(1)) and b.arg(0).arg(1).as_long()>=0: pos.add(b.arg(0).arg(0).get_id())
        for x in com:
            if x in pos:
                q={}
                for m,c in p.items():
                    l=list(m); l.remove(x); q[tuple(l)]=c
                t=from_poly(q); z=iv(0)
                r={z3.Z3_OP_EQ:lambda:t==z,z3.Z3_OP_LE:lambda:t<=z,z3.Z3_OP_LT:lambda:t<z,z3.Z3_OP_GE:lambda:t>=z,z3.Z3_OP_GT:lambda:t>z}[kd]()
                out.append(simp(z3.Not(r) if neg else r)); break
    return out
_HI={}
def has_ite_nl(a):
    i=a.get_id(); c=_HI.get(i)
    if c is None: c=_HI[i]=(a,_has_ite_nl(a))
    return c[1]
_HN={}
def has_nl(a):
    i=a.get_id(); c=_HN.get(i)
    if c is None:
        r=False; st=[a]
        while st:
            x=st.pop()
            if z3.is_mul(x) and sum(not z3.is_int_value(y) for y in x.children())>1: r=True; break
            if z3.is_app(x) and not z3.is_app_of(x,z3.Z3_OP_ITE): st.extend(x.children())
        c=_HN[i]=(a,r)
    return c[1]
def _has_ite_nl(a):
    st=[a]
    while st:
        x=st.pop()
        if z3.is_mul(x) and any(z3.is_app_of(y,z3.Z3_OP_ITE) for y in x.children()): return True
        st.extend(x.children() if z3.is_app(x) and not z3.is_app_of(x,z3.Z3_OP_ITE) else [])
    return False
_CANON={}
def canon_atom(x):
    """conditional atoms with the conjuncts of their condition in a fixed order"""
    if not z3.is_app_of(x,z3.Z3_OP_ITE): return x
    i=x.get_id()
    if i in _CANON: return _CANON[i][1]
    c=x.arg(0); r=x
    if z3.is_and(c) or z3.is_or(c):
        ch=sorted(c.children(),key=lambda y:y.sexpr())
        r=z3.If((z3.And if z3.is_and(c) else z3.Or)(*ch),x.arg(1),x.arg(2))
    _CANON[i]=(x,r)
    return r
_FB1={32:0x3f800000,64:0x3ff0000000000000}
def fbits_axioms(fs):
    """instances, for every bit-pattern term in the formulas, of the assumed facts about float bit patterns"""
    ax=[]
    for n,x in all_apps(fs):
        if n in('fbits32','fbits64'):
            w=int(n[5:]); v=x.arg(0); h=1<<(w-1)
            ax.append(AND((x==0)==(v==0),(x==_FB1[w])==(v==1),(x<0)==(v<0),x>-h,x<h,z3.Function('un'+n,I,R)(x)==v))
        elif n in('unfbits32','unfbits64'):
            w=int(n[7:]); v=x.arg(0)
            ax.append(AND((v==0)==(x==0),(v==_FB1[w])==(x==1),z3.Function(n[2:],R,I)(x)==v))
    return ax
class Prover:
    def __init__(self, timeout=4000, nl_timeout=8000, stats=None):
        self.to=timeout; self.nto=nl_timeout; self.cache={}
        self.q=0; self.t=0.0; self.last_model=None; self.by={'z3-lin':0,'z3-nia':0,'cvc5':0,'simplify':0}
    def _prep(self, fs):
        fs=[msimp(f) for f in fs]
        fs=fs+factored(fs)
        ia=[msimp(a) for a in inverse_axioms(fs)] if INVERSE else []
        ax=ia+[msimp(a) for a in fold_axioms(fs+ia)]
        ax+=fbits_axioms(fs+ax)
        fs=[lift(f) for f in fs+ax]
        return fs+rinv_lemmas(fs)
    def valid(self, hyps, goal, hard=True):
        """True iff hyps |= goal is proved"""
        g=simp(goal)
        if is_true(g): self.by['simplify']+=1; return True
        key=(tuple(sorted(h.get_id() for h in hyps)),g.get_id(),hard)
        if key in self.cache: return self.cache[key][0]
        t0=time.time(); r=self._valid(hyps,g,hard); self.t+=time.time()-t0; self.q+=1
        self.cache[key]=(r,hyps,g)
        return r
    def _relevant(self, hyps, goal):
        """cone-of-influence filter on hypotheses (sound: dropping hypotheses only weakens)"""
        return hyps
    def _valid(self,hyps,g,hard):
        if z3.is_eq(g) and g.arg(0).sort()!=B:
            c=_itecond(g.arg(0))
            if c is None: c=_itecond(g.arg(1))
            if c is not None:
                r=self._eq_cases(list(hyps),g.arg(0),g.arg(1),hard,[40])
                if r is not None: return r
        return self._valid1(hyps,g,hard)
    def _eq_cases(self,hyps,a,b,hard,fuel):
        """equality of two terms by splitting on the case distinctions they contain; leaves compared as polynomials, else proved"""
        a=simp(a); b=simp(b)
        if a.eq(b): self.by['simplify']+=1; return True
        if is_true(simp(a-b==0)): self.by['simplify']+=1; return True
        fuel[0]-=1
        if fuel[0]<0: return None
        c=_itecond(a)
        if c is None: c=_itecond(b)
        if c is None: return self._valid1(hyps,a==b,hard)
        for val in(True,False):
            l=c if val else simp(z3.Not(c)); m=[(c,z3.BoolVal(val))]
            a2=z3.substitute(a,*m); b2=z3.substitute(b,*m)
            h2=[h for h in hyps if not h.eq(l)]+[l]
            for x in (l.children() if z3.is_and(l) else [l]):
                if z3.is_eq(x) and x.arg(0).sort()==I:
                    u,v=x.arg(0),x.arg(1)
                    if not z3.is_const(u) or z3.is_int_value(u): u,v=v,u
                    elif z3.is_const(v) and not z3.is_int_value(v) and str(v).startswith(('q','z')): u,v=v,u
                    if z3.is_const(u) and not z3.is_int_value(u) and u.decl().name() not in consts_of(v):
                        a2=z3.substitute(a2,(u,v)); b2=z3.substitute(b2,(u,v)); h2=[z3.substitute(h,(u,v)) for h in h2]
            a2=simp(a2); b2=simp(b2)
            if a2.eq(b2): continue
            if not self.feasible(h2): continue
            r=self._eq_cases(h2,a2,b2,hard,fuel)
            if not r: return r
        return True
    def _valid1(self,hyps,g,hard):
        fs=self._prep(list(hyps)+[z3.Not(g)])
        if any(is_false(f) for f in fs): self.by['simplify']+=1; return True
        L=Lin(); fl=[L.tr(f) for f in fs]; fl+=L.lemmas(fl)
        s=z3.Solver(); s.set('timeout',self.to); s.add(*fl)
        r=s.check()
        if r==z3.unsat: self.by['z3-lin']+=1; return True
        if r==z3.sat: self.last_model=s.model()
        if not hard or not L.im: return False
        s=z3.Solver(); s.set('timeout',self.nto); s.add(*fs)
        r=s.check()
        if r==z3.unsat: self.by['z3-nia']+=1; return True
        if r==z3.sat: self.last_model=s.model()
        return False
    def feasible(self,hyps,timeout=500):
        fs=self._prep(list(hyps))
        if any(is_false(f) for f in fs): return False
        L=Lin(); fl=[L.tr(f) for f in fs]; fl+=L.lemmas(fl)
        s=z3.Solver(); s.set('timeout',timeout); s.add(*fl)
        t0=time.time(); r=s.check(); self.t+=time.time()-t0
        return r!=z3.unsat
