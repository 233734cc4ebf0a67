"""Contract language. A contract is a Python function over a context; the same text is evaluated symbolically (proof) and
concretely (executable contract used to find and replay failing inputs)."""
import z3, math, random, itertools
from fractions import Fraction

UNITS=[]
class UnitDef:
    def __init__(self,prop,name,fn,covers,views,tu,alloc_fail=False,kw=None):
        self.prop=prop; self.name=name; self.fn=fn; self.covers=covers; self.views=views; self.tu=tu; self.alloc_fail=alloc_fail; self.kw=kw or {}
        self.tag=self.kw.pop('tag','') if kw else ''; self.id='%s/%s%s'%(prop,name,self.tag and '['+self.tag+']')
def unit(prop,name,covers,views=('2d','1d'),tu=None,alloc_fail=False,**kw):
    """prop: property id(s); name: wrapper symbol; covers: real functions of /repo reached by the wrapper"""
    def deco(fn):
        for p in (prop if isinstance(prop,(list,tuple)) else [prop]):
            UNITS.append(UnitDef(p,name,fn,covers if isinstance(covers,(list,tuple)) else [covers],views,tu or deco.tu,alloc_fail,dict(kw)))
        return fn
    deco.tu=_TU[0]
    return deco
_TU=[None]
def use_tu(name): _TU[0]=name

# ---------------------------------------------------------------- mode-agnostic operators
def sym(*a): return any(z3.is_expr(x) for x in a)
def tor(x):
    """to real"""
    if z3.is_expr(x): return z3.ToReal(x) if x.sort()==z3.IntSort() else x
    if isinstance(x,bool): return float(x)
    return float(x)
def toi(b):
    if z3.is_expr(b): return z3.If(b,z3.IntVal(1),z3.IntVal(0)) if b.sort()==z3.BoolSort() else b
    return int(b)
def lit(x,like):
    import terms as T
    if z3.is_expr(x): return x
    if z3.is_expr(like):
        if like.sort()==z3.RealSort(): return T.rv(Fraction(x))
        if like.sort()==z3.BoolSort(): return z3.BoolVal(bool(x))
        return z3.IntVal(int(x))
    return x
def ite(c,a,b):
    if z3.is_expr(c):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if not z3.is_expr(a) and not z3.is_expr(b):
            if isinstance(a,bool): return z3.If(c,z3.BoolVal(a),z3.BoolVal(b))
            import terms as T
            if isinstance(a,int) and isinstance(b,int): return z3.If(c,z3.IntVal(a),z3.IntVal(b))
            return z3.If(c,T.rv(Fraction(a)),T.rv(Fraction(b)))
        return z3.If(c,lit(a,b),lit(b,a))
    return a if c else b
def land(*a):
    a=[x for x in a if x is not True]
    if sym(*a): return z3.And(*[lit(x,z3.BoolVal(True)) for x in a]) if len(a)>1 else a[0]
    return all(a)
def lor(*a):
    if sym(*a): return z3.Or(*[lit(x,z3.BoolVal(True)) for x in a])
    return any(a)
def lnot(a): return z3.Not(a) if z3.is_expr(a) else (not a)
def implies(a,b): return lor(lnot(a),b)
def iff(a,b):
    if sym(a,b): return lit(a,b)==lit(b,a)
    return bool(a)==bool(b)
def vmax(a,b): return ite(a>b,a,b)
def vmin(a,b): return ite(a<b,a,b)
def vabs(a): return ite(a<0,-a,a)
def _m1(name,pyf):
    def g(x):
        if z3.is_expr(x):
            import terms as T
            x=T.simp(tor(x))
            if z3.is_rational_value(x):
                f=x.as_fraction()
                if name=='exp' and f==0: return T.rv(1)
                if name=='log' and f==1: return T.rv(0)
                if name=='sqrt' and f in(0,1): return x
            return T.uf('m_'+name,z3.RealSort(),z3.RealSort())(x)
        try: return pyf(x)
        except (ValueError,OverflowError): return float('nan')
    return g
exp=_m1('exp',math.exp); log=_m1('log',lambda x: math.log(x) if x>0 else float('-inf')); sqrt=_m1('sqrt',math.sqrt)
tanh=_m1('tanh',math.tanh)
def log1p(x): return log(1+x)
def rdiv(a,b):
    if sym(a,b):
        import terms as T
        a=lit(a,b) if not z3.is_expr(a) else tor(a); b=lit(b,a) if not z3.is_expr(b) else tor(b)
        if a.sort()!=z3.RealSort(): a=tor(a)
        return T.rdiv(a,b)
    try: return a/b
    except ZeroDivisionError: return float('nan')
def idiv(a,b):
    if sym(a,b): return a/b
    return a//b
def imod(a,b):
    if sym(a,b): return a%b
    return a%b
class Skip(Exception): pass
