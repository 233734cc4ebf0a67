"""Independent reference of the gradient application (grad_works), used by executed contracts."""
def sgn(x): return (x>0)-(x<0)
class GRef:
    """reference of grad_works for one weight matrix (list of cells, column major, r rows, k columns)"""
    def __init__(s,c,r,k,type,lr,mom,nest,l1,l2,mx,ib,ilr,ilrm,eps,b1=.9,b2=.999,ga=.05):
        s.__dict__.update(locals()); n=r*k; s.v=[0.0]*n; s.A=[0.0]*n; s.Bm=[0.0]*n; s.gain=[1.0]*n; s.prev=None; s.first=True; s.t1=s.t2=1.0; s.ok=True
    def clip(s,w):
        if not s.mx>0: return w
        r,k=s.r,s.k; m=k if s.ib else k-1; w=list(w)
        for i in range(r):
            S=sum(w[j*r+i]**2 for j in range(m))
            if abs(S-s.mx)<1e-4*(1+S): s.ok=False
            if S>s.mx:
                f=(s.mx/S)**.5
                for j in range(k): w[j*r+i]*=f
        return w
    def pre(s,w):
        if s.mom>0 and s.nest:
            s.v=[s.mom*x for x in s.v]; w=s.clip([a-b for a,b in zip(w,s.v)])
        return w
    def apply(s,w,g):
        T=s.type; lr=s.lr; e=s.eps; b1,b2=s.b1,s.b2; n=len(w); fr=s.first
        g=[g[i]+(s.l1*sgn(w[i])+s.l2*w[i] if i<s.r*(s.k-1) else 0.0) for i in range(n)]
        sq=lambda x:x**.5 if x>0 else 0.0
        if T==0: d=[lr*x for x in g]
        elif T==3: d=[lr*sgn(x) for x in g]; s.ok=s.ok and all(x==0 or abs(x)>1e-4 for x in g)
        elif T==1: s.A=[x*x if fr else b1*a+(1-b1)*x*x for a,x in zip(s.A,g)]; d=[lr*(x if fr else x/(sq(a)+e)) for a,x in zip(s.A,g)]
        elif T==4: s.A=[abs(x) if fr else b1*a+(1-b1)*abs(x) for a,x in zip(s.A,g)]; d=[lr*(x if fr else x/(a+e)) for a,x in zip(s.A,g)]
        elif T==2:
            s.A=[x*x if fr else b1*a+(1-b1)*x*x for a,x in zip(s.A,g)]; s.Bm=[x if fr else b1*a+(1-b1)*x for a,x in zip(s.Bm,g)]
            d=[lr*(x if fr else x/sq(a-b*b+e)) for a,b,x in zip(s.A,s.Bm,g)]
        else:
            if fr: s.A=[0.0]*n; s.Bm=[0.0]*n; s.t1=s.t2=1.0
            s.t1*=b1
            if T==5:
                s.t2*=b2; s.A=[b1*a+(1-b1)*x for a,x in zip(s.A,g)]; s.Bm=[b2*b+(1-b2)*x*x for b,x in zip(s.Bm,g)]
                d=[lr*sq(1-s.t2)/(1-s.t1)*a/(sq(b)+e) for a,b in zip(s.A,s.Bm)]
            elif T==6:
                s.A=[b1*a+(1-b1)*x for a,x in zip(s.A,g)]; s.Bm=[max(abs(x),b2*b) for b,x in zip(s.Bm,g)]; d=[lr/(1-s.t1)*a/(b+e) for a,b in zip(s.A,s.Bm)]
            else:
                s.t2*=b2
                if T==7 and fr: s.ga=0.0
                mut=(b1-s.t1)/(1-s.t1); et=(b2-s.t2)/(1-s.t2); s.A=[mut*a+(1-mut)*x for a,x in zip(s.A,g)]; s.Bm=[et*b+(1-et)*x*x for b,x in zip(s.Bm,g)]
                cm,cg=(b1*(1-s.t1)/(1-b1*s.t1),1-mut) if s.ga==0 else (1-s.ga,s.ga); d=[lr*(cm*a+cg*x)/(sq(b)+e) for a,b,x in zip(s.A,s.Bm,g)]
        if s.ilr:
            de,inc,lo,hi=s.ilr; vel=s.mom>0 and s.ilrm
            if not fr:
                p=s.v if vel else s.prev
                for i in range(n):
                    q=p[i]*d[i]
                    if abs(d[i])<1e-4 or abs(p[i])<1e-4: s.ok=False
                    if q>0 and s.gain[i]<hi: s.gain[i]*=inc
                    elif q<0 and s.gain[i]>lo: s.gain[i]*=de
                    d[i]*=s.gain[i]
            s.prev=list(d)
        s.first=False
        if s.mom>0:
            if s.nest: s.v=[a+b for a,b in zip(s.v,d)]
            else: s.v=[s.mom*a+b for a,b in zip(s.v,d)]; d=s.v
        return s.clip([a-b for a,b in zip(w,d)])
