"""Concrete evaluation of a contract against the natively compiled real code (executable contracts): used to look for a
failing input when a proof fails, and as a cross-check of the proved contracts."""
import ctypes, mmap, os, random, signal, struct, sys, json, math, time, itertools
import dsl
from dsl import Skip

class Mismatch(Exception): pass
libc=ctypes.CDLL(None,use_errno=True)
libc.mmap.restype=ctypes.c_void_p; libc.mmap.argtypes=[ctypes.c_void_p,ctypes.c_size_t,ctypes.c_int,ctypes.c_int,ctypes.c_int,ctypes.c_long]
libc.mprotect.argtypes=[ctypes.c_void_p,ctypes.c_size_t,ctypes.c_int]
libc.munmap.argtypes=[ctypes.c_void_p,ctypes.c_size_t]
CT={'float':ctypes.c_float,'double':ctypes.c_double,'i32':ctypes.c_int32,'i64':ctypes.c_int64,'i8':ctypes.c_int8,'i1':ctypes.c_uint8,'u8':ctypes.c_uint8,'i16':ctypes.c_int16}
PG=4096
def guarded(nbytes,front):
    body=max(PG,(nbytes+PG-1)//PG*PG); tot=body+2*PG
    b=libc.mmap(None,tot,3,0x22,-1,0)
    libc.mprotect(b,PG,0); libc.mprotect(b+PG+body,PG,0)
    return b,tot,(b+PG if front else b+PG+body-nbytes)

class CPos:
    def __init__(self,buf,i): self.buf=buf; self.i=i
    @property
    def col(self): return self.i//self.buf.ld
    @property
    def row(self): return self.i%self.buf.ld
    def before_col(self,n): return self.i<n*self.buf.ld
    @property
    def old(self): return self.buf.old[self.i]

class CBuf:
    def __init__(self,ctx,name,elem,n,ld=None,ncols=None,const=False):
        self.name=name; self.elem=elem; self.n=n; self.ld=ld; self.ncols=ncols; self.is_mat=ld is not None; self.const=const
        self.old=None
    def at(self,p): return self.old[p.i]
    def __call__(self,*q):
        if len(q)==2: i=q[0]*self.ld+q[1]
        else: i=q[0]
        if not(0<=i<self.n): return 0 if self.elem[0] in 'iu' else 0.0
        return self.old[i]

class CFold:
    def __init__(self,name,n,init,step,base=0): self.name=name; self.n=n; self.init=init; self.step=step; self.base=base; self.c={}
    def __call__(self,*a):
        args,t=a[:-1],a[-1]
        if t<=self.base: return self.init(*args)
        # iterative with memo
        k0=self.base; v=None
        if args in self.c:
            tt,vv=self.c[args]
            if tt==t: return vv
            if tt<t: k0,v=tt,vv
        if v is None: v=self.init(*args)
        for j in range(k0,t): v=self.step(*args,j,v)
        self.c[args]=(t,v)
        return v

class ConcCtx:
    symbolic=False
    def __init__(self,lib,udef,seed,scale=0):
        self.lib=lib; self.ud=udef; self.rng=random.Random(seed); self.bufs=[]; self.posts={}; self.rets=[]; self.log={}; self.maps=[]; self.argv=None; self.scale=scale
        self.assumed=[]; self.folds=[]; self.outsv={}; self.condpost={}
        self.tol=udef.kw.get('tol',2e-4)
    def int(self,name,lo=None,hi=None,small=None,bits=32):
        r=self.rng
        lo_=-(1<<(bits-1)) if lo is None else lo; hi_=(1<<(bits-1))-1 if hi is None else hi
        if callable(small):
            v=small(r)
            if not lo_<=v<=hi_: raise Skip()
            self.log[name]=v; return v
        if small is not None:
            a,b=small; a=max(a,lo_); b=min(b,hi_)
        else:
            a=lo if lo is not None else -4
            if self.scale==2:
                b=max(a,min(hi_,max(a,0)+400000)); v=max(a,min(b,a+int(10**r.uniform(0,5.5))-1)); self.log[name]=v; return v
            span=r.choice([1,2,3,4,6,9]) if self.scale==0 else r.choice([3,8,17,33,70])
            b=min(hi_,a+span)
        v=r.randint(a,b); self.log[name]=v; return v
    def bool(self,name): v=self.rng.random()<0.5; self.log[name]=v; return v
    def real(self,name,lo=None,hi=None,vals=None,only=False):
        r=self.rng
        if vals is not None and (only or r.random()<0.7): v=r.choice(vals)
        else:
            v=self.rv(r)
            if lo is not None or hi is not None:
                a=-4. if lo is None else float(lo); b=a+4. if hi is None else float(hi)
                v=a+(b-a)*r.choice([0,1,.5,.25,r.random()])
                if lo is not None and v<lo: v=float(lo)
        v=ctypes.c_float(v).value
        self.log[name]=v; return v
    def choice(self,name,vals): v=self.rng.choice(vals); self.log[name]=v; return v
    def rv(self,r):
        if self.scale==2: return float(r.randint(-3,3))
        x=r.random()
        if x<.12: return 0.
        if x<.2: return 1.
        if x<.5: return float(r.randint(-3,3))
        if x<.6: return r.choice([-1,1])*r.random()*1e-2
        return r.uniform(-4,4)
    def draw(self,elem,dom):
        r=self.rng
        if callable(dom): v=dom(r)
        elif self.scale==2 and dom in('unit','open01','pos','nonneg'): v=r.choice({'unit':[0.,.5,1.],'open01':[.25,.5,.75],'pos':[1.,2.,.5],'nonneg':[0.,1.,2.]}[dom])
        elif isinstance(dom,(list,tuple)): v=r.choice(dom)
        elif dom=='binary': v=float(r.randint(0,1))
        elif dom=='unit': v=r.choice([0.,1.,.5,r.random(),r.random()])
        elif dom=='open01': v=min(max(r.random(),1e-3),1-1e-3)
        elif dom=='pos': v=abs(self.rv(r))+.05
        elif dom=='nonneg': v=abs(self.rv(r))
        elif dom=='tri': v=float(r.choice([0,0,0,1]))
        elif dom=='smallint': v=r.randint(0,3)
        elif elem in('float','double'): v=self.rv(r)
        else: v=r.randint(-3,3)
        if elem=='float': v=ctypes.c_float(v).value
        if elem in('i1','u8'): v=int(v)&(1 if elem=='i1' else 255)
        if elem[0]=='i' : v=int(v)
        return v
    def mat(self,name,rows,ncols,elem='float',const=False,dom=None,view=None):
        b=CBuf(self,name,elem,rows*ncols,rows,ncols,const); return self._add(b,dom)
    def buf(self,name,n,elem='float',const=False,dom=None):
        b=CBuf(self,name,elem,n,None,None,const); return self._add(b,dom)
    def _add(self,b,dom):
        if b.n<0 or b.n>(600000 if self.scale==2 else 200000): raise Skip()
        if self.scale==2 and not self.bufs and b.n<3000: raise Skip()
        # few distinct values often, to hit ties
        if self.rng.random()<.25 and not callable(dom):
            pool=[self.draw(b.elem,dom) for _ in range(2)]
            b.old=[self.rng.choice(pool) for _ in range(b.n)]
        else: b.old=[self.draw(b.elem,dom) for _ in range(b.n)]
        self.bufs.append(b); self.log[b.name]=b.old if b.n<=5000 else '%d values, regenerated from the seed'%b.n; return b
    def forall(self,b,pred):
        for i in range(b.n):
            if not pred(CPos(b,i)):
                # try to repair by redrawing
                for _ in range(40):
                    b.old[i]=self.draw(b.elem,self.rng.choice([None,'unit','pos','binary','open01']))
                    if pred(CPos(b,i)): break
                else: raise Skip()
    def require(self,c):
        if not c: raise Skip()
    def opaque(self,name): return ('opaque',name)
    def struct(self,name,size,ty=None,symbolic=True): return ('opaque',name)
    def null(self): return ('null',)
    def fold(self,name,nargs,init,step,sort='real',allf=False,**kw):
        return CFold(name,nargs,init,step,kw.get('base',0))
    def inverse(self,F,pred,upto):
        def f(r):
            for i in range(upto):
                if pred(i):
                    if r==0: return i
                    r-=1
            return 0
        return f
    def partial(self,*a): pass
    def scalar(self,*a): pass
    def handler(self,*a): pass
    def pat(self,*a): pass
    def lemma(self,*a): pass
    def args(self,*a): self.argv=a
    def post(self,buf,fn,tol=None,when=None): self.posts[buf]=(fn,tol)
    def postif(self,buf,cond,fn): self.condpost[buf]=(cond,fn)
    def anypost(self,buf): self.condpost[buf]=(lambda p:False,None)
    def outs(self,buf,vals): self.outsv[buf]=vals
    def heap(self,elem,ld=None): pass
    def memeq(self,a,b,n): return a.old[:n]==b.old[:n]
    def returns(self,fn,tol=None): self.rets.append(('eq',fn,tol))
    def ret_sat(self,fn,label='result'): self.rets.append(('sat',fn,None))
    def aborts(self,cond): self.abort_cond=bool(cond)
    def final_sat(self,fn,label='final state'): self.rets.append(('final',fn,label))
    def close(self,got,want,tol=None):
        if isinstance(want,bool) or isinstance(got,bool): return bool(got)==bool(want)
        if isinstance(want,int) and isinstance(got,int): return got==want
        want=float(want); got=float(got)
        if want!=want: return True
        if math.isinf(want): return got==want or abs(got)>1e30
        t=self.tol if tol is None else tol
        if self.scale==2: t=max(t,2e-2)
        return abs(got-want)<=t*(1+abs(want))
    def call(self):
        f=getattr(self.lib,self.ud.name)
        at=[]; av=[]
        info=PROTO[self.ud.tu][self.ud.name]
        f.restype=info[0]; 
        for v,t in zip(self.argv,info[1]):
            if isinstance(v,CBuf):
                ct=CT[v.elem]; nb=v.n*ctypes.sizeof(ct)
                base,tot,p=guarded(nb,self.rng.random()<.4)
                arr=(ct*max(v.n,1)).from_address(p) if v.n else None
                if v.n: arr[:]=v.old
                v.arr=arr; self.maps.append((base,tot)); av.append(p)
                if v.const: libc.mprotect(base+PG,tot-2*PG,1)
            elif isinstance(v,tuple):
                if v[0]=='null': av.append(None)
                else:
                    base,tot,p=guarded(1<<16,True); self.maps.append((base,tot)); av.append(p)
            elif isinstance(v,bool): av.append(int(v))
            else: av.append(v)
        f.argtypes=info[1]
        self.lib.vp_reset(ctypes.c_long(self.fail_at()))
        if getattr(self,'abort_cond',False):
            pid=os.fork()
            if pid==0:
                signal.alarm(60); f(*av); os._exit(0)
            _,status=os.waitpid(pid,0)
            if not(os.WIFSIGNALED(status) and os.WTERMSIG(status)==6): raise Mismatch('the call must be refused (abort) but was not')
            for base,tot in self.maps: libc.munmap(base,tot)
            return
        signal.alarm(60)
        r=f(*av)
        signal.alarm(0)
        if info[0] is ctypes.c_bool: r=bool(r)
        live=self.lib.vp_live()
        for b in self.bufs:
            if not hasattr(b,'arr'): continue
            now=list(b.arr[:b.n]) if b.n else []
            b.now=now
            if b in self.condpost:
                cf,vf=self.condpost[b]
                for i in range(b.n):
                    pp=CPos(b,i)
                    if cf(pp) and not self.close(now[i],vf(pp)): raise Mismatch('buffer %s cell %d: expected %r, code produced %r'%(b.name,i,vf(pp),now[i]))
                continue
            if b in self.outsv:
                for i,w in enumerate(self.outsv[b]):
                    if callable(w): w=w(r)
                    if w is None: continue
                    if isinstance(w,bool): w=int(w)
                    if not self.close(now[i],w): raise Mismatch('output %s[%d]: expected %r, code produced %r'%(b.name,i,w,now[i]))
                continue
            if b in self.posts:
                fn,tol=self.posts[b]
                for i in range(b.n):
                    w=fn(CPos(b,i))
                    if not self.close(now[i],w,tol): raise Mismatch('buffer %s cell %d%s: expected %r, code produced %r'%(b.name,i,' (row %d, column %d)'%(i%b.ld,i//b.ld) if b.is_mat and b.ld else '',w,now[i]))
            else:
                for i in range(b.n):
                    if now[i]!=b.old[i] and not(now[i]!=now[i] and b.old[i]!=b.old[i]): raise Mismatch('buffer %s cell %d must not change: was %r, now %r'%(b.name,i,b.old[i],now[i]))
        for kind,fn,tol in self.rets:
            if kind=='eq':
                w=fn()
                if not self.close(r,w,tol): raise Mismatch('returned value: expected %r, code returned %r'%(w,r))
            elif kind=='sat':
                if not fn(r): raise Mismatch('returned value %r violates the contract'%(r,))
            else:
                rd=lambda b,*q: b.now[q[0]*b.ld+q[1] if len(q)==2 else q[0]]
                if not fn(rd,r): raise Mismatch('final state violates the contract (%s), returned %r'%(tol,r))
        if live!=0 and not self.ud.kw.get('leak_ok'): raise Mismatch('%d heap block(s) not released'%live)
        for base,tot in self.maps: libc.munmap(base,tot)
    def fail_at(self):
        if not self.ud.alloc_fail: return -1
        v=self.rng.choice([-1,-1,0,1,2]); self.log['allocation that fails']=v; return v

PROTO={}
def load_protos(tu,ir_text,wanted):
    """native prototypes from the wrapper definitions in the IR"""
    import re
    P={}
    for m in re.finditer(r'(?m)^define [^@\n]*?(void|i1|i8|i16|i32|i64|float|double|ptr) @(w_\w+)\(([^\n]*?)\)[^\n]*\{',ir_text):
        rt,name,ps=m.groups()
        tmap={'void':None,'i1':ctypes.c_bool,'i8':ctypes.c_int8,'i16':ctypes.c_int16,'i32':ctypes.c_int32,'i64':ctypes.c_int64,'float':ctypes.c_float,'double':ctypes.c_double,'ptr':ctypes.c_void_p}
        a=[]
        for x in ps.split(','):
            x=x.strip()
            if x: a.append(tmap[x.split()[0]])
        P[name]=(tmap[rt],a)
    PROTO[tu]=P

def sample(lib,ud,seed,scale):
    c=ConcCtx(lib,ud,seed,scale)
    try: ud.fn(c)
    except Skip: return 'skip',None
    except Mismatch as e: return 'bad',{'seed':seed,'scale':scale,'why':str(e),'inputs':c.log}
    return 'ok',None

def search(so,ud,seed,count,seconds,scales=(0,0,0,1)):
    """run samples in forked children; returns (stats, failure or None)"""
    t0=time.time(); done=0; ok=0; skip=0
    base=(seed*1000003)&0x7fffffff
    while done<count and time.time()-t0<seconds:
        r,w=os.pipe(); pid=os.fork()
        if pid==0:
            try:
                os.close(r)
                signal.signal(signal.SIGALRM,signal.SIG_DFL); 
                for s in (signal.SIGSEGV,signal.SIGABRT,signal.SIGBUS,signal.SIGFPE): signal.signal(s,signal.SIG_DFL)
                import resource; resource.setrlimit(resource.RLIMIT_CORE,(0,0))
                dn=os.open('/dev/null',os.O_WRONLY); os.dup2(dn,2); os.dup2(dn,1)
                lib=ctypes.CDLL(so,mode=os.RTLD_NOW|os.RTLD_LOCAL); lib.vp_live.restype=ctypes.c_long
                for i in range(done,min(count,done+200)):
                    sc=scales[i%len(scales)]
                    os.write(w,b'S%d\n'%i)
                    st,info=sample(lib,ud,base+i,sc)
                    os.write(w,(('R%s '%st)+(json.dumps(info,default=str) if info else '')+'\n').encode())
                    if st=='bad': break
                    if time.time()-t0>seconds: break
                os.write(w,b'E\n')
            except BaseException as e:
                try: os.write(w,('X%r\n'%(e,)).encode())
                except Exception: pass
            os._exit(0)
        os.close(w); buf=b''
        while True:
            x=os.read(r,65536)
            if not x: break
            buf+=x
        os.close(r); _,status=os.waitpid(pid,0)
        cur=None; end=False
        for l in buf.decode(errors='replace').split('\n'):
            if l.startswith('S'): cur=int(l[1:]); 
            elif l.startswith('Rok'): ok+=1; cur=None; done+=1
            elif l.startswith('Rskip'): skip+=1; cur=None; done+=1
            elif l.startswith('Rbad'): return dict(run=done+1,ok=ok,skip=skip),json.loads(l[5:])
            elif l.startswith('X'): return dict(run=done,ok=ok,skip=skip,error=l[1:]),None
            elif l=='E': end=True
        if not end and cur is not None:
            # crashed on sample cur: reconstruct inputs without the call
            sig=os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            c=ConcCtx(None,ud,base+cur,scales[cur%len(scales)])
            try: ud.fn(c)
            except BaseException: pass
            return dict(run=done+1,ok=ok,skip=skip),{'seed':base+cur,'scale':scales[cur%len(scales)],'why':'the code crashed (signal %s: %s)'%(sig,{11:'out-of-bounds access or null dereference',6:'abort: invalid free or terminate',14:'did not terminate within 60 s',8:'arithmetic fault'}.get(sig,'')),'inputs':c.log}
        if not end and cur is None and done==0 and not buf: return dict(run=0,ok=0,skip=0,error='child died'),None
    return dict(run=done,ok=ok,skip=skip),None
