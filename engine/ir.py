"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that the verifier reads."""
import re

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ tokenizer
TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<local>%(?:"[^"]*"|[-\w$.]+))
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+ | -?\d+)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<ell>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('tokenize: %r' % s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k: out.append((k, m.group(k)))
    return out

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'el', 'name', 'packed')
    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.name = name; self.packed = packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'array': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '%s' % (self.name or self.el)
        return self.k
    def __eq__(self, o):
        return repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

VOID = Ty('void'); PTR = Ty('ptr'); FLOAT = Ty('float'); DOUBLE = Ty('double'); LABEL = Ty('label')
def INT(n): return Ty('int', n)

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned',
  'inreg','immarg','nofree','nest','swiftself','allocptr','noreturn','nounwind','dead_on_unwind','writable','allocalign','mustprogress'}
PARAM_ATTRS_ARG = {'dereferenceable','dereferenceable_or_null','sret','byval','align','elementtype','captures','range','byref','inalloca','initializes','memory','nofpclass'}
CCONV = {'ccc','fastcc','coldcc','x86_64_sysvcc','win64cc'}
LINK = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr',
 'external','dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','externally_initialized','thread_local'}
FMF = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

class Instr:
    __slots__ = ('op','res','ty','a','line','flags','extra')
    def __init__(self, op, res=None, ty=None, a=None, flags=(), extra=None):
        self.op=op; self.res=res; self.ty=ty; self.a=a or []; self.flags=flags; self.extra=extra; self.line=''
    def __repr__(self): return self.line or '%s %s' % (self.res, self.op)

class Block:
    def __init__(self, name): self.name=name; self.ins=[]
    @property
    def term(self): return self.ins[-1]
    def succs(self):
        t = self.term
        if t.op == 'br': return [x for x in t.extra]
        if t.op == 'switch': return [t.extra[0]] + [b for _, b in t.extra[1]]
        return []

class Func:
    def __init__(self, name, params, rty): self.name=name; self.params=params; self.rty=rty; self.blocks={}; self.order=[]

class Module:
    def __init__(self): self.types={}; self.globals={}; self.funcs={}; self.decls={}

class P:
    """token stream parser"""
    def __init__(self, toks, mod): self.t=toks; self.i=0; self.m=mod
    def peek(self, o=0): return self.t[self.i+o] if self.i+o < len(self.t) else (None,None)
    def next(self): x=self.peek(); self.i+=1; return x
    def at(self, v): return self.peek()[1]==v
    def eat(self, v):
        if self.peek()[1]==v: self.i+=1; return True
        return False
    def expect(self, v):
        if not self.eat(v): raise Unsupported('expected %r got %r in %r' % (v, self.peek(), [x[1] for x in self.t]))
    def end(self): return self.i>=len(self.t)

    def type(self):
        k,v = self.next()
        if k=='word':
            if re.fullmatch(r'i\d+', v): ty=INT(int(v[1:]))
            elif v=='ptr':
                ty=PTR
                if self.at('addrspace'): self.next(); self.expect('('); self.next(); self.expect(')')
            elif v=='float': ty=FLOAT
            elif v=='double': ty=DOUBLE
            elif v=='void': ty=VOID
            elif v=='label': ty=LABEL
            elif v=='metadata': ty=Ty('metadata')
            elif v in('half','x86_fp80','fp128','opaque','token'): ty=Ty(v)
            else: raise Unsupported('type %r'%v)
        elif k=='local': ty=Ty('struct',name=v)
        elif v=='[':
            n=int(self.next()[1]); self.expect('x'); el=self.type(); self.expect(']'); ty=Ty('array',n,el)
        elif v=='{':
            els=[]
            while not self.eat('}'):
                els.append(self.type()); self.eat(',')
            ty=Ty('struct',el=els)
        elif v=='<':
            if self.at('{'):
                self.next(); els=[]
                while not self.eat('}'):
                    els.append(self.type()); self.eat(',')
                self.expect('>'); ty=Ty('struct',el=els,packed=True)
            else:
                n=int(self.next()[1]); self.expect('x'); el=self.type(); self.expect('>'); ty=Ty('vector',n,el)
        else: raise Unsupported('type tok %r'%((k,v),))
        # function type?
        if self.at('(') and ty.k!='label':
            d=0
            while True:
                x=self.next()[1]
                if x=='(': d+=1
                elif x==')':
                    d-=1
                    if d==0: break
            # leave as function type result
            ty2=Ty('fn',el=ty); 
            while self.eat('*'): ty2=PTR
            return ty2
        return ty

    def param_attrs(self):
        while True:
            k,v=self.peek()
            if v in PARAM_ATTRS: self.next()
            elif v in PARAM_ATTRS_ARG:
                self.next()
                if v=='align' and self.peek()[0]=='num': self.next()
                elif self.at('('):
                    d=0
                    while True:
                        x=self.next()[1]
                        if x=='(': d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
            elif k=='str':
                self.next()
                if self.eat('='): self.next()
            elif k=='attr': self.next()
            else: return

    def value(self, ty):
        """operand of a known type -> ('v',name) | ('c',const) | ('g',name) | ('ce',op,...) | ('undef',) | ('null',) | ('agg',[..]) | ('zero',)"""
        k,v=self.next()
        if k=='local': return ('v',v)
        if k=='glob': return ('g',v)
        if k=='num':
            if ty.k in('float','double'):
                return ('c', parse_fp(v))
            if v.startswith('0x'): return ('c',int(v,16))
            return ('c',int(v))
        if k=='cstr': return ('str',v)
        if k=='word':
            if v=='true': return ('c',True)
            if v=='false': return ('c',False)
            if v=='null': return ('null',)
            if v in('undef','poison'): return ('undef',)
            if v=='zeroinitializer': return ('zero',)
            if v=='none': return ('null',)
            if v in('getelementptr',):
                inb=self.eat('inbounds'); self.expect('('); bt=self.type(); self.expect(',')
                ops=[]
                while True:
                    t=self.type(); ops.append((t,self.value(t)))
                    if self.eat(')'): break
                    self.expect(',')
                return ('ce','gep',bt,ops)
            if v in('inttoptr','ptrtoint','bitcast','trunc','zext','sext'):
                self.expect('('); t=self.type(); x=self.value(t); self.expect('to'); t2=self.type(); self.expect(')')
                return ('ce',v,t,x,t2)
            if v in('add','sub','mul','icmp','select','and','or','xor','shl','lshr','ashr'):
                self.i-=1
                self.next(); 
                pred=None
                while self.peek()[1] in('nsw','nuw','exact','inbounds'): self.next()
                if v=='icmp': pred=self.next()[1]
                self.expect('('); ops=[]
                while True:
                    t=self.type(); ops.append((t,self.value(t)))
                    if self.eat(')'): break
                    self.expect(',')
                return ('ce',v,pred,ops)
            raise Unsupported('value word %r'%v)
        if v in('[','{','<'):
            close={'[':']','{':'}','<':'>'}[v]
            if v=='<' and self.at('{'):
                self.next(); close='}>'
            els=[]
            while True:
                if close=='}>':
                    if self.at('}'): self.next(); self.expect('>'); break
                elif self.eat(close): break
                t=self.type(); els.append((t,self.value(t))); self.eat(',')
            return ('agg',els)
        raise Unsupported('value %r'%((k,v),))

    def tv(self):
        t=self.type(); self.param_attrs(); return (t,self.value(t))

def parse_fp(v):
    """-> Fraction, or ('special', bits) for inf/nan"""
    import struct
    from fractions import Fraction
    if v.startswith('0x'):
        b=int(v,16); d=struct.unpack('<d',struct.pack('<Q',b))[0]
    else: d=float(v)
    if d!=d: return ('nan',)
    if d in(float('inf'),float('-inf')): return ('inf',1 if d>0 else -1)
    return Fraction(d)

def split_toplevel(text):
    lines=text.split('\n'); i=0
    while i<len(lines):
        l=lines[i]
        if l.startswith('define'):
            j=i
            while lines[j]!='}': j+=1
            yield 'define',lines[i:j+1]; i=j+1; continue
        if l.startswith('declare'): yield 'declare',[l]
        elif l.startswith('%') and ' = type ' in l: yield 'type',[l]
        elif l.startswith('@'): yield 'global',[l]
        i+=1

def strip_meta(l):
    # drop ", !dbg !12" style suffixes
    return re.sub(r',\s*![\w.]+\s+![\w.]*(\{[^}]*\})?','',l)

def parse_module(text, want=None):
    m=Module(); text=text.replace(' inrange i',' i')
    for kind,ls in split_toplevel(text):
        if kind=='type':
            l=ls[0]; name,rhs=l.split(' = type ',1)
            if rhs.strip()=='opaque': m.types[name]=Ty('opaque'); continue
            m.types[name]=P(tokenize(rhs),m).type()
        elif kind=='global':
            l=strip_meta(ls[0])
            mm=re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$',l)
            try:
                p=P(tokenize(mm.group(2)),m)
                while p.peek()[1] in LINK or p.at('addrspace'):
                    x=p.next()[1]
                    if x=='thread_local' and p.at('('): p.next();p.next();p.next()
                kindw=p.next()[1]
                if kindw not in('global','constant'): continue
                ty=p.type(); init=None
                if not p.end() and p.peek()[1]!=',':
                    try: init=p.value(ty)
                    except Unsupported: init=None
                m.globals[mm.group(1)]=(ty,init,kindw=='constant')
            except Unsupported:
                pass
        elif kind=='declare':
            mm=re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(',ls[0])
            if mm: m.decls[mm.group(1)]=ls[0]
        else:
            mm=re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(',ls[0])
            m.funcs[mm.group(1)]=ls     # lazily parsed
    return m

def get_func(m, name):
    f=m.funcs[name]
    if isinstance(f,Func): return f
    f=parse_func(m,f); m.funcs[name]=f; return f

def parse_func(m, ls):
    head=ls[0]
    p=P(tokenize(strip_meta(head.rstrip('{ '))),m)
    p.expect('define')
    while p.peek()[1] in LINK or p.peek()[1] in CCONV: p.next()
    p.param_attrs(); rty=p.type(); name=p.next()[1]
    p.expect('('); params=[]
    while not p.eat(')'):
        if p.peek()[0]=='ell': p.next(); continue
        t=p.type(); p.param_attrs(); n=p.next()[1]; params.append((n,t)); p.eat(',')
    f=Func(name,params,rty)
    # first block label: numbered after params unless explicit
    cur=None
    body=ls[1:-1]
    # join multi-line switch
    joined=[]; i=0
    while i<len(body):
        l=body[i]
        if re.match(r'\s+switch ',l) and not l.rstrip().endswith(']'):
            while not body[i].strip().startswith(']'):
                i+=1; l+=' '+body[i].strip()
        joined.append(l); i+=1
    for l in joined:
        if not l.strip() or l.strip().startswith(';'): continue
        mm=re.match(r'^((?:"[^"]*"|[-\w$.]+)):',l)
        if mm:
            cur=Block('%'+mm.group(1)); f.blocks[cur.name]=cur; f.order.append(cur.name); continue
        if cur is None:
            n=sum(1 for pn,_ in params if re.fullmatch(r'%\d+',pn))
            cur=Block('%%%d'%n); f.blocks[cur.name]=cur; f.order.append(cur.name)
        ins=parse_instr(m,l)
        if ins is not None:
            ins.line=l.strip(); cur.ins.append(ins)
    return f

BIN={'add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST={'sext','zext','trunc','bitcast','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','addrspacecast'}

def parse_instr(m,l):
    l0=l; l=strip_meta(l)
    p=P(tokenize(l),m)
    res=None
    if p.peek()[0]=='local' and p.peek(1)[1]=='=':
        res=p.next()[1]; p.next()
    op=p.next()[1]
    if op in('tail','musttail','notail'): op=p.next()[1]
    flags=set()
    if op in BIN:
        while p.peek()[1] in FMF|{'nsw','nuw','exact','disjoint'}: flags.add(p.next()[1])
        t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Instr(op,res,t,[a,b],flags)
    if op=='fneg':
        while p.peek()[1] in FMF: p.next()
        t=p.type(); return Instr(op,res,t,[p.value(t)])
    if op in('icmp','fcmp'):
        while p.peek()[1] in FMF: p.next()
        pred=p.next()[1]; t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Instr(op,res,t,[a,b],flags,pred)
    if op in CAST:
        while p.peek()[1] in('nneg','nsw','nuw'): p.next()
        t=p.type(); a=p.value(t); p.expect('to'); t2=p.type()
        return Instr(op,res,t2,[a],flags,t)
    if op=='phi':
        while p.peek()[1] in FMF: p.next()
        t=p.type(); inc=[]
        while p.eat('['):
            v=p.value(t); p.expect(','); b=p.next()[1]; p.expect(']'); inc.append((v,b)); p.eat(',')
        return Instr(op,res,t,[],flags,inc)
    if op=='select':
        while p.peek()[1] in FMF: p.next()
        c=p.tv(); p.expect(','); a=p.tv(); p.expect(','); b=p.tv()
        return Instr(op,res,a[0],[c[1],a[1],b[1]],flags,c[0])
    if op=='br':
        if p.at('label'): p.next(); return Instr(op,extra=[p.next()[1]])
        t=p.type(); c=p.value(t); p.expect(','); p.expect('label'); a=p.next()[1]; p.expect(','); p.expect('label'); b=p.next()[1]
        return Instr(op,a=[c],extra=[a,b])
    if op=='switch':
        t=p.type(); c=p.value(t); p.expect(','); p.expect('label'); d=p.next()[1]; p.expect('['); cs=[]
        while not p.eat(']'):
            tt=p.type(); v=p.value(tt); p.expect(','); p.expect('label'); cs.append((v[1],p.next()[1]))
        return Instr(op,ty=t,a=[c],extra=(d,cs))
    if op=='ret':
        t=p.type()
        if t.k=='void': return Instr(op,ty=t)
        return Instr(op,ty=t,a=[p.value(t)])
    if op=='unreachable': return Instr(op)
    if op=='alloca':
        p.eat('inalloca'); t=p.type(); n=None
        if p.eat(','):
            if not p.at('align'): n=p.tv()
        return Instr(op,res,t,[],flags,n)
    if op=='load':
        at=p.eat('atomic'); p.eat('volatile'); t=p.type(); p.expect(','); a=p.tv()
        return Instr(op,res,t,[a[1]])
    if op=='store':
        p.eat('atomic'); p.eat('volatile'); v=p.tv(); p.expect(','); a=p.tv()
        return Instr(op,None,v[0],[v[1],a[1]])
    if op=='getelementptr':
        while p.peek()[1] in('inbounds','nuw','nusw'): p.next()
        bt=p.type(); p.expect(','); base=p.tv(); idx=[]
        while p.eat(','): idx.append(p.tv())
        return Instr('gep',res,bt,[base[1]],flags,idx)
    if op in('call','invoke'):
        while p.peek()[1] in FMF or p.peek()[1] in CCONV: p.next()
        p.param_attrs(); rty=p.type(); 
        if rty.k=='fn': rty=rty.el
        callee=p.next(); p.expect('('); args=[]
        while not p.eat(')'):
            t=p.type()
            if t.k=='metadata':
                # skip metadata operand
                d=0
                while not((p.at(',') or p.at(')')) and d==0):
                    x=p.next()[1]
                    if x in('(','{','['): d+=1
                    if x in(')','}',']'): d-=1
                args.append((t,('undef',)))
            else:
                p.param_attrs(); args.append((t,p.value(t)))
            p.eat(',')
        extra={'callee':callee,'args':args}
        if op=='invoke':
            # ... to label %x unwind label %y
            while not p.at('to'): p.next()
            p.next(); p.expect('label'); extra['normal']=p.next()[1]
        return Instr(op,res,rty,[],flags,extra)
    if op=='extractvalue':
        a=p.tv(); idx=[]
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr(op,res,a[0],[a[1]],flags,idx)
    if op=='insertvalue':
        a=p.tv(); p.expect(','); b=p.tv(); idx=[]
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr(op,res,a[0],[a[1],b[1]],flags,(b[0],idx))
    if op=='freeze':
        a=p.tv(); return Instr(op,res,a[0],[a[1]])
    if op in('landingpad','resume','cleanup','catch','filter','fence','atomicrmw','cmpxchg','extractelement','insertelement','shufflevector','va_arg'):
        i=Instr('unsup',res,None,[],flags,op); return i
    raise Unsupported('instr %s'%l0)

# ------------------------------------------------------------------ data layout
class DL:
    def __init__(self,m): self.m=m; self.c={}
    def res(self,t):
        if t.k=='struct' and t.name: return self.m.types[t.name]
        return t
    def align(self,t):
        t=self.res(t)
        if t.k=='int': return max(1,min(8,1<<((t.n+7)//8-1).bit_length()) if t.n>8 else 1)
        if t.k=='float': return 4
        if t.k in('double','ptr'): return 8
        if t.k=='array': return self.align(t.el)
        if t.k=='struct':
            if t.packed or not t.el: return 1
            return max(self.align(e) for e in t.el)
        if t.k=='x86_fp80' or t.k=='fp128': return 16
        if t.k=='vector': return self.size(t)
        raise Unsupported('align %r'%t)
    def size(self,t):
        t=self.res(t)
        if t.k=='int':
            b=(t.n+7)//8
            return b if b<=1 else 1<<(b-1).bit_length()
        if t.k=='float': return 4
        if t.k in('double','ptr'): return 8
        if t.k=='array': return t.n*self.size(t.el)
        if t.k=='vector': return t.n*self.size(t.el)
        if t.k=='x86_fp80' or t.k=='fp128': return 16
        if t.k=='struct':
            o=0
            for e in t.el:
                if not t.packed:
                    a=self.align(e); o=(o+a-1)//a*a
                o+=self.size(e)
            a=self.align(t); return (o+a-1)//a*a
        raise Unsupported('size %r'%t)
    def field(self,t,i):
        t=self.res(t); o=0
        for j,e in enumerate(t.el):
            if not t.packed:
                a=self.align(e); o=(o+a-1)//a*a
            if j==i: return o,e
            o+=self.size(e)
        raise Unsupported('field')

# ------------------------------------------------------------------ CFG / loops
class Loop:
    def __init__(self,h): self.header=h; self.blocks={h}; self.latches=set(); self.parent=None; self.depth=0
    def __repr__(self): return 'Loop(%s,%d)'%(self.header,len(self.blocks))

def find_loops(f):
    preds={b:[] for b in f.order}
    for b in f.order:
        for s in f.blocks[b].succs(): preds[s].append(b)
    # reachable
    entry=f.order[0]; reach=[]; seen=set()
    def dfs(b):
        st=[(b,iter(f.blocks[b].succs()))]; seen.add(b)
        while st:
            x,it=st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s,iter(f.blocks[s].succs()))); break
            else: reach.append(x); st.pop()
    dfs(entry)
    rpo=reach[::-1]; idx={b:i for i,b in enumerate(rpo)}
    dom={entry:entry}
    ch=True
    def inter(a,b):
        while a!=b:
            while idx[a]>idx[b]: a=dom[a]
            while idx[b]>idx[a]: b=dom[b]
        return a
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in preds[b] if p in dom]
            n=ps[0]
            for p in ps[1:]: n=inter(p,n)
            if dom.get(b)!=n: dom[b]=n; ch=True
    def dominates(a,b):
        while True:
            if a==b: return True
            if b==entry: return False
            b=dom[b]
    loops={}
    for b in rpo:
        for s in f.blocks[b].succs():
            if dominates(s,b):
                L=loops.setdefault(s,Loop(s)); L.latches.add(b)
                st=[b]
                while st:
                    x=st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st.extend(p for p in preds[x] if p in idx)
            elif idx[s]<=idx[b]:
                raise Unsupported('irreducible CFG in %s'%f.name)
    ls=sorted(loops.values(),key=lambda L:len(L.blocks))
    for i,L in enumerate(ls):
        for M in ls[i+1:]:
            if L.header in M.blocks: L.parent=M; break
    f.preds=preds; f.loops=loops
    return loops
