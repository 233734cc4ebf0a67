"""Mechanical extraction: compile the real headers of /repo (through thin wrappers) to LLVM IR and to a native library.
What the extraction changes (regenerated from /repo's working tree on every run, listed in DESIGN.md):
 - MSVC-only spellings are completed by fixed regular expressions (missing 'typename'/'template', base-class names),
 - the MSVC runtime names are provided by harness/shim/vp_shim.h.
No statement of nntl is added, removed or reordered."""
import os, re, subprocess, sys, hashlib, tempfile, shutil
REPO=os.environ.get('VP_REPO','/repo'); HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
ATOM=['-D__GCC_ATOMIC_%s_LOCK_FREE=2'%t for t in 'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()]+['-D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1']
PRE=[]
for h in 'cmath cstring cstdint cstdlib ctime climits array vector string memory functional algorithm numeric mm_malloc.h'.split(): PRE+=['-include',h]
FLAGS=['-std=c++17','-w','-pthread','-fno-strict-aliasing','-fms-extensions','-fms-compatibility','-fms-compatibility-version=19','-fdelayed-template-parsing','-ferror-limit=0']+ATOM+PRE+['-D__cdecl=']
MATHN_USING=("using typename base_class_t::Thresholds_t; using typename base_class_t::rowcol_range; using typename base_class_t::elms_range; "
 "using typename base_class_t::vec_range; using typename base_class_t::range_t; using typename base_class_t::par_range_t; using typename base_class_t::reduce_data_t; "
 "using typename base_class_t::_OperationType; using base_class_t::mrw_cw; using base_class_t::mrw_rw; using typename base_class_t::_mrwHlpr_rw_UpdVecElm; "
 "using typename base_class_t::self_t; using typename base_class_t::mtx_size_t; using base_class_t::get_self; using typename base_class_t::iThreads_t; using typename base_class_t::iMemmgr_t; "
 "template<typename T_> using converter_reduce_data_tpl=typename base_class_t::template converter_reduce_data_tpl<T_>;")
def adapt_smatrix(t):
    i=re.search(r'(?m)^\s*class smatrix_deform\b',t)
    if not i: return t
    i=i.start()
    return t[:i]+re.sub(r'\bsmatrix(&&?)',r'smatrix<T_>\1',t[i:])
TMPL=lambda t:re.sub(r'get_self\(\)\.(\w+<[\w:, ]+>\()',r'get_self().template \1',re.sub(r'\bF\.(op|rw_updVecElm)<',r'F.template \1<',t))
def adapt_smath(t):
    t=re.sub(r'\bThresholds_t::(\w+)<',r'Thresholds_t::template \1<',t)
    return re.sub(r'\bA\.(triangl_coords_from_idx)<',r'A.template \1<',TMPL(t))
def adapt_mathn(t):
    t=TMPL(t); t=re.sub(r'(?<!typename )\b(realmtx_t::tag_noBias\(\))',r'typename \1',t); t=re.sub(r'(?<![\w:.])_reduce_vec_sum<','base_class_t::template _reduce_vec_sum<',t)
    t=re.sub(r'(?m)^(\s*)using base_class_t::(real_t|realmtx_t|realmtxdef_t);',r'\1using typename base_class_t::\2;',t)
    return re.sub(r'(?m)^(\s*)typedef bindingBlasT b_BLAS_t;',lambda m:m.group(0)+MATHN_USING,t,count=1)
def adapt_td(t):
    """names of dependent base classes that MSVC finds without qualification"""
    t=re.sub(r'= (flag_exclude_nothing|train_set_id)\)',r'= DataSetsId::\1)',t)
    t=re.sub(r'case (train_set_id|test_set_id):',r'case DataSetsId::\1:',t)
    t=t.replace('typename self_t::default_StatsFuncT','default_StatsFuncT').replace('typename NormF = self_t::template NormalizerF_tpl<StatsT, StatsFuncT>','typename NormF = NormalizerF_tpl<StatsT, StatsFuncT>')
    t=t.replace('is_base_of<_i_train_data, Final','is_base_of<_i_train_data<XT, YT>, Final')
    t=re.sub(r'\b(get_self\(\)|m_td|td)\.(_fix_\w+<|_do_fix_\w+<)',r'\1.template \2',t).replace('<decltype(fn)::','<typename decltype(fn)::')
    t=re.sub(r'(?m)^\s*typedef _NormBase<TdT, CommonDataT> _nbase_t;',lambda m:m.group(0)+' using typename _base_t::statsdata_t; using typename _base_t::self_t; using _base_t::get_self; using _nbase_t::m_td; using _nbase_t::m_Setts; using _nbase_t::m_CD;',t)
    return re.sub(r'(?m)^(\s*)using base_class_t::(\w+_t);',r'\1using typename base_class_t::\2;',t)
def adapt_m2n(t):
    t=t.replace('using StatsFunctor_t::mtx_update_t;','using typename StatsFunctor_t::mtx_update_t;')
    return re.sub(r'(?m)^\s*struct _FNorm_(?:whole|cw)_base : public (_FNorm_base<[^{]*?>) \{',lambda m:m.group(0)+' using typename %s::statsdata_t; using %s::get_self;'%((m.group(1),)*2),t)
def adapt_ser(t): return re.sub(r'\bnvp(?=\(| & |&>)','nvp<T>',t[:t.find('make_named_struct')])+t[t.find('make_named_struct'):]
def adapt_opt(t): return t.replace(', constexpr bool> binary_option',', bool> binary_option')
ADAPT={'nntl/train_data/_td_norm.h':adapt_td,'nntl/utils/mtx2Normal.h':adapt_m2n,'nntl/train_data/_train_data_simple.h':adapt_td,'nntl/train_data/_td_base.h':adapt_td,'nntl/train_data/inmem_train_data.h':adapt_td,'nntl/serialization/serialization.h':adapt_ser,'nntl/utils/options.h':adapt_opt,
 'nntl/interface/math/smatrix.h':adapt_smatrix,'nntl/interface/math/smath.h':adapt_smath,'nntl/interface/math/mathn.h':adapt_mathn}
import adapt_nn; ADAPT.update(adapt_nn.ADAPT)
class BuildError(Exception): pass
def adaptations(): return ADAPT
def make_overlay(d):
    dirs={}
    for rel,fn in ADAPT.items():
        src=os.path.join(REPO,rel)
        if not os.path.exists(src): continue
        t=fn(open(src,encoding='utf-8',errors='surrogateescape').read())
        out=os.path.join(d,'gen',rel.replace('/','__')); os.makedirs(os.path.dirname(out),exist_ok=True)
        open(out,'w',encoding='utf-8',errors='surrogateescape').write(t)
        dirs.setdefault(os.path.dirname(src),[]).append((os.path.basename(src),out))
    y="{ 'version': 0, 'use-external-names': false, 'roots': [ %s ] }"%', '.join("{ 'name': '%s', 'type':'directory', 'contents':[ %s ] }"%(k,', '.join("{'name':'%s','type':'file','external-contents':'%s'}"%x for x in v)) for k,v in dirs.items())
    p=os.path.join(d,'ov.yaml'); open(p,'w').write(y); return p
def expand(text):
    """//@for X in a b c: line with $X   -> one line per value (the value X stands for the empty string)"""
    out=[]
    for l in text.split('\n'):
        m=re.match(r'//@for (\w+) in ([^:]*): (.*)$',l)
        if not m: out.append(l); continue
        for v in m.group(2).split(): out.append(m.group(3).replace('$'+m.group(1),'' if v=='X' else v))
    return '\n'.join(out)
def wrappers_of(text): return sorted(set(re.findall(r'\b(w_[A-Za-z0-9_]+)\s*\(',text)))
def strip_wrappers(text,names):
    """remove the definitions of some wrappers (they no longer compile against the current tree)"""
    for n in names:
        text=re.sub(r'(?m)^W\s[^\n]*\b%s\s*\([^\n]*$'%re.escape(n),'',text)
    return text
def run(cmd,timeout=600):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=timeout); return p.returncode,p.stdout
def compile_tu(d,tu,native=True,only=None):
    """returns dict(ir=path, so=path, dropped={wrapper:reason})"""
    src=os.path.join(VERIF,'harness',tu+'.cpp'); text=expand(open(src).read())
    ov=os.path.join(d,'ov.yaml')
    if not os.path.exists(ov): make_overlay(d)
    dropped={}
    base=FLAGS+['-ivfsoverlay',ov,'-I',os.path.join(VERIF,'harness','shim'),'-I',os.path.join(VERIF,'harness'),'-I',REPO]
    wd=os.path.join(d,tu); os.makedirs(wd,exist_ok=True)
    if only is not None:
        text=strip_wrappers(text,[w for w in wrappers_of(text) if w not in only])
    for attempt in range(6):
        cpp=os.path.join(wd,tu+'.cpp'); open(cpp,'w').write(text)
        ll=os.path.join(wd,tu+'.ll')
        rc,out=run(['clang++-18']+base+['-O0','-Xclang','-disable-O0-optnone','-S','-emit-llvm',cpp,'-o',ll])
        if rc==0: break
        lines=text.split('\n'); bad={}
        cur=None
        for l in out.split('\n'):
            m=re.match(r'(.*?):(\d+):(\d+): (error|fatal error|note): (.*)',l)
            if not m: continue
            if m.group(4)!='note': cur=m.group(5)
            if os.path.basename(m.group(1))==tu+'.cpp':
                n=int(m.group(2))-1
                mm=re.search(r'\b(w_[A-Za-z0-9_]+)\s*\(',lines[n]) if n<len(lines) else None
                if mm and lines[n].startswith('W '): bad[mm.group(1)]=cur
        if not bad: raise BuildError('harness %s does not compile against the current tree:\n%s'%(tu,out[-3000:]))
        dropped.update(bad); text=strip_wrappers(text,bad)
    else: raise BuildError('harness %s does not compile'%tu)
    api=wrappers_of(text)
    t=open(ll).read(); t=re.sub(r'(?m)^(attributes #\d+ = \{.*?)\bnoinline ',r'\1',t)
    keep=re.findall(r'(?m)^// *VP_NOINLINE (\S+)',text)
    open(ll,'w').write(t)
    opt=os.path.join(wd,tu+'.opt.ll')
    exe_only='// VP_EXECUTED_ONLY' in text   # no unit of this harness is proved: no inlining of everything into the wrappers
    passes='function(lowerinvoke,simplifycfg),internalize,globaldce,cgscc(inline),function(sroa,early-cse,simplifycfg,sroa,early-cse,adce,simplifycfg,loop-simplify,lcssa),globaldce'
    if exe_only: passes='function(simplifycfg)'
    rc,out=run(['opt-18','-S','-passes='+passes,'-inline-threshold=1000000','-internalize-public-api-list='+','.join(api),ll,'-o',opt])
    if rc!=0: raise BuildError('opt failed on %s: %s'%(tu,out[-2000:]))
    so=None
    if native:
        so=os.path.join(wd,tu+'.so')
        rc,out=run(['clang++-18']+base+['-O0','-fPIC','-shared','-Wl,-Bsymbolic','-DVP_NATIVE=1',cpp,os.path.join(VERIF,'harness','shim','vp_runtime.cpp'),'-o',so,'-lm','-lpthread'])
        if rc!=0: raise BuildError('native build of %s failed: %s'%(tu,out[-3000:]))
    return {'ir':opt,'so':so,'dropped':dropped,'api':api}
