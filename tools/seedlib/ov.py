import re,sys,os
R,D=sys.argv[1:3]
U=("using typename base_class_t::Thresholds_t; using typename base_class_t::rowcol_range; using typename base_class_t::elms_range; "
 "using typename base_class_t::vec_range; using typename base_class_t::range_t; using typename base_class_t::par_range_t; using typename base_class_t::reduce_data_t; "
 "using typename base_class_t::_OperationType; using base_class_t::mrw_cw; using base_class_t::mrw_rw; using typename base_class_t::_mrwHlpr_rw_UpdVecElm; "
 "using typename base_class_t::self_t; using typename base_class_t::mtx_size_t; using base_class_t::get_self; using typename base_class_t::iThreads_t; using typename base_class_t::iMemmgr_t;")
def a1(t):
    i=re.search(r'(?m)^\s*class smatrix_deform\b',t)
    return t if not i else t[:i.start()]+re.sub(r'\bsmatrix(&&?)',r'smatrix<T_>\1',t[i.start():])
def a2(t): return re.sub(r'\bF\.op<','F.template op<',t)
def a3(t):
    t=re.sub(r'\bF\.op<','F.template op<',t)
    t=re.sub(r'(?m)^(\s*)using base_class_t::(real_t|realmtx_t|realmtxdef_t);',r'\1using typename base_class_t::\2;',t)
    return re.sub(r'(?m)^(\s*)typedef bindingBlasT b_BLAS_t;',lambda m:m.group(0)+U,t,count=1)
fs=[]
for n,f in(('smatrix.h',a1),('smath.h',a2),('mathn.h',a3)):
    p=os.path.join(R,'nntl/interface/math',n); t=f(open(p,encoding='utf-8',errors='surrogateescape').read())
    o=os.path.join(D,n); open(o,'w',encoding='utf-8',errors='surrogateescape').write(t); fs.append("{'name':'%s','type':'file','external-contents':'%s'}"%(n,o))
open(os.path.join(D,'ov.yaml'),'w').write("{ 'version': 0, 'use-external-names': false, 'roots': [ { 'name': '%s', 'type':'directory', 'contents':[ %s ] } ] }"%(os.path.join(R,'nntl/interface/math'),', '.join(fs)))
