#include "vp_common.h"
// observers: public queries only
template<class X> static void obs(const X& m,ll*o){ o[0]=m.rows(); o[1]=m.cols(); o[2]=m.emulatesBiases(); o[3]=m.empty()?0:m.hasHoleyBiases(); o[4]=m.bBatchInRow(); o[5]=m.bDontManageStorage(); o[6]=m.empty(); o[7]=m.isAllocationFailed(); }
// ---- shape and addressing
W void w_shape(float*p,int r,int c,bool eb,bool hb,bool bir,bool nb,ll*o){ const M m(p,r,c,eb,hb,bir); obs(m,o); o[8]=m.rows_no_bias(); o[9]=m.cols_no_bias(); o[10]=m.rows(nb); o[11]=m.cols(nb); o[12]=m.sample_size(); o[13]=m.batch_size(); o[14]=m.has_bias_row(); o[15]=m.has_bias_column(); o[16]=m.ldim(); o[17]=m.ldimAsVecLen(); }
W void w_numel(float*p,int r,int c,bool eb,bool hb,bool bir,bool nb,ll*o){ const M m(p,r,c,eb,hb,bir); o[0]=m.numel(); o[1]=m.numel_no_bias_sBiR(); o[2]=m.numel_sBiR(nb); o[3]=m.byte_size(); o[4]=m.end()-m.begin(); o[5]=m.end_sBiR(nb)-m.data(); o[6]=m.end_no_bias_sBiR()-m.data(); o[7]=M::sNumel(r,c); o[8]=M::sNumel(m.size()); o[9]=m._universal_range_BiR_aware(nb); }
W void w_numel_bic(float*p,int r,int c,bool eb,bool hb,bool nb,ll*o){ const M m(p,r,c,eb,hb,false); o[0]=m.numel_no_bias(); o[1]=m.numel(nb); o[2]=m.byte_size_no_bias(); o[3]=m.end(nb)-m.data(); o[4]=m.end_no_bias()-m.data(); }
W void w_numel_mut(float*p,int r,int c,bool eb,bool hb,bool bir,bool nb,ll*o){ M m(p,r,c,eb,hb,bir); o[0]=m.end()-m.begin(); o[1]=m.end_sBiR(nb)-m.data(); o[2]=m.end_no_bias_sBiR()-m.data(); }
W void w_numel_mut_bic(float*p,int r,int c,bool eb,bool hb,bool nb,ll*o){ M m(p,r,c,eb,hb,false); o[0]=m.end(nb)-m.data(); o[1]=m.end_no_bias()-m.data(); }
W void w_sizes(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ const M m(p,r,c,eb,hb,bir); o[0]=m.size().first; o[1]=m.size().second; o[2]=m.transposed_size().first; o[3]=m.transposed_size().second; o[4]=m.size_no_bias().first; o[5]=m.size_no_bias().second; o[6]=m.transposed_size_no_bias().first; o[7]=m.transposed_size_no_bias().second; o[8]=m.dataset_size().first; o[9]=m.dataset_size().second; o[10]=m.bBatchInColumn(); o[11]=m.bSampleInRow(); o[12]=m.bSampleInColumn(); o[13]=m.bOwnStorage(); }
W void w_addr(float*p,int r,int c,bool eb,bool bir,int i,int j,ll*o){ M m(p,r,c,eb,false,bir); const M& k=m; o[0]=&m.get(i,j)-p; o[1]=&k.get(i,j)-p; o[2]=m.colDataAsVec(j)-p; o[3]=k.colDataAsVec(j)-p; o[4]=&m.get(M::mtx_coords_t(i,j))-p; o[5]=&k.get(M::mtx_coords_t(i,j))-p; }
W void w_biascol(float*p,int r,int c,ll*o){ M m(p,r,c,true,false,false); const M& k=m; o[0]=m.bias_column()-p; o[1]=k.bias_column()-p; }
W void w_set(float*p,int r,int c,bool eb,bool bir,int i,int j,float v){ M m(p,r,c,eb,false,bir); m.set(i,j,v); }
W float w_get(float*p,int r,int c,bool eb,bool bir,int i,int j){ const M m(p,r,c,eb,false,bir); return m.get(i,j); }
W void w_submat(float*p,int r,int c,bool eb,bool bir,int cb,int n,ll*o){ M m(p,r,c,eb,false,bir); M s(m.submatrix_cols_no_bias(cb,n)); obs(s,o); o[8]=s.data()-p; }
W void w_submat_d(float*p,int r,int c,bool eb,int cb,int n,ll*o){ MD m(p,r,c,eb,false,false); MD s(m.submatrix_cols_no_bias(cb,n)); obs(s,o); o[8]=s.data()-p; }
// ---- fills and biases
W void w_fill(float*p,int r,int c,bool eb,bool bir,float v){ M m(p,r,c,eb,false,bir); m.fill(v); }
W void w_ones(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(p,r,c,eb,hb,bir); m.ones(); obs(m,o); }
W void w_zeros(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(p,r,c,eb,hb,bir); m.zeros(); obs(m,o); }
W void w_fillcol(float*p,int r,int c,bool eb,int j,float v){ M m(p,r,c,eb,false,false); m.fill_column_with(j,v); }
W void w_fillrow(float*p,int r,int c,bool eb,int j,float v){ M m(p,r,c,eb,false,true); m.fill_row_with(j,v); }
W void w_filllastcol(float*p,int r,int c,bool eb,float v){ M m(p,r,c,eb,false,false); m.fill_last_column(v); }
W void w_filllastrow(float*p,int r,int c,bool eb,float v){ M m(p,r,c,eb,false,true); m.fill_last_row(v); }
W void w_setbias(float*p,int r,int c,bool hb,bool bir,ll*o){ M m(p,r,c,true,hb,bir); m.set_biases(); obs(m,o); }
W void w_setbias_i(int*p,int r,int c,bool hb,bool bir,ll*o){ math::smatrix<int> m(p,r,c,true,hb,bir); m.set_biases(); obs(m,o); }
W void w_copybias_p(float*p,int r,int c,bool hb,const float*q,int cnt,ll*o){ M m(p,r,c,true,hb,false); m.copy_biases_from(q,cnt); obs(m,o); }
W void w_copybias_m(float*p,int r,int c,bool hb,float*q,int c2,bool hb2,ll*o){ M m(p,r,c,true,hb,false); const M s(q,r,c2,true,hb2,false); m.copy_biases_from(s); obs(m,o); }
W bool w_biasok(float*p,int r,int c,bool hb,bool bir){ const M m(p,r,c,true,hb,bir); return m.test_biases_ok(); }
W bool w_biasstrict(float*p,int r,int c,bool eb,bool bir){ const M m(p,r,c,eb,false,bir); return m.if_biases_test_strict(); }
W bool w_isbin(float*p,int r,int c,bool eb,bool bir){ const M m(p,r,c,eb,false,bir); return m._isBinary(true); }
W bool w_isbins(float*p,int r,int c,bool eb,bool bir){ const M m(p,r,c,eb,false,bir); return m._isBinaryStrict(true); }
W bool w_isbinsnb(float*p,int r,int c,bool eb){ const M m(p,r,c,eb,false,false); return m._isBinaryStrictNoBias(true); }
W bool w_isbin_i(int*p,int r,int c){ const math::smatrix<int> m(p,r,c); return m._isBinary(true) && m._isBinaryStrict(true); }
W bool w_binld(float*p,ll ne,ll ld){ return M::_isBinaryVecWLd(p,ne,ld,true); }
W bool w_binlds(float*p,ll ne,ll ld){ return M::_isBinaryStrictVecWLd(p,ne,ld,true); }
W bool w_binldi(int*p,ll ne,ll ld){ return M::_isBinaryVecWLd(p,ne,ld,true); }
W bool w_almostbin(float*p,int r,int c,bool eb,bool bir,float eps){ const M m(p,r,c,eb,false,bir); return m._isAlmostBinary(eps); }
W void w_fromarr_f(float*p,int r,int c,bool eb,const float*q){ M m(p,r,c,eb,false,false); m.fill_from_array_no_bias(q); }
W void w_fromarr_i(float*p,int r,int c,bool eb,const int*q){ M m(p,r,c,eb,false,false); m.fill_from_array_no_bias(q); }
W void w_fromarr_d(float*p,int r,int c,bool eb,const double*q){ M m(p,r,c,eb,false,false); m.fill_from_array_no_bias(q); }
W void w_holeyflag(float*p,int r,int c,bool hb,bool bir,bool b,ll*o){ M m(p,r,c,true,hb,bir); m.holey_biases(b); obs(m,o); o[8]=m.isHoleyBiases(); }
// ---- copies
W bool w_copyto(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2,ll*o){ const M m(p,r,c,eb,hb,bir); M d(q,r2,c2,eb2,hb2,bir2); bool b=m.copy_to(d); obs(d,o); return b; }
W bool w_copyskip(float*p,int r,int c,bool eb,bool hb,float*q,int r2,int c2,bool eb2,bool hb2,ll*o){ const M m(p,r,c,eb,hb,false); M d(q,r2,c2,eb2,hb2,false); bool b=m.copy_data_skip_bias(d); obs(d,o); return b; }
W bool w_cloneto_e(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2,ll*o){ const M m(p,r,c,eb,hb,bir); M d(q,r2,c2,eb2,hb2,bir2); bool b=m.clone_to(d); obs(d,o); return b; }
W bool w_clonenb_e(float*p,int r,int c,bool eb,bool hb,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2,ll*o){ const M m(p,r,c,eb,hb,false); M d(q,r2,c2,eb2,hb2,bir2); bool b=m.clone_to_no_bias(d); obs(d,o); return b; }
W bool w_cloneto_h(float*p,int r,int c,bool eb,bool hb,bool bir,int r2,int c2,bool eb2,bool bir2,bool had,float*out,ll*o){ const M m(p,r,c,eb,hb,bir); M d; if(had){ if(!d.useInternalStorage(r2,c2,eb2,bir2)) return false; } else d.emulate_biases(eb2); bool b=m.clone_to(d); if(!b) return false; obs(d,o); std::memcpy(out,d.data(),size_t(d.numel())*4); return true; }
W bool w_clonenb_h(float*p,int r,int c,bool eb,bool hb,int r2,int c2,bool eb2,bool bir2,bool had,float*out,ll*o){ const M m(p,r,c,eb,hb,false); M d; if(had){ if(!d.useInternalStorage(r2,c2,eb2,bir2)) return false; } else d.emulate_biases(eb2); bool b=m.clone_to_no_bias(d); if(!b) return false; obs(d,o); if(d.rows()!=r||d.cols()!=m.cols_no_bias()) return true; std::memcpy(out,d.data(),size_t(d.numel())*4); return true; }
W bool w_clonefrom(float*p,int r,int c,bool eb,bool hb,bool bir,int r2,int c2,bool eb2,bool bir2,bool had,float*out,ll*o){ const M m(p,r,c,eb,hb,bir); MD d; if(had){ if(!d.useInternalStorage(r2,c2,eb2,bir2)) return false; } bool b=d.cloneFrom(m); if(!b) return false; obs(d,o); std::memcpy(out,d.data(),size_t(d.numel())*4); return true; }
W bool w_eq(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2){ const M m(p,r,c,eb,hb,bir); const M d(q,r2,c2,eb2,hb2,bir2); return m==d; }
W bool w_neq(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2){ const M m(p,r,c,eb,hb,bir); const M d(q,r2,c2,eb2,hb2,bir2); return m!=d; }
W void w_movector(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(p,r,c,eb,hb,bir); M d(std::move(m)); obs(d,o); o[8]=d.data()-p; o[9]=m.empty(); o[10]=m.rows(); o[11]=m.cols(); }
W void w_moveasg(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2,ll*o){ M m(p,r,c,eb,hb,bir); M d(q,r2,c2,eb2,hb2,bir2); d=std::move(m); obs(d,o); o[8]=d.data()-p; o[9]=m.empty(); o[10]=m.rows(); o[11]=m.cols(); }
W void w_moveself(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(p,r,c,eb,hb,bir); M& n=m; m=std::move(n); obs(m,o); o[8]=m.data()-p; }
W void w_movectord(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ MD m(p,r,c,eb,hb,bir); MD d(std::move(m)); obs(d,o); o[8]=d.data()-p; o[9]=m.empty(); o[10]=m.rows(); o[11]=m.cols(); }
W void w_moveasgd(float*p,int r,int c,bool eb,bool hb,bool bir,float*q,int r2,int c2,bool eb2,bool hb2,bool bir2,ll*o){ MD m(p,r,c,eb,hb,bir); MD d(q,r2,c2,eb2,hb2,bir2); d=std::move(m); obs(d,o); o[8]=d.data()-p; o[9]=m.empty(); o[10]=m.rows(); o[11]=m.cols(); }
// ---- ownership
W void w_ctor_rc(int r,int c,bool eb,bool bir,ll*o,float*out){ M m(r,c,eb,bir); obs(m,o); if(!m.empty()&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); }
W void w_ctor_ds(int r,int c,bool eb,bool bir,ll*o,float*out){ M m(bir,r,c,eb); obs(m,o); if(!m.empty()&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); }
W void w_ctor_sz(int r,int c,bool eb,bool bir,ll*o,float*out){ M m(M::mtx_size_t(r,c),eb,bir); obs(m,o); if(!m.empty()&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); }
W void w_ctor_d(int r,int c,bool eb,bool bir,ll*o,float*out){ MD m(r,c,eb,bir); obs(m,o); if(!m.empty()&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); }
W void w_ctor_dn(ll ne,bool eb,bool hb,bool bir,int r,int c,ll*o){ MD m(ne,eb,hb,bir); if(!m.empty()) m.deform(r,c); obs(m,o); if(!m.empty()) m.set(r-1,c-1,1.f); }
W void w_ctor_like(float*p,float*q,int r,int c,bool eb,bool hb,bool bir,ll*o){ const M m(p,r,c,eb,hb,bir); M d(q,m); obs(d,o); o[8]=d.data()-q; }
W void w_ctor_likenb(float*p,float*q,int r,int c,bool eb,bool hb,ll*o){ const M m(p,r,c,eb,hb,false); M d(q,m,M::tag_noBias()); obs(d,o); o[8]=d.data()-q; }
W void w_ctor_likesz(float*q,int r,int c,bool eb,bool hb,bool bir,ll*o){ M d(q,M::mtx_size_t(r,c),eb,hb,bir); obs(d,o); o[8]=d.data()-q; }
W void w_ctor_liked(float*p,float*q,int r,int c,bool eb,bool hb,bool bir,ll*o){ const MD m(p,r,c,eb,hb,bir); MD d(q,m); obs(d,o); o[8]=d.data()-q; }
W void w_ctor_likedi(int*p,float*q,int r,int c,bool eb,bool hb,bool bir,ll*o){ const math::smatrix<int> m(p,r,c,eb,hb,bir); MD d(q,m); obs(d,o); o[8]=d.data()-q; }
W bool w_resize(bool eb,bool bir,int r1,int c1,int r2,int c2,ll*o,float*out){ M m; if(!m.useInternalStorage(r1,c1,eb,bir)){ obs(m,o); return false; } bool b=m.resize(r2,c2); obs(m,o); if(b&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); if(b) m.set(m.rows()-1,m.cols()-1,1.f); return b; }
W bool w_resize2(bool eb,bool bir,int r1,int c1,ll*o){ M m; m.emulate_biases(eb); m.set_batchInRow(bir); m.resize(r1,c1); bool b=m.resize(r1,c1); obs(m,o); return b; }
W bool w_resize_sz(bool eb,bool bir,int r1,int c1,ll*o){ M m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize(M::mtx_size_t(r1,c1)); obs(m,o); return b; }
W bool w_resize_ds(bool eb,bool bir,int r1,int c1,ll*o){ M m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize_as_dataset(r1,c1); obs(m,o); return b; }
W bool w_resize_like(float*p,int r,int c,bool eb,bool bir,ll*o){ const M s(p,r,c,eb,false,bir); M m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize(s); obs(m,o); return b; }
W bool w_resize_nb(bool eb,bool bir,int r1,int c1,ll*o){ M m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize(r1,c1,M::tag_noBias()); obs(m,o); return b; }
W bool w_resize_nbsz(bool eb,bool bir,int r1,int c1,ll*o){ M m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize(M::mtx_size_t(r1,c1),M::tag_noBias()); obs(m,o); return b; }
W bool w_resize_d(bool eb,bool bir,int r1,int c1,int r2,int c2,ll*o,float*out){ MD m; if(!m.useInternalStorage(r1,c1,eb,bir)){ obs(m,o); return false; } bool b=m.resize(r2,c2); obs(m,o); if(b&&eb) std::memcpy(out,m.data(),size_t(m.numel())*4); if(b) m.set(m.rows()-1,m.cols()-1,1.f); return b; }
W bool w_resize_dds(bool eb,bool bir,int r1,int c1,ll*o){ MD m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize_as_dataset(r1,c1); obs(m,o); return b; }
W bool w_resize_dlike(float*p,int r,int c,bool eb,bool bir,ll*o){ const M s(p,r,c,eb,false,bir); MD m; m.emulate_biases(eb); m.set_batchInRow(bir); bool b=m.resize(s); obs(m,o); return b; }
W bool w_resize_dn(ll ne,bool eb,bool hb,bool bir,int r,int c,ll*o){ MD m(2,3); bool b=m.resize(ne,&eb,&hb,&bir); if(b) m.deform(r,c); obs(m,o); if(b) m.set(r-1,c-1,1.f); return b; }
W bool w_useint(float*p,int r,int c,bool eb,bool hb,bool bir,int r2,int c2,bool eb2,bool bir2,ll*o){ M m(p,r,c,eb,hb,bir); bool b=m.useInternalStorage(r2,c2,eb2,bir2); obs(m,o); return b; }
W void w_useext(float*p,int r,int c,bool eb,bool hb,bool bir,int r2,int c2,bool had,ll*o){ M m; if(had) m.resize(r2,c2); m.useExternalStorage(p,r,c,eb,hb,bir); obs(m,o); o[8]=m.data()-p; }
W void w_useext_sz(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(2,3); m.useExternalStorage(p,M::mtx_size_t(r,c),eb,hb,bir); obs(m,o); o[8]=m.data()-p; }
W void w_useext_m(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M s(p,r,c,eb,hb,bir); M m(2,3); m.useExternalStorage(s); obs(m,o); o[8]=m.data()-p; }
W void w_useext_like(float*p,float*q,int r,int c,bool eb,bool hb,bool bir,bool hb2,ll*o){ const M s(p,r,c,eb,hb,bir); M m(2,3); m.useExternalStorage(q,s,hb2); obs(m,o); o[8]=m.data()-q; }
W void w_useext_bir(float*p,int bs,int ss,bool eb,bool hb,bool bir,ll*o){ M m(2,3); m.useExternalStorage(bir,p,bs,ss,eb,hb); obs(m,o); o[8]=m.data()-p; }
W void w_useext_bir2(float*p,int bs,int ss,bool eb,bool hb,bool bir,ll*o){ M m(2,3); m.set_batchInRow(bir); m.useExternalStorage(bs,ss,p,eb,hb); obs(m,o); o[8]=m.data()-p; }
W void w_useextnb_m(float*p,int r,int c,bool eb,bool hb,ll*o){ M s(p,r,c,eb,hb,false); M m(2,3); m.useExternalStorage_no_bias(s); obs(m,o); o[8]=m.data()-p; }
W void w_useextnb_like(float*p,float*q,int r,int c,bool eb,bool hb,ll*o){ const M s(p,r,c,eb,hb,false); M m(2,3); m.useExternalStorage_no_bias(q,s); obs(m,o); o[8]=m.data()-q; }
W void w_useextnb_cols(float*p,int r,int c,bool eb,bool hb,int cb,int n,ll*o){ M s(p,r,c,eb,hb,false); M m(2,3); m.useExternalStorage_no_bias(s,cb,n); obs(m,o); o[8]=m.data()-p; }
W void w_clear(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M m(p,r,c,eb,hb,bir); m.clear(); obs(m,o); }
W void w_clear_h(int r,int c,bool eb,bool bir,ll*o){ M m(r,c,eb,bir); m.clear(); obs(m,o); }
W void w_clear_d(int r,int c,bool eb,bool bir,ll*o){ MD m(r,c,eb,bir); m.clear(); obs(m,o); }
W void w_move_h(int r,int c,bool eb,bool bir,int r2,int c2,ll*o){ M a(r,c,eb,bir); M b(r2,c2); b=std::move(a); M d(std::move(b)); obs(d,o); o[8]=a.empty(); o[9]=b.empty(); if(!d.empty()) d.set(d.rows()-1,d.cols()-1,2.f); }
W void w_move_hd(int r,int c,bool eb,bool bir,int r2,int c2,ll*o){ M a(r,c,eb,bir); MD b(r2,c2); b=std::move(a); MD d(std::move(b)); M x(2,2); MD e(std::move(x)); e=std::move(d); obs(e,o); o[8]=a.empty(); o[9]=b.empty(); o[10]=d.empty(); if(!e.empty()) e.set(e.rows()-1,e.cols()-1,2.f); }
// ---- deform
W void w_dext_n(float*p,ll n,bool eb,bool hb,bool bir,int r,int c,ll*o){ MD m; m.useExternalStorage(p,n,eb,hb,bir); o[8]=m.rows(); o[9]=m.cols(); m.deform(r,c); obs(m,o); o[10]=m.data()-p; }
W void w_dext_m(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ M s(p,r,c,eb,hb,bir); MD m(2,3); m.useExternalStorage(s); obs(m,o); o[8]=m.data()-p; }
W void w_dext_nb(float*p,int r,int c,bool eb,bool hb,ll*o){ M s(p,r,c,eb,hb,false); MD m(2,3); m.useExternalStorage_no_bias(s); obs(m,o); o[8]=m.data()-p; }
W void w_dext_like(float*p,float*q,int r,int c,bool eb,bool hb,bool bir,bool hb2,ll*o){ const M s(p,r,c,eb,hb,bir); MD m(2,3); m.useExternalStorage(q,s,hb2); obs(m,o); o[8]=m.data()-q; }
W void w_dext_bir(float*p,int bs,int ss,bool eb,bool hb,bool bir,ll*o){ MD m(2,3); m.useExternalStorage(bir,p,bs,ss,eb,hb); obs(m,o); o[8]=m.data()-p; }
W void w_dext_bir2(float*p,int bs,int ss,bool eb,bool hb,bool bir,ll*o){ MD m(2,3); m.set_batchInRow(bir); m.useExternalStorage(bs,ss,p,eb,hb); obs(m,o); o[8]=m.data()-p; }
W void w_dcols(float*p,int r,int c,bool eb,bool hb,bool bir,int n,ll*o){ MD m(p,r,c,eb,hb,bir); o[8]=m.deform_cols(n); obs(m,o); o[9]=m.data()-p; }
W void w_drows(float*p,int r,int c,bool eb,bool hb,bool bir,int n,ll*o){ MD m(p,r,c,eb,hb,bir); o[8]=m.deform_rows(n); obs(m,o); o[9]=m.data()-p; }
W void w_dboth(float*p,int r,int c,bool eb,bool hb,bool bir,int n,int k,ll*o){ MD m(p,r,c,eb,hb,bir); m.deform(n,k); obs(m,o); o[8]=m.data()-p; }
W void w_dbs(float*p,int r,int c,bool eb,bool hb,bool bir,int n,ll*o){ MD m(p,r,c,eb,hb,bir); o[8]=m.deform_batch_size(n); obs(m,o); o[9]=m.data()-p; }
W void w_dss(float*p,int r,int c,bool eb,bool hb,bool bir,int n,ll*o){ MD m(p,r,c,eb,hb,bir); o[8]=m.deform_sample_size(n); obs(m,o); o[9]=m.data()-p; }
W void w_dbsb(float*p,int r,int c,bool eb,bool bir,int n,ll*o){ MD m(p,r,c,eb,false,bir); m.deform_batch_size_with_biases(n); obs(m,o); }
W void w_dds(float*p,int r,int c,bool eb,bool bir,int bs,int ss,ll*o){ MD m(p,r,c,eb,false,bir); m.deform_dataset(bs,ss); obs(m,o); }
W void w_hidecol(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ MD m(p,r,c,eb,hb,bir); m.hide_last_col(); o[8]=m.rows(); o[9]=m.cols(); o[10]=m.emulatesBiases(); m.restore_last_col(); obs(m,o); o[11]=m.data()-p; }
W void w_hiden(float*p,int r,int c,bool eb,bool hb,bool bir,int n,ll*o){ MD m(p,r,c,eb,hb,bir); bool b=m.hide_last_n_cols(n); o[8]=m.rows(); o[9]=m.cols(); o[10]=m.emulatesBiases(); o[11]=b; m.restore_last_n_cols(b,n); obs(m,o); o[12]=m.data()-p; }
W void w_hidebias(float*p,int r,int c,bool eb,bool hb,ll*o){ MD m(p,r,c,eb,hb,false); bool b=m.hide_biases(); o[8]=m.rows(); o[9]=m.cols(); o[10]=m.emulatesBiases(); o[11]=b; m.restore_biases(b); obs(m,o); o[12]=m.data()-p; }
W void w_like(float*p,int r,int c,float*q,int r2,int c2,bool eb2,bool bir2,ll*o){ MD m(p,r,c); const M s(q,r2,c2,eb2,false,bir2); m.deform_like(s); obs(m,o); o[8]=m.data()-p; }
W void w_likenb(float*p,int r,int c,float*q,int r2,int c2,bool eb2,bool bir2,ll*o){ MD m(p,r,c); const M s(q,r2,c2,eb2,false,bir2); m.deform_like_no_bias(s); obs(m,o); o[8]=m.data()-p; }
W void w_ontr(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ MD m(p,r,c,eb,hb,bir); m.on_transposition(); obs(m,o); o[8]=m.data()-p; o[9]=m.has_bias_row(); o[10]=m.has_bias_column(); o[11]=m.sample_size(); o[12]=m.batch_size(); }
W void w_flags(float*p,int r,int c,bool eb,bool hb,bool bir,ll*o){ MD m(p,r,c,eb,hb,bir); m._enforce_biases(); obs(m,o); m._drop_biases(); o[8]=m.emulatesBiases(); o[9]=m.holeyBiases_flag(); }
// ---- triangular
W void w_triU(int n,ll k,ll*o){ int r,c; M::sTrianglCoordsFromIdx<false>(n,k,r,c); o[0]=r; o[1]=c; }
W void w_triL(int n,ll k,ll*o){ int r,c; M::sTrianglCoordsFromIdx<true>(n,k,r,c); o[0]=r; o[1]=c; }
W ll w_triN(int n){ return M::sNumelTriangl(n); }
W void w_triUm(float*p,int n,ll k,ll*o){ const M m(p,n,n); int r,c; m.triangl_coords_from_idx<false>(k,r,c); o[0]=r; o[1]=c; o[2]=m.numel_triangl(); }
W void w_triLm(float*p,int n,ll k,ll*o){ const M m(p,n,n); int r,c; m.triangl_coords_from_idx<true>(k,r,c); o[0]=r; o[1]=c; o[2]=m.numel_triangl(); }
// ---- ranges
W void w_er(float*p,int r,int c,bool eb,ll a,ll b,ll n,ll of,ll*o){ const M m(p,r,c,eb); math::s_elems_range x(m); math::s_elems_range y(m,math::tag_noBias()); math::s_elems_range z(a,b); math::s_elems_range u(n); math::st_range<ll> s=z+of; o[0]=x.elmBegin; o[1]=x.elmEnd; o[2]=y.elmBegin; o[3]=y.elmEnd; o[4]=z.elmBegin; o[5]=z.elmEnd; o[6]=u.elmBegin; o[7]=u.elmEnd; o[8]=s.elmBegin; o[9]=s.elmEnd; o[10]=z.totalElements(); }
W void w_vr(float*p,int r,int c,bool eb,int a,int b,int n,int of,ll*o){ const M m(p,r,c,eb); math::s_vec_range x(m); math::s_vec_range y(m,math::tag_noBias()); math::s_vec_range z(a,b); math::s_vec_range u(n); math::st_range<int> s=z+of; o[0]=x.elmBegin; o[1]=x.elmEnd; o[2]=y.elmBegin; o[3]=y.elmEnd; o[4]=z.elmBegin; o[5]=z.elmEnd; o[6]=u.elmBegin; o[7]=u.elmEnd; o[8]=s.elmBegin; o[9]=s.elmEnd; o[10]=z.totalElements(); }
W void w_pr(ll of,ll cnt,unsigned tid,ll*o){ threads::parallel_range<ll> pr(of,cnt,tid); math::s_elems_range x(pr); o[0]=pr.offset(); o[1]=pr.cnt(); o[2]=pr.end(); o[3]=pr.tid(); o[4]=x.elmBegin; o[5]=x.elmEnd; threads::parallel_range<ll> q(cnt); o[6]=q.offset(); o[7]=q.cnt(); o[8]=q.end(); }
W void w_rc(float*p,int r,int c,bool eb,bool bir,int a,int b,bool nb,ll*o){ const M m(p,r,c,eb,false,bir); math::s_rowcol_range x(a,b,m); math::s_rowcol_range y(a,b,m,nb); math::s_rowcol_range z(m,a,b); math::s_rowcol_range u(m,a,b,nb); o[0]=x.rowBegin; o[1]=x.rowEnd; o[2]=x.colBegin; o[3]=x.colEnd; o[4]=y.rowBegin; o[5]=y.rowEnd; o[6]=y.colBegin; o[7]=y.colEnd; o[8]=z.rowBegin; o[9]=z.rowEnd; o[10]=z.colBegin; o[11]=z.colEnd; o[12]=u.rowBegin; o[13]=u.rowEnd; o[14]=u.colBegin; o[15]=u.colEnd; o[16]=x.totalRows(); o[17]=z.totalCols(); }
W void w_rc2(float*p,int r,int c,bool eb,bool bir,bool nb,ll*o){ const M m(p,r,c,eb,false,bir); math::s_rowcol_range x(m); math::s_rowcol_range y(m,math::tag_noBias()); math::s_rowcol_range z(m,nb); o[0]=x.rowBegin; o[1]=x.rowEnd; o[2]=x.colBegin; o[3]=x.colEnd; o[4]=y.rowBegin; o[5]=y.rowEnd; o[6]=y.colBegin; o[7]=y.colEnd; o[8]=z.rowBegin; o[9]=z.rowEnd; o[10]=z.colBegin; o[11]=z.colEnd; o[12]=math::Numel(m); }
W bool w_rcap(float*p,int r,int c,float*q,int r2,int c2,int a,int b){ const M m(p,r,c); const M n(q,r2,c2); math::s_rowcol_range x(a,b,m); return x.can_apply(n); }
W bool w_samesz(float*p,int r,int c,float*q,int r2,int c2){ const M m(p,r,c); const M n(q,r2,c2); return math::IsSameSizeNumel(m,n); }
