#include "vp_mathn.h"
// scratch memory stack
//@for F in float double: W ll w_round_$F(ll n){ return MN::_istor_round_count_to_cache_line_size<$F>(numel_cnt_t(n)); }
//@for F in float double: W int w_roundv_$F(int n){ return MN::_istor_round_count_to_cache_line_size<$F>(vec_len_t(n)); }
W void w_istor2(float*t,ll n,ll a,ll b,ll*o){ MNT mn(t,n); float*p=mn._istor_alloc(a); o[0]=p-t; o[1]=mn.used(); float*q=mn._istor_alloc(b); o[2]=q-t; o[3]=mn.used(); mn._istor_free(q,b); o[4]=mn.used(); float*s=mn._istor_alloc(b); o[5]=s-t; mn._istor_free(s,b); mn._istor_free(p,a); o[6]=mn.used(); }
W ll w_istor_alloc(float*t,ll n,ll a,ll b){ MNT mn(t,n); mn._istor_alloc(a); float*p=mn._istor_alloc(b); return p-t; }
W ll w_istor_over(float*t,ll n,ll a,ll b){ MNT mn(t,n); mn._istor_alloc(a); mn._istor_free(t,b); return mn.used(); }
W ll w_istor_order(float*t,ll n,ll a,ll b,ll x){ MNT mn(t,n); mn._istor_alloc(a); mn._istor_alloc(b); mn._istor_free(t+x,b); return mn.used(); }
struct MNQ : public math::_MathN<float,seq_threads,vp_mm,math::_impl::MATHN_THR<float>,MNQ> { ll mn_()const{ return this->m_minTempStorageSize; } ll sz()const{ return (ll)this->m_threadTempRawStorage.size(); } ll cur()const{ return this->m_curStorElementsAllocated; } void set(ll m,ll c){ this->m_minTempStorageSize=m; this->m_curStorElementsAllocated=c; } };
W ll w_preinit(ll a,ll b,ll c){ MNQ mn; mn.preinit(a); mn.preinit(b); mn.preinit(c); return mn.mn_(); }
W ll w_preinit_nested(ll a,ll i1,ll i2,ll top){ MNQ mn; mn.preinit(a); const auto r=mn.preinit_push(); mn.preinit(i1); mn.preinit(i2); mn.preinit_pop(r,top); return mn.mn_(); }
W ll w_preinit_push(ll a,ll*o){ MNQ mn; mn.preinit(a); const auto r=mn.preinit_push(); o[0]=mn.mn_(); return r; }
W void w_init_deinit(ll a,ll b,ll*o){ MNQ mn; mn.preinit(a); o[0]=mn.init(); o[1]=mn.sz(); mn.preinit(b); o[2]=mn.init(); o[3]=mn.sz(); float*p=mn._istor_alloc(b); p[0]=1; p[b-1]=1; o[4]=mn.cur(); mn._istor_free(p,b); mn.deinit(); o[5]=mn.sz(); o[6]=mn.mn_(); o[7]=mn.cur(); }
W void w_deinit(ll m,ll u,ll*o){ MNQ mn; mn.set(m,u); mn.deinit(); o[0]=mn.mn_(); o[1]=mn.cur(); o[2]=mn.sz(); }
// clamp, binarize, counts
//@for F in evClamp evClamp_st evClamp_mt: W void w_$F(float*A,int r,int c,float lo,float hi){ M x(A,r,c); MN mn; mn.$F(x,lo,hi); }
//@for F in ewBinarize_ip ewBinarize_ip_mt: W void w_$F(float*A,int r,int c,bool b,float f,float lo,float hi){ M x(A,r,c,b); MN mn; mn.$F(x,f,lo,hi); }
W void w_ewBinarize_ip_def(float*A,int r,int c,bool b,float f){ M x(A,r,c,b); MN mn; mn.ewBinarize_ip(x,f); }
W void w_ewBinarize_ip_st(float*A,int r,int c,bool b,float f,float lo,float hi,bool er,ll s,ll e){ M x(A,r,c,b); MN mn; ER q(s,e); mn.ewBinarize_ip_st(x,f,lo,hi,er?&q:nullptr); }
//@for F in ewBinarize ewBinarize_mt: W void w_$F(float*D,float*A,int r,int cd,int c,bool b,float f){ M d(D,r,cd), x(A,r,c,b); MN mn; mn.$F(d,x,f); }
//@for F in ewBinarize ewBinarize_mt: W void w_$F_c(signed char*D,float*A,int r,int cd,int c,bool b,float f){ math::smatrix<signed char> d(D,r,cd); M x(A,r,c,b); MN mn; mn.$F(d,x,f); }
W void w_ewBinarize_st(float*D,float*A,int r,int cd,int c,bool b,float f,bool er,ll s,ll e){ M d(D,r,cd), x(A,r,c,b); MN mn; ER q(s,e); mn.ewBinarize_st(d,x,f,er?&q:nullptr); }
//@for F in ewBinarizeBatch ewBinarizeBatch_mt: W void w_$F(float*D,float*A,int dr,int cd,bool bd,int ofs,int r,int c,bool b,float f){ M d(D,dr,cd,bd), x(A,r,c,b); MN mn; mn.$F(d,ofs,x,f); }
W void w_ewBinarizeBatch_st(float*D,float*A,int dr,int cd,bool bd,int ofs,int r,int c,bool b,float f,bool er,ll s,ll e){ M d(D,dr,cd,bd), x(A,r,c,b); MN mn; ER q(s,e); mn.ewBinarizeBatch_st(d,ofs,x,f,er?&q:nullptr); }
W ll w_vCountNonZeros(const float*A,ll n){ return MN::vCountNonZeros(A,numel_cnt_t(n)); }
//@for F in vCountSame vCountSame_st_naive vCountSame_mt_naive: W ll w_$F(float*A,int n,float*B,int r,int c,int ofs){ M x(A,n,1), y(B,r,c); MN mn; return mn.$F(x,y,ofs); }
//@for F in vCountSameBatch vCountSameBatch_st_naive: W ll w_$F(float*A,int ra,float*B,int rb,int c,int ofs){ M x(A,ra,c), y(B,rb,c); MN mn; return mn.$F(x,ofs,y); }
// dropout
//@for F in make_dropout make_dropout_mt apply_dropout_mask apply_dropout_mask_mt: W void w_$F(float*A,float*D,int r,int c,bool b,int cd,float p){ M x(A,r,c,b), d(D,r,cd); MN mn; mn.$F(x,p,d); }
//@for F in make_dropout_st apply_dropout_mask_st: W void w_$F(float*A,float*D,int r,int c,bool b,int cd,float p,bool er,ll s,ll e){ M x(A,r,c,b), d(D,r,cd); MN mn; ER q(s,e); mn.$F(x,p,d,er?&q:nullptr); }
//@for F in make_alphaDropout make_alphaDropout_mt: W void w_$F(float*A,float*D,int r,int c,bool b,int cd,float p,float ka,float kb,float dv){ M x(A,r,c,b), d(D,r,cd); MN mn; mn.$F(x,p,ka,kb,dv,d); }
W void w_make_alphaDropout_st(float*A,float*D,int r,int c,bool b,int cd,float p,float ka,float kb,float dv,bool er,ll s,ll e){ M x(A,r,c,b), d(D,r,cd); MN mn; ER q(s,e); mn.make_alphaDropout_st(x,p,ka,kb,dv,d,er?&q:nullptr); }
// row norms
//@for F in mrwL2NormSquared mrwL2NormSquared_mt: W ll w_$F(float*A,float*v,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwL2NormSquared_needTempMem(x)); mn.$F(x,v); return mn.used(); }
W void w_mrwL2NormSquared_st(float*A,float*v,int r,int c,bool er,int cb,int ce){ M x(A,r,c); MN mn; RCR q(x,cb,ce); mn.mrwL2NormSquared_st(x,v,er?&q:nullptr); }
//@for F in mCheck_normalize_rows mCheck_normalize_rows_st mCheck_normalize_rows_mt: W void w_$F(float*A,float*tmp,int r,int c,float n2,bool ib,ll*o){ MD x(A,r,c); MN m0; MNT mn(tmp,m0.mCheck_normalize_rows_needTempMem(x)); mn.$F(x,n2,ib); o[0]=mn.used(); o[1]=x.rows(); o[2]=x.cols(); }
//@for F in mrwSetL2Norm mrwSetL2Norm_st mrwSetL2Norm_mt: W void w_$F(float*A,float*tmp,int r,int c,float n2,bool ib,ll*o){ MD x(A,r,c); MN m0; MNT mn(tmp,m0.mrwSetL2Norm_needTempMem(x)); mn.$F(x,n2,ib); o[0]=mn.used(); o[1]=x.rows(); o[2]=x.cols(); }
W void w_mrwSetL2Norm_m(float*A,float*tmp,int r,int c,float n2,bool ib,ll*o){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwSetL2Norm_needTempMem(x)); mn.mrwSetL2Norm(x,n2,ib); o[0]=mn.used(); o[1]=x.rows(); o[2]=x.cols(); }
// softmax
//@for F in softmax softmax_st softmax_mt: W void w_$F(float*A,float*tmp,int r,int c,bool b,ll*o){ MD x(A,r,c,b); MN m0; MNT mn(tmp,m0.template softmax_needTempMem<float>(x.size_no_bias())); mn.$F(x); o[0]=mn.used(); o[1]=x.rows(); o[2]=x.cols(); o[3]=x.emulatesBiases(); }
//@for F in softmax_parts softmax_parts_mt softmax_parts_mt_rw softmax_parts_mt_cw: W ll w_$F(float*A,const float*mx,float*den,float*num,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwSum_ip_needTempMem(x)); mn.$F(x,mx,den,num); return mn.used(); }
//@for F in softmax_parts_st softmax_parts_st_rw softmax_parts_st_cw: W void w_$F(float*A,const float*mx,float*den,float*num,int r,int c){ M x(A,r,c); MN mn; mn.$F(x,mx,den,num); }
