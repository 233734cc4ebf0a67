#include "vp_mathn.h"
// sums of products and squares, row-wise reductions and broadcasts, column-wise operations
typedef math::real_t_limits<float>::similar_FWI_t FWI;
//@for F in ewSumProd ewSumProd_mt: W float w_$F(float*A,float*B,int r,int c){ M x(A,r,c), y(B,r,c); MN mn; return mn.$F(x,y); }
W float w_ewSumProd_st(float*A,float*B,int r,int c,bool er,ll s,ll e){ M x(A,r,c), y(B,r,c); MN mn; ER q(s,e); return mn.ewSumProd_st(x,y,er?&q:nullptr); }
//@for F in ewSumSquares ewSumSquares_mt ewSumSquares_ns ewSumSquares_mt_ns: W float w_$F(float*A,int r,int c){ M x(A,r,c); MN mn; return mn.$F(x); }
//@for F in ewSumSquares_st ewSumSquares_st_ns: W float w_$F(float*A,int r,int c,bool er,ll s,ll e){ M x(A,r,c); MN mn; ER q(s,e); return mn.$F(x,er?&q:nullptr); }
//@for F in ewSumSquares ewSumSquares_mt ewSumSquares_ns ewSumSquares_mt_ns: W float w_p_$F(float*A,ll n){ MN mn; return mn.$F(A,n); }
//@for F in ewSumSquares_st ewSumSquares_st_ns: W float w_p_$F(float*A,ll n,bool er,ll s,ll e){ MN mn; ER q(s,e); return mn.$F(A,n,er?&q:nullptr); }
//@for F in false true: W float w_vec_sum_$F(float*A,ll n){ return MN::_vec_sum<$F,float>(A,n); }
//@for F in X _st _mt: W float w_tri_L$F(float*A,int n){ M x(A,n,n); MN mn; return mn.ewSumSquaresTriang$F<true,false>(x); }
//@for F in X _st _mt: W float w_tri_U$F(float*A,int n){ M x(A,n,n); MN mn; return mn.ewSumSquaresTriang$F<false,false>(x); }
//@for F in X _st _mt: W float w_tri_Ls$F(float*A,int n){ M x(A,n,n); MN mn; return mn.ewSumSquaresTriang$F<true,true>(x); }
//@for F in X _st _mt: W float w_tri_Us$F(float*A,int n){ M x(A,n,n); MN mn; return mn.ewSumSquaresTriang$F<false,true>(x); }
W float w_tri_L_er(float*A,int n,ll s,ll e){ M x(A,n,n); MN mn; ER q(s,e); return mn.ewSumSquaresTriang_st<true,false>(x,&q); }
W float w_tri_U_er(float*A,int n,ll s,ll e){ M x(A,n,n); MN mn; ER q(s,e); return mn.ewSumSquaresTriang_st<false,false>(x,&q); }
//@for F in mrwDivideByVec mrwDivideByVec_mt mrwDivideByVec_mt_cw mrwDivideByVec_mt_rw mrwMulByVec mrwMulByVec_mt mrwMulByVec_mt_cw mrwMulByVec_mt_rw: W void w_$F(float*A,const float*v,int r,int c){ M x(A,r,c); MN mn; mn.$F(x,v); }
//@for F in mrwDivideByVec_st mrwDivideByVec_st_cw mrwDivideByVec_st_rw mrwMulByVec_st mrwMulByVec_st_cw mrwMulByVec_st_rw: W void w_$F(float*A,const float*v,int r,int c,bool er,bool byr,int a,int b){ M x(A,r,c); MN mn; RCR q=byr?RCR(a,b,x):RCR(x,a,b); mn.$F(x,v,er?&q:nullptr); }
//@for F in mrwIdxsOfMax mrwIdxsOfMax_mt mrwIdxsOfMax_st mrwIdxsOfMax_st_cw mrwIdxsOfMax_st_rw mrwIdxsOfMax_st_rw_small mrwIdxsOfMax_mt_cw mrwIdxsOfMax_mt_rw: W ll w_$F(float*A,int*v,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwIdxsOfMax_needTempMem(x)); mn.$F(x,v); return mn.used(); }
//@for F in mrwIdxsOfMax_st mrwIdxsOfMax_st_cw mrwIdxsOfMax_st_rw mrwIdxsOfMax_st_rw_small: W void w_$F_m(float*A,int*v,float*mx,int r,int c,bool byr,int a,int b){ M x(A,r,c); MN mn; RCR q=byr?RCR(a,b,x):RCR(x,a,b); mn.$F(x,v,mx,&q); }
//@for F in mrwMax mrwMax_mt mrwMax_mt_rw: W void w_$F(float*A,float*v,int r,int c){ M x(A,r,c); MN mn; mn.$F(x,v); }
//@for F in mrwMax_st mrwMax_st_cw mrwMax_st_rw mrwMax_st_rw_small mrwSum_st mrwSum_st_rw mrwSum_st_cw: W void w_$F(float*A,float*v,int r,int c,bool er,bool byr,int a,int b){ M x(A,r,c); MN mn; RCR q=byr?RCR(a,b,x):RCR(x,a,b); mn.$F(x,v,er?&q:nullptr); }
//@for F in mrwSum mrwSum_mt mrwSum_mt_rw mrwSum_mt_cw: W ll w_$F(float*A,float*v,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwSum_needTempMem(x)); mn.$F(x,v); return mn.used(); }
//@for F in mrwSum_ip mrwSum_ip_mt mrwSum_ip_mt_rw mrwSum_ip_mt_cw: W ll w_$F(float*A,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwSum_ip_needTempMem(x)); mn.$F(x); return mn.used(); }
//@for F in mrwSum_ip_st mrwSum_ip_st_cw mrwSum_ip_st_rw mrwSum_ip_st_rw_small: W void w_$F(float*A,int r,int c,bool er,int rb,int re){ M x(A,r,c); MN mn; RCR q(rb,re,x); mn.$F(x,er?&q:nullptr); }
//@for F in mrwOr mrwOr_st mrwOr_st_cw mrwOr_st_rw mrwOr_mt mrwOr_mt_cw mrwOr_mt_rw: W ll w_$F(float*A,float*v,float*tmp,int r,int c){ M x(A,r,c); MN m0; MNT mn(tmp,m0.mrwOr_needTempMem(x)); mn.$F(x,v); return mn.used(); }
//@for F in false true: W void w_mcwMean_$F(float*A,float*v,int r,int c){ M x(A,r,c); MN mn; mn.mcwMean<$F>(x,v); }
//@for F in false true: W void w_mcwMean_mt_$F(float*A,float*v,int r,int c){ M x(A,r,c); MN mn; mn.mcwMean_mt<$F>(x,v); }
//@for F in false true: W void w_mcwMean_st_$F(float*A,float*v,int r,int c,bool er,int cb,int ce){ M x(A,r,c); MN mn; RCR q(x,cb,ce); mn.mcwMean_st<$F>(x,v,er?&q:nullptr); }
//@for F in false true: W void w_mcwDeMean_$F(float*A,int r,int c){ M x(A,r,c); MN mn; mn.mcwDeMean<$F>(x); }
//@for F in false true: W void w_mcwDeMean_mt_$F(float*A,int r,int c){ M x(A,r,c); MN mn; mn.mcwDeMean_mt<$F>(x); }
//@for F in false true: W void w_mcwDeMean_st_$F(float*A,int r,int c,bool er,int cb,int ce){ M x(A,r,c); MN mn; RCR q(x,cb,ce); mn.mcwDeMean_st<$F>(x,er?&q:nullptr); }
//@for F in false true: W void w_mcwDeMeanNZ_$F(float*A,int r,int c,float cp){ M x(A,r,c); MN mn; mn.mcwDeMeanNZ<$F>(x,cp); }
//@for F in false true: W void w_mcwDeMeanNZ_mt_$F(float*A,int r,int c,float cp){ M x(A,r,c); MN mn; mn.mcwDeMeanNZ_mt<$F>(x,cp); }
//@for F in false true: W void w_mcwDeMeanNZ_st_$F(float*A,int r,int c,float cp,bool er,int cb,int ce){ M x(A,r,c); MN mn; RCR q(x,cb,ce); mn.mcwDeMeanNZ_st<$F>(x,cp,er?&q:nullptr); }
//@for F in mcwSub_ip mcwSub_ip_mt: W void w_$F(float*A,const float*v,int r,int c){ M x(A,r,c); MN mn; mn.$F(x,v); }
W void w_mcwSub_ip_st(float*A,const float*v,int r,int c,bool er,int cb,int ce){ M x(A,r,c); MN mn; RCR q(x,cb,ce); mn.mcwSub_ip_st(x,v,er?&q:nullptr); }
//@for F in mcwMulDiag_ip mcwMulDiag_ip_mt: W void w_$F(float*A,float*B,int r,int c){ M x(A,r,c), y(B,c,c); MN mn; mn.$F(x,y); }
W void w_mcwMulDiag_ip_st(float*A,float*B,int r,int c,bool er,int cb,int ce){ M x(A,r,c), y(B,c,c); MN mn; RCR q(x,cb,ce); mn.mcwMulDiag_ip_st(x,y,er?&q:nullptr); }
//@for F in false true: W void w_mcwSum_$F(float*A,float*v,int r,int c,bool b){ M x(A,r,c+(b?1:0),b); MN mn; mn.mcwSum<$F>(x,v); }
