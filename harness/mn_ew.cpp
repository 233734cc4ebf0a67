#include "vp_mathn.h"
// elementwise operations: S = dispatcher (empty), _st, _mt
//@for S in X _st _mt: W void w_evMulCAddC_ip$S(float*p,int r,int c,bool eb,bool bir,float sc,float ofs,bool ib){ M m(p,r,c,eb,false,bir); MN mn; mn.evMulCAddC_ip$S(m,sc,ofs,ib); }
//@for S in X _st _mt: W void w_evMulC_ip$S(float*p,int r,int c,bool eb,bool bir,float sc,bool ib){ M m(p,r,c,eb,false,bir); MN mn; mn.evMulC_ip$S(m,sc,ib); }
//@for S in X _st _mt: W void w_evAddC_ip$S(float*p,int r,int c,bool eb,bool bir,float sc,bool ib){ M m(p,r,c,eb,false,bir); MN mn; mn.evAddC_ip$S(m,sc,ib); }
W void w_evMulCAddC_ip_nb(float*p,int r,int c,bool eb,bool bir,float sc,float ofs){ M m(p,r,c,eb,false,bir); MN mn; mn.evMulCAddC_ip_nb(m,sc,ofs); }
W void w_evMulC_ip_nb(float*p,int r,int c,bool eb,bool bir,float sc){ M m(p,r,c,eb,false,bir); MN mn; mn.evMulC_ip_nb(m,sc); }
W void w_evAddC_ip_nb(float*p,int r,int c,bool eb,bool bir,float sc){ M m(p,r,c,eb,false,bir); MN mn; mn.evAddC_ip_nb(m,sc); }
//@for S in X _st _mt: W void w_evMulC_ip_v$S(float*p,ll n,float sc){ MN mn; mn.evMulC_ip$S(p,n,sc); }
//@for S in X _st _mt: W void w_vAdd_ip$S(float*p,float*q,ll n){ MN mn; mn.vAdd_ip$S(p,q,n); }
W void w_vAdd_ip_ste(float*p,float*q,ll n,ll a,ll b){ MN mn; ER e(a,b); mn.vAdd_ip_st(p,q,n,&e); }
//@for F in evMul_ip evAdd_ip evSign: W void w_$F(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.$F(m,k); }
//@for F in evMul_ip evAdd_ip evSign: W void w_$F_st(float*p,float*q,int r,int c,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.$F_st(m,k,&e); }
//@for F in evMul_ip evAdd_ip evSign: W void w_$F_mt(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.$F_mt(m,k); }
//@for F in evMul_ip_Anb evAdd_Anb_ip: W void w_$F(float*p,float*q,int r,int c,bool eb){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; mn.$F(m,k); }
//@for F in evMul_ip_Anb evAdd_Anb_ip: W void w_$F_st(float*p,float*q,int r,int c,bool eb,ll a,ll b){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; ER e(a,b); mn.$F_st(m,k,&e); }
//@for F in evMul_ip_Anb evAdd_Anb_ip: W void w_$F_mt(float*p,float*q,int r,int c,bool eb){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; mn.$F_mt(m,k); }
W void w_evSubMtxMulC_ip_nb(float*p,float*q,int r,int c,bool eb,float x){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; mn.evSubMtxMulC_ip_nb(m,k,x); }
W void w_evSubMtxMulC_ip_nb_st(float*p,float*q,int r,int c,bool eb,float x,ll a,ll b){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; ER e(a,b); mn.evSubMtxMulC_ip_nb_st(m,k,x,&e); }
W void w_evSubMtxMulC_ip_nb_mt(float*p,float*q,int r,int c,bool eb,float x){ M m(p,r,c+(eb?1:0),eb), k(q,r,c); MN mn; mn.evSubMtxMulC_ip_nb_mt(m,k,x); }
//@for F in evAddScaled_ip evNZAddScaled_ip evAddScaledSign_ip evNZAddScaledSign_ip: W void w_$F(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.$F(m,x,k); }
//@for F in evAddScaled_ip evNZAddScaled_ip evAddScaledSign_ip evNZAddScaledSign_ip: W void w_$F_st(float*p,float*q,int r,int c,float x,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.$F_st(m,x,k,&e); }
//@for F in evAddScaled_ip evNZAddScaled_ip evAddScaledSign_ip evNZAddScaledSign_ip: W void w_$F_mt(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.$F_mt(m,x,k); }
//@for S in X _st _mt: W void w_evOneCompl$S(float*p,float*q,int r,int c,bool eb){ M m(p,r,c,eb), k(q,r,c,eb); MN mn; mn.evOneCompl$S(m,k); }
//@for S in X _st_naive _mt_naive: W void w_evSub_ip$S(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.evSub_ip$S(m,k); }
//@for S in X _st_naive _mt_naive: W void w_evSub$S(float*p,float*q,float*d,int r,int c){ M m(p,r,c), k(q,r,c), l(d,r,c); MN mn; mn.evSub$S(m,k,l); }
//@for S in X _st _mt: W void w_evMulC_ip_Sub_ip$S(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.evMulC_ip_Sub_ip$S(m,x,k); }
//@for S in X _st _mt: W void w_evSquare$S(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.evSquare$S(m,k); }
//@for S in X _st _mt: W void w_evAbs$S(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.evAbs$S(m,k); }
//@for S in X _st _mt: W float w_vSumAbs$S(float*p,int r,int c){ M m(p,r,c); MN mn; return mn.vSumAbs$S(m); }
