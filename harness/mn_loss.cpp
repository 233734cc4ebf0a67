#include "vp_mathn.h"
// losses: dispatcher, explicit range (_st), parallel (_mt).   weighted losses with exactly representable weights 1.5, 0.5 and boundary 0.25
typedef activation::Loss_quadratic<float> LQ; typedef activation::Linear_Loss_quadWeighted_FP<float,1500000,250000> L1; typedef activation::Linear_Loss_quadWeighted2_FP<float,1500000,500000,250000> L2; typedef activation::Linear_Loss_quadWeighted_res_FP<float,1500000,250000> L3;
//@for F in loss_quadratic loss_quadratic_ns loss_xentropy loss_xentropy_ns loss_softmax_xentropy loss_quadratic_mt_naive loss_quadratic_mt_naive_ns loss_xentropy_mt loss_xentropy_ns_mt loss_softmax_xentropy_mt: W float w_$F(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; return mn.$F(m,k); }
//@for F in loss_quadratic_st_naive loss_quadratic_st_naive_ns loss_xentropy_st loss_xentropy_ns_st loss_softmax_xentropy_st: W float w_$F(float*p,float*q,int r,int c,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); return mn.$F(m,k,er?&e:nullptr); }
//@for F in LQ L1 L2 L3: W float w_loss_$F(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; return mn.compute_loss<$F>(m,k); }
//@for F in LQ L1 L2 L3: W float w_loss_$F_mt(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; return mn.compute_loss_mt<$F>(m,k); }
//@for F in LQ L1 L2 L3: W float w_loss_$F_st(float*p,float*q,int r,int c,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); return mn.compute_loss_st<$F>(m,k,er?&e:nullptr); }
//@for F in L1 L2 L3: W void w_dloss_$F(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.dLoss_dZ<$F>(k,m); }
//@for F in L1 L2 L3: W void w_dloss_$F_mt(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.dLoss_dZ_mt<$F>(k,m); }
//@for F in L1 L2 L3: W void w_dloss_$F_st(float*p,float*q,int r,int c,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.dLoss_dZ_st<$F>(k,m,er?&e:nullptr); }
//@for S in X _mt: W void w_dIdentityXEntropyLoss_dZ$S(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.dIdentityXEntropyLoss_dZ$S(k,m); }
W void w_dIdentityXEntropyLoss_dZ_st(float*p,float*q,int r,int c,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.dIdentityXEntropyLoss_dZ_st(k,m,er?&e:nullptr); }
//@for S in X _mt: W void w_dSigmQuadLoss_dZ$S(float*p,float*q,int r,int c){ M m(p,r,c), k(q,r,c); MN mn; mn.dSigmQuadLoss_dZ$S(k,m); }
W void w_dSigmQuadLoss_dZ_st(float*p,float*q,int r,int c,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.dSigmQuadLoss_dZ_st(k,m,er?&e:nullptr); }
//@for S in Quad XEntropy: W void w_dSoftSigm$SLoss_dZ(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.dSoftSigm$SLoss_dZ(k,m,x); }
//@for S in Quad XEntropy: W void w_dSoftSigm$SLoss_dZ_mt(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.dSoftSigm$SLoss_dZ_mt(k,m,x); }
//@for S in Quad XEntropy: W void w_dSoftSigm$SLoss_dZ_st(float*p,float*q,int r,int c,float x,bool er,ll a,ll b){ M m(p,r,c), k(q,r,c); MN mn; ER e(a,b); mn.dSoftSigm$SLoss_dZ_st(k,m,x,er?&e:nullptr); }
