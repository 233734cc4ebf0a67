#include "vp_mathn.h"
// matrix products and the DeCov regularizer
#include "vp_blas.h"
W void w_mMulAB_C(float*A,float*B,float*C,int m,int n,int k){ M a(A,m,k), b(B,k,n), c(C,m,n); MN mn; mn.mMulAB_C(a,b,c); }
W void w_mMulABt_Cnb(float*A,float*B,float*C,int m,int n,int k,bool cb){ M a(A,m,k), b(B,n,k), c(C,m,n+(cb?1:0),cb); MN mn; mn.mMulABt_Cnb(a,b,c); }
W void w_mScaledMulAtB_C(float*A,float*B,float*C,int m,int n,int k,float s){ M a(A,k,m), b(B,k,n), c(C,m,n); MN mn; mn.mScaledMulAtB_C(s,a,b,c); }
static inline M L(float*p,int batch,int units,bool bias,bool bir){ const int u=units+(bias?1:0); return bir ? M(p,u,batch,bias,false,true) : M(p,batch,u,bias,false,false); }
W void w_fprop(float*P,float*Wt,float*A,int m,int p,int n,bool ab,bool pir,bool air){ M x=L(P,m,p,true,pir), w(Wt,n,p+1), a=L(A,m,n,ab,air); MN mn; mn.mMul_prevAct_weights_2_act(x,w,a); }
W void w_bprop(float*Z,float*Wt,float*D,int m,int p,int n,bool dir,ll*o){ M z(Z,m,n); MD w(Wt,n,p+1); M d=L(D,m,p,false,dir); MN mn; mn.mMul_dLdZ_weights_2_dLdAPrev(z,w,d); o[0]=w.rows(); o[1]=w.cols(); }
W void w_dLdW(float s,float*Z,float*P,float*Wt,int m,int p,int n,bool pir){ M z(Z,m,n), x=L(P,m,p,true,pir), w(Wt,n,p+1); MN mn; mn.mMulScaled_dLdZ_prevAct_2_dLdW(s,z,x,w); }
W void w_mColumnsCov(float*A,float*C,int r,int c,bool lo){ M a(A,r,c), b(C,c,c); MN mn; mn.mColumnsCov(a,b,lo); }
//@for F in true false: W void w_mColumnsCov_$F(float*A,float*C,int r,int c){ M a(A,r,c), b(C,c,c); MN mn; mn.template mColumnsCov<$F>(a,b); }
//@for F in true false: W float w_loss_deCov_$F(float*A,float*tmp,int r,int c,bool b,ll*o){ M a(A,r,c+(b?1:0),b); MNT mn(tmp,MN::loss_DeCov_needTempMem(true,a.size_no_bias())); const float q=mn.template loss_deCov<$F,false>(a); o[0]=mn.used(); return q; }
//@for F in true false: W float w_loss_deCov_ns_$F(float*A,float*tmp,int r,int c,bool b,ll*o){ M a(A,r,c+(b?1:0),b); MNT mn(tmp,MN::loss_DeCov_needTempMem(true,a.size_no_bias())); const float q=mn.template loss_deCov<$F,true>(a); o[0]=mn.used(); return q; }
//@for F in true false: W void w_dLoss_deCov_$F(float*A,float*D,float*tmp,int r,int c,bool b,float s,ll*o){ M a(A,r,c+(b?1:0),b), d(D,r,c); MNT mn(tmp,MN::loss_DeCov_needTempMem(true,a.size_no_bias())); mn.template dLoss_deCov<$F,false>(a,d,s); o[0]=mn.used(); }
//@for F in true false: W void w_dLoss_deCov_ip_$F(float*A,float*tmp,int r,int c,float s,ll*o){ M a(A,r,c); MNT mn(tmp,MN::loss_DeCov_needTempMem(true,a.size())); mn.template dLoss_deCov_ip<$F,true>(a,s); o[0]=mn.used(); }
W void w_s_mTranspose_ip(float*A,int r,int c,bool b,bool bir,ll*o){ MD a(A,r,c,b,false,bir); MN::s_mTranspose_ip(a); o[0]=a.rows(); o[1]=a.cols(); o[2]=a.emulatesBiases(); o[3]=a.bBatchInRow(); }
W bool w_mIsOrthogonal(float*A,int r,int c,bool t,float e){ M a(A,r,c); return MN::_mIsOrthogonal(a,t,e); }
