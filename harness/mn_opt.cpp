#include "vp_mathn.h"
// gradient application, individual learning rates
//@for S in X _st _mt: W void w_RMSProp_Hinton$S(float*p,float*f,int r,int c,float lr,float d,float e){ M m(p,r,c), a(f,r,c); MN mn; mn.RMSProp_Hinton$S(m,a,lr,d,e); }
//@for S in X _st _mt: W void w_RMSProp_Graves$S(float*p,float*f,float*g,int r,int c,float lr,float d,float e){ M m(p,r,c), a(f,r,c), b(g,r,c); MN mn; mn.RMSProp_Graves$S(m,a,b,lr,d,e); }
//@for S in X _st _mt: W void w_ModProp$S(float*p,float*f,int r,int c,float lr,float d,float e){ M m(p,r,c), a(f,r,c); MN mn; mn.ModProp$S(m,a,lr,d,e); }
//@for S in X _st _mt: W void w_RProp$S(float*p,int r,int c,float lr){ M m(p,r,c); MN mn; mn.RProp$S(m,lr); }
//@for S in X _st _mt: W void w_Adam$S(float*p,float*f,float*g,float*bt,int r,int c,float lr,float b1,float b2,float e){ M m(p,r,c), a(f,r,c), b(g,r,c); MN mn; mn.Adam$S(m,a,b,bt[0],bt[1],lr,b1,b2,e); }
//@for S in X _st _mt: W void w_AdaMax$S(float*p,float*f,float*g,float*bt,int r,int c,float lr,float b1,float b2,float e){ M m(p,r,c), a(f,r,c), b(g,r,c); MN mn; mn.AdaMax$S(m,a,b,bt[0],lr,b1,b2,e); }
//@for S in X _st _mt: W void w_RNadam$S(float*p,float*f,float*g,float*bt,int r,int c,float lr,float b1,float b2,float ga,float e){ M m(p,r,c), a(f,r,c), b(g,r,c); MN mn; mn.RNadam$S(m,a,b,bt[0],bt[1],lr,b1,b2,ga,e); }
//@for S in X _st_naive _mt_naive _st_vec _mt_vec: W ll w_apply_ILR$S(float*p,float*f,float*g,float*t,int r,int c,float de,float in,float lo,float hi){ M m(p,r,c), a(f,r,c), b(g,r,c); MNT mn(t,MN().apply_ILR_needTempMem<float>(m.size())); mn.apply_ILR$S(m,a,b,de,in,lo,hi); return mn.used(); }
//@for S in X _st _mt: W void w_apply_momentum$S(float*p,float*q,int r,int c,float x){ M m(p,r,c), k(q,r,c); MN mn; mn.apply_momentum$S(m,x,k); }
