#include "vp_mathn.h"
// activations and derivatives: dispatcher, explicit range (_st), parallel (_mt)
//@for F in sigm relu elu_unitalpha elogu_ua_nb loglogu_nbn_nbp logu_nb step dsigm drelu delu_unitalpha delogu_ua_nb dloglogu_nbn_nbp dlogu_nb dsoftsign_ua_uc: W void w_$F(float*p,int r,int c,bool eb){ M m(p,r,c,eb); MN mn; mn.$F(m); }
//@for F in sigm relu elu_unitalpha elogu_ua_nb loglogu_nbn_nbp logu_nb step dsigm drelu delu_unitalpha delogu_ua_nb dloglogu_nbn_nbp dlogu_nb dsoftsign_ua_uc: W void w_$F_st(float*p,int r,int c,bool eb,ll a,ll b){ M m(p,r,c,eb); MN mn; ER e(a,b); mn.$F_st(m,&e); }
//@for F in sigm relu elu_unitalpha elogu_ua_nb loglogu_nbn_nbp logu_nb step dsigm drelu delu_unitalpha delogu_ua_nb dloglogu_nbn_nbp dlogu_nb dsoftsign_ua_uc: W void w_$F_mt(float*p,int r,int c,bool eb){ M m(p,r,c,eb); MN mn; mn.$F_mt(m); }
//@for F in leakyrelu elu elogu_ua elogu_nb loglogu_nbn loglogu_nbp logu softsign_uc softsigm dleakyrelu delu delogu_ua delogu_nb dloglogu_nbn dloglogu_nbp dlogu dsoftsigm: W void w_$F(float*p,int r,int c,bool eb,float x){ M m(p,r,c,eb); MN mn; mn.$F(m,x); }
//@for F in leakyrelu elu elogu_ua elogu_nb loglogu_nbn loglogu_nbp logu softsign_uc softsigm dleakyrelu delu delogu_ua delogu_nb dloglogu_nbn dloglogu_nbp dlogu dsoftsigm: W void w_$F_st(float*p,int r,int c,bool eb,float x,ll a,ll b){ M m(p,r,c,eb); MN mn; ER e(a,b); mn.$F_st(m,x,&e); }
//@for F in leakyrelu elu elogu_ua elogu_nb loglogu_nbn loglogu_nbp logu softsign_uc softsigm dleakyrelu delu delogu_ua delogu_nb dloglogu_nbn dloglogu_nbp dlogu dsoftsigm: W void w_$F_mt(float*p,int r,int c,bool eb,float x){ M m(p,r,c,eb); MN mn; mn.$F_mt(m,x); }
//@for F in elogu loglogu softsign selu delogu dloglogu dsoftsign dselu: W void w_$F(float*p,int r,int c,bool eb,float x,float y){ M m(p,r,c,eb); MN mn; mn.$F(m,x,y); }
//@for F in elogu loglogu softsign selu delogu dloglogu dsoftsign dselu: W void w_$F_st(float*p,int r,int c,bool eb,float x,float y,ll a,ll b){ M m(p,r,c,eb); MN mn; ER e(a,b); mn.$F_st(m,x,y,&e); }
//@for F in elogu loglogu softsign selu delogu dloglogu dsoftsign dselu: W void w_$F_mt(float*p,int r,int c,bool eb,float x,float y){ M m(p,r,c,eb); MN mn; mn.$F_mt(m,x,y); }
