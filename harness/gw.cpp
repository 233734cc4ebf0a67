#include "vp_nn.h"
// gradient application to a weight matrix, from an arbitrary optimizer state
template<template<typename,typename,size_t> class... Mx> struct GWT final : public _grad_works<GWT<Mx...>,IF,Mx...> { typedef _grad_works<GWT<Mx...>,IF,Mx...> B; GWT(float lr):B(lr){}
	using B::m_Vw; using B::m_optMtxA; using B::m_optMtxB; using B::m_optBeta1t; using B::m_optBeta2t; using B::set_common_data;
	void first(bool b){ this->set_opt(B::f_FirstRun,b); } };
typedef GWT<GW::ILR_dummy,GW::Loss_Addendums_builder<void>::template type> G0;
typedef GWT<GW::ILR,GW::Loss_Addendums_L1L2> G1;
typedef GWT<GW::ILR_dummy,GW::Loss_Addendums_L1L2> G2;
// one optimizer step: w weights, g gradient, a and b the optimizer's matrices, bt = {beta1^t, beta2^t, gamma, first-run}
template<int T> static inline void vp_step(float*w,float*g,float*a,float*b,float*bt,int r,int c,bool first,float lr,float b1,float b2,float ga,float e){
	ENV E(nullptr,0,nullptr); G0 G(lr); G.set_common_data(E.cd); G.set_type((typename G0::GradType)T); G.beta1(b1).beta2(b2).gamma(ga).numeric_stabilizer(e);
	G.first(first); G.m_optBeta1t=bt[0]; G.m_optBeta2t=bt[1]; if(a) G.m_optMtxA.useExternalStorage(a,r,c); if(b) G.m_optMtxB.useExternalStorage(b,r,c);
	MD mw(w,r,c), mg(g,r,c); G.apply_grad(mw,mg); bt[0]=G.m_optBeta1t; bt[1]=G.m_optBeta2t; bt[2]=G.gamma(); bt[3]=G.isFirstRun()?1.f:0.f; }
//@for T in ClassicalConstant RMSProp_Hinton RMSProp_Graves RProp ModProp Adam AdaMax Nadam Radam: W void w_gw_$T(float*w,float*g,float*a,float*b,float*bt,int r,int c,bool first,float lr,float b1,float b2,float ga,float e){ vp_step<G0::$T>(w,g,a,b,bt,r,c,first,lr,b1,b2,ga,e); }
// momentum (classical or Nesterov) with plain gradient steps
W void w_gw_momentum(float*w,float*g,float*v,int r,int c,bool nest,float lr,float mom){ ENV E(nullptr,0,nullptr); G0 G(lr); G.set_common_data(E.cd); if(nest) G.nesterov_momentum(mom); else G.momentum(mom); G.m_Vw.useExternalStorage(v,r,c); MD mw(w,r,c), mg(g,r,c); G.apply_grad(mw,mg); }
W void w_gw_pre_fprop(float*w,float*v,int r,int c,bool nest,float mom){ ENV E(nullptr,0,nullptr); G0 G(1.f); G.set_common_data(E.cd); if(nest) G.nesterov_momentum(mom); else G.momentum(mom); G.m_Vw.useExternalStorage(v,r,c); MD mw(w,r,c); G.pre_training_fprop(mw); }
// a whole Nesterov iteration: look-ahead, then the update with the gradient found there
W void w_gw_nesterov_iter(float*w,float*g,float*v,float*la,int r,int c,float lr,float mom){ ENV E(nullptr,0,nullptr); G0 G(lr); G.set_common_data(E.cd); G.nesterov_momentum(mom); G.m_Vw.useExternalStorage(v,r,c); MD mw(w,r,c), mg(g,r,c); G.pre_training_fprop(mw); for(ll i=0;i<(ll)r*c;++i) la[i]=w[i]; G.apply_grad(mw,mg); }
// learning rate dropout: s are the random numbers drawn
W ll w_gw_lrdrop(float*w,float*g,float*v,float*t,const float*s,int r,int c,bool useM,bool nest,float lr,float mom,float pa){ ENV E(t,(ll)r*c,s); G0 G(lr); G.set_common_data(E.cd); if(useM){ if(nest) G.nesterov_momentum(mom); else G.momentum(mom); G.m_Vw.useExternalStorage(v,r,c); } G.LRDropoutPercentActive(pa); MD mw(w,r,c), mg(g,r,c); G.apply_grad(mw,mg); return E.m.used(); }
W ll w_gw_lrdrop_pre(float*w,float*v,float*t,const float*s,int r,int c,float mom,float pa,bool appl){ ENV E(t,(ll)r*c*2,s); G0 G(1.f); G.set_common_data(E.cd); G.nesterov_momentum(mom); G.m_Vw.useExternalStorage(v,r,c); G.LRDropoutPercentActive(pa); G.setApplyLRDropoutToNesterovMomentum(appl); MD mw(w,r,c); G.pre_training_fprop(mw); return E.m.used(); }
// max-norm
W ll w_gw_maxnorm(float*w,float*g,float*t,int r,int c,float lr,float mx,bool inclb){ MD mw(w,r,c), mg(g,r,c); ENV E(t,MN().mCheck_normalize_rows_needTempMem(mw),nullptr); G0 G(lr); G.set_common_data(E.cd); G.max_norm2(mx,inclb); G.apply_grad(mw,mg); return E.m.used(); }
W ll w_gw_maxnorm_pre(float*w,float*v,float*t,int r,int c,float mom,float mx,bool inclb){ MD mw(w,r,c); ENV E(t,MN().mCheck_normalize_rows_needTempMem(mw),nullptr); G0 G(1.f); G.set_common_data(E.cd); G.nesterov_momentum(mom); G.m_Vw.useExternalStorage(v,r,c); G.max_norm2(mx,inclb); G.pre_training_fprop(mw); return E.m.used(); }
// weight penalties
W void w_gw_pen(float*w,float*g,int r,int c,float lr,float l1,bool ib1,float l2,bool ib2){ ENV E(nullptr,0,nullptr); G2 G(lr); G.set_common_data(E.cd); G.L1(l1,ib1); G.L2(l2,ib2); MD mw(w,r,c), mg(g,r,c); G.apply_grad(mw,mg); }
W float w_gw_lossadd(float*w,int r,int c,float l1,bool ib1,float l2,bool ib2,bool*has){ ENV E(nullptr,0,nullptr); G2 G(1.f); G.set_common_data(E.cd); G.L1(l1,ib1); G.L2(l2,ib2); MD mw(w,r,c); *has=G.hasLossAddendum(); return G.lossAddendum(mw); }
// individual learning rates and the whole life cycle: gw_init, n updates with the given gradients (g holds them one after another), gw_deinit; only the settings survive
W bool w_gw_run(float*w,float*g,int n,int r,int c,int type,float lr,float mom,bool nest,float l1,float l2,float mx,bool inclb,bool ilr,bool ilrm,float*o){ float t[4096]; ENV E(t,4096,nullptr); G1 G(lr); G.set_type((typename G1::GradType)type); if(mom>0){ if(nest) G.nesterov_momentum(mom); else G.momentum(mom); } if(l1!=0) G.L1(l1); if(l2!=0) G.L2(l2); if(mx>0) G.max_norm2(mx,inclb); if(ilr){ G.set_ILR(.5f,1.5f,.25f,4.f); G.applyILRToMomentum(ilrm); } G.numeric_stabilizer(.001f); MD mw(w,r,c); E.cd.init(8,8); if(!G.gw_init(E.cd,mw)) return false;
	for(int i=0;i<n;++i){ MD mg(g+(ll)i*r*c,r,c); G.pre_training_fprop(mw); G.apply_grad(mw,mg); } o[0]=G.isFirstRun(); o[1]=G.lossAddendum(mw); o[2]=G.hasLossAddendum(); G.gw_deinit(); return true; }
