// VP_EXECUTED_ONLY
#include "vp_net.h"
template<class O,class EV> static ll net0(ARGS){ TDATA layer_input<IFN> li(k); layer_output<O,GN> o(l,fc[0]); auto lp=make_layers(li,o); if(dlo<0) o.restrict_dL_dZ(dlo,dhi); if(!vp_setup(o,p,l,k+1,ic,fc)) return -1; { nnet<decltype(lp)> nn(lp,&in,&m,&r); vp_ops<EV>(nn,td,x2,n2,k,l,rx,nops,ops,divt); } p=w; vp_get(o,p); return L.n<=cap?L.n:-2; }
template<class H,class O,class EV> static ll net1(ARGS){ TDATA layer_input<IFN> li(k); LFC<H,GN> a(h,fc[0]); layer_output<O,GN> o(l,fc[5]); auto lp=make_layers(li,a,o); if(dlo<0) o.restrict_dL_dZ(dlo,dhi); if(!vp_setup(a,p,h,k+1,ic,fc)||!vp_setup(o,p,l,h+1,ic+4,fc+5)) return -1; { nnet<decltype(lp)> nn(lp,&in,&m,&r); vp_ops<EV>(nn,td,x2,n2,k,l,rx,nops,ops,divt); } p=w; vp_get(a,p); vp_get(o,p); return L.n<=cap?L.n:-2; }
template<class H,class H2,class O,class EV> static ll net2(ARGS){ TDATA layer_input<IFN> li(k); LFC<H,GN> a(h,fc[0]); LFC<H2,GN> b(h+1,fc[5]); layer_output<O,GN> o(l,fc[10]); auto lp=make_layers(li,a,b,o); if(dlo<0) o.restrict_dL_dZ(dlo,dhi); if(!vp_setup(a,p,h,k+1,ic,fc)||!vp_setup(b,p,h+1,h+1,ic+4,fc+5)||!vp_setup(o,p,l,h+2,ic+8,fc+10)) return -1; { nnet<decltype(lp)> nn(lp,&in,&m,&r); vp_ops<EV>(nn,td,x2,n2,k,l,rx,nops,ops,divt); } p=w; vp_get(a,p); vp_get(b,p); vp_get(o,p); return L.n<=cap?L.n:-2; }
W ll w_net_quad(ARGS){ return net0<A::identity_quad_loss<float,WI>,EVB>(PASS); }
W ll w_net_softmax(ARGS){ return net0<vp_smx,EVH>(PASS); }
W ll w_net_relu_xent(ARGS){ return net1<A::relu<float,WI>,A::sigm_xentropy_loss<float,WI>,EVB>(PASS); }
W ll w_net_softsign_quad(ARGS){ return net1<A::softsign<float,1000000,1000000,WI>,A::sigm_quad_loss<float,WI>,EVH>(PASS); }
W ll w_net_identity_softmax(ARGS){ return net1<A::identity<float,WI>,vp_smx,EVH>(PASS); }
W ll w_net_sigm_elu_softmax(ARGS){ return net2<A::sigm<float,WI>,A::elu<float,1000,WI>,vp_smx,EVH>(PASS); }
W ll w_net_leaky_softsign_quad(ARGS){ return net2<A::leaky_relu<float,1000,WI>,A::softsign<float,1000000,1000000,WI>,A::identity_quad_loss<float,WI>,EVB>(PASS); }
