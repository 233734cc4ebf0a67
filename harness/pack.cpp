// VP_EXECUTED_ONLY
#include "vp_net.h"
#undef W
#include <nntl/layer/pack_vertical.h>
#include <nntl/layer/pack_horizontal.h>
#include <nntl/layer/identity.h>
#include <nntl/layer/extender.h>
#include <nntl/layer/pack_horizontal_optional.h>
#include <nntl/layer/pack_tile.h>
#define W extern "C" __attribute__((used))
typedef A::softsign<float,1000000,1000000,WI> SS; typedef A::relu<float,WI> RL; typedef A::sigm<float,WI> SG; typedef A::identity<float,WI> ID; typedef A::sigm_quad_loss<float,WI> SQ; typedef A::identity_quad_loss<float,WI> IQ;
#define RUN(EV) { nnet<decltype(lp)> nn(lp,&in,&m,&r); vp_ops<EV>(nn,td,x2,n2,k,l,rx,nops,ops,divt); }
#define LR(i) fc[5*(i)]
#define SET(L,i,rows,cols) if(!vp_setup(L,p,rows,cols,ic+4*(i),fc+5*(i))) return -1;
#define CL if(dlo<0) o.restrict_dL_dZ(dlo,dhi);
#define FIN return L.n<=cap?L.n:-2;
// vertical pack of two layers between input and output
W ll w_pk_v(ARGS){ TDATA layer_input<IFN> li(k); LFC<RL,GN> a(h,LR(0)); LFC<SS,GN> b(h+1,LR(1)); layer_output<SQ,GN> o(l,LR(2)); auto v=make_layer_pack_vertical(a,b); auto lp=make_layers(li,v,o); CL SET(a,0,h,k+1) SET(b,1,h+1,h+1) SET(o,2,l,h+2) RUN(EVB) p=w; vp_get(a,p); vp_get(b,p); vp_get(o,p); FIN }
// horizontal pack right over the input: the first layer sees all features but the last cut, the second one the features from cut on
W ll w_pk_h(ARGS){ TDATA layer_input<IFN> li(k); LFC<RL,GN> a(h,LR(0)); LFC<SS,GN> b(h+1,LR(1)); layer_output<IQ,GN> o(l,LR(2)); auto v=make_layer_pack_horizontal(make_PHL(a,0,k-cut),make_PHL(b,cut,k-cut)); auto lp=make_layers(li,v,o); CL SET(a,0,h,k-cut+1) SET(b,1,h+1,k-cut+1) SET(o,2,l,2*h+2) RUN(EVB) p=w; vp_get(a,p); vp_get(b,p); vp_get(o,p); FIN }
// horizontal pack over a fully connected layer of k neurons: overlapping ranges, an identity layer
W ll w_pk_fh(ARGS){ TDATA layer_input<IFN> li(k); LFC<SG,GN> f(k,LR(0)); LFC<SS,GN> a(h,LR(1)); LI<IFN> i; layer_output<IQ,GN> o(l,LR(2)); auto v=make_layer_pack_horizontal(make_PHL(i,cut,k-cut),make_PHL(a,0,k)); auto lp=make_layers(li,f,v,o); CL SET(f,0,k,k+1) SET(a,1,h,k+1) SET(o,2,l,k-cut+h+1) RUN(EVB) p=w; vp_get(f,p); vp_get(a,p); vp_get(o,p); FIN }
// dropout over the first of two fully connected layers
template<class F> using tplRL=_LFC<F,RL,GN>; template<class F> using tplSS=_LFC<F,SS,GN>;
W ll w_pk_do(ARGS){ TDATA layer_input<IFN> li(k); LDO<tplRL,Dropout<float>> a(h,LR(0)); LFC<SS,GN> b(h+1,LR(1)); layer_output<SQ,GN> o(l,LR(2)); a.dropoutPercentActive(dp); auto lp=make_layers(li,a,b,o); CL SET(a,0,h,k+1) SET(b,1,h+1,h+1) SET(o,2,l,h+2) RUN(EVB) p=w; vp_get(a,p); vp_get(b,p); vp_get(o,p); FIN }
// penalized activations (L1 and L2) and dropout on the same layer, over another layer
W ll w_pk_pa(ARGS){ TDATA layer_input<IFN> li(k); LFC<SS,GN> b(h+1,LR(0)); typedef loss_addendum::L1<float> A1; typedef loss_addendum::L2<float> A2; LPA_DO<tplRL,Dropout<float>,A1,A2> a(h,LR(1)); layer_output<SQ,GN> o(l,LR(2)); a.dropoutPercentActive(dp); a.template addendum<0>().scale(.125f*(cut&1)); a.template addendum<1>().scale(.25f*(cut>>1)); auto lp=make_layers(li,b,a,o); CL SET(b,0,h+1,k+1) SET(a,1,h,h+2) SET(o,2,l,h+1) RUN(EVB) p=w; vp_get(b,p); vp_get(a,p); vp_get(o,p); FIN }
// packs in packs: a vertical pack and a horizontal pack (a layer with dropout and an identity layer) side by side over a fully connected layer
W ll w_pk_n(ARGS){ TDATA layer_input<IFN> li(k); LFC<SG,GN> f(k,LR(0)); LFC<RL,GN> a(h,LR(1)); LFC<ID,GN> b(h+1,LR(2)); LDO<tplSS,Dropout<float>> c(h,LR(3)); LI<IFN> i; layer_output<IQ,GN> o(l,LR(4)); c.dropoutPercentActive(dp); auto v=make_layer_pack_vertical(a,b); const int q=k-cut; auto hh=make_layer_pack_horizontal(make_PHL(c,0,q),make_PHL(i,q/2,q-q/2)); auto v2=make_layer_pack_horizontal(make_PHL(v,0,k),make_PHL(hh,cut,q)); auto lp=make_layers(li,f,v2,o); CL SET(f,0,k,k+1) SET(a,1,h,k+1) SET(b,2,h+1,h+1) SET(c,3,h,q+1) SET(o,4,l,2*h+1+q-q/2+1) RUN(EVB) p=w; vp_get(f,p); vp_get(a,p); vp_get(b,p); vp_get(c,p); vp_get(o,p); FIN }
// optional layers: the first two features open the gates of two layers that share the other features
W ll w_pk_o(ARGS){ TDATA layer_input<IFN> li(k); LIG<500000,IFN> g; LFC<SS,GN> a(h,LR(0)); LFC<RL,GN> b(h+1,LR(1)); layer_output<IQ,GN> o(l,LR(2)); typedef PHL<decltype(g)> PG; typedef PHL<decltype(a)> PA; typedef PHL<decltype(b)> PB; LPHO<false,PG,PA,PB> v(PG(g,0,2),PA(a,2,cut),PB(b,2+cut,k-2-cut)); auto lp=make_layers(li,v,o); CL SET(a,0,h,cut+1) SET(b,1,h+1,k-2-cut+1) SET(o,2,l,2+2*h+1+1) RUN(EVB) p=w; vp_get(a,p); vp_get(b,p); vp_get(o,p); FIN }
// the same over a fully connected layer, with features that say that a gate is closed
W ll w_pk_fo(ARGS){ TDATA layer_input<IFN> li(k); LFC<SG,GN> f(k,LR(0)); LIG<500000,IFN> g; LFC<SS,GN> a(h,LR(1)); LI<IFN> b; layer_output<IQ,GN> o(l,LR(2)); typedef PHL<decltype(g)> PG; typedef PHL<decltype(a)> PA; typedef PHL<decltype(b)> PB; LPHO<true,PG,PA,PB> v(PG(g,0,2),PA(a,2,cut),PB(b,2+cut,k-2-cut)); auto lp=make_layers(li,f,v,o); CL SET(f,0,k,k+1) SET(a,1,h,cut+1) SET(o,2,l,4+h+k-2-cut+1) RUN(EVB) p=w; vp_get(f,p); vp_get(a,p); vp_get(o,p); FIN }
// one optional layer over a fully connected layer
W ll w_pk_f1(ARGS){ TDATA layer_input<IFN> li(k); LFC<SG,GN> f(k,LR(0)); LIG<500000,IFN> g; LFC<SS,GN> a(h,LR(1)); layer_output<IQ,GN> o(l,LR(2)); typedef PHL<decltype(g)> PG; typedef PHL<decltype(a)> PA; LPHO<false,PG,PA> v(PG(g,0,1),PA(a,1,k-1)); auto lp=make_layers(li,f,v,o); CL SET(f,0,k,k+1) SET(a,1,h,k) SET(o,2,l,h+2) RUN(EVB) p=w; vp_get(f,p); vp_get(a,p); vp_get(o,p); FIN }
// cut tiles of one layer over a fully connected layer of k*cut neurons / over the input
W ll w_pk_ft(ARGS){ TDATA layer_input<IFN> li(k); LFC<SG,GN> f(k*cut,LR(0)); LFC<SS,GN> a(h,LR(1)); LPT<decltype(a)> t(a,cut); layer_output<IQ,GN> o(l,LR(2)); auto lp=make_layers(li,f,t,o); CL SET(f,0,k*cut,k+1) SET(a,1,h,k+1) SET(o,2,l,h*cut+1) RUN(EVB) p=w; vp_get(f,p); vp_get(a,p); vp_get(o,p); FIN }
W ll w_pk_t(ARGS){ TDATA layer_input<IFN> li(k); LFC<RL,GN> a(h,LR(0)); LPT<decltype(a)> t(a,cut); layer_output<SQ,GN> o(l,LR(1)); auto lp=make_layers(li,t,o); CL SET(a,0,h,k/cut+1) SET(o,1,l,h*cut+1) RUN(EVB) p=w; vp_get(a,p); vp_get(o,p); FIN }
