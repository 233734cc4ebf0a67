#pragma once
#include "vp_nn.h"
#undef W
#include <vector>
#include "vp_blas.h"
#include <nntl/activation.h>
#include <nntl/weights_init.h>
#include <nntl/layers.h>
#include <nntl/layer/input.h>
#include <nntl/layer/fully_connected.h>
#include <nntl/layer/output.h>
#include <nntl/train_data/inmem_train_data.h>
#include <nntl/nnet.h>
#define W extern "C" __attribute__((used))
// Whole networks: assembling, training, evaluation and inference with the real nnet, layers pack, layer and train data classes.
struct lc_rng final : public rng::rng_helper<float,ptrdiff_t,uint32_t,lc_rng> { typedef seq_threads iThreads_t; unsigned long long s=7;
	int_4_random_shuffle_t gen_i(int_4_random_shuffle_t n)noexcept{ s=s*6364136223846793005ull+1442695040888963407ull; return int_4_random_shuffle_t((s>>33)%(unsigned long long)n);} int_4_distribution_t gen_int()noexcept{return (int_4_distribution_t)gen_i(1<<30);} void seed(seed_t)noexcept{}
	void gen_vector_norm(float*p,const numel_cnt_t n)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=gen_i(1<<20)/float(1<<20); } void gen_vector(float*p,const numel_cnt_t n,const float a)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=a*(2*(gen_i(1<<20)/float(1<<20))-1); } };
// log of what happened, in an explicit buffer
struct vp_log { float*p; ll n,cap; void put(float v){ if(n<cap) p[n]=v; ++n; } void rows(const math::smatrix<float>&a,int k){ for(int r=0;r<(int)a.batch_size();++r) for(int j=0;j<k;++j) put(a.bBatchInRow()?a.get(j,r):a.get(r,j)); } };
static vp_log*vp_lg;
struct vp_insp final : public inspector::dummy<float> { typedef inspector::dummy<float> B; template<class... A> vp_insp(A&&... a)noexcept:B(std::forward<A>(a)...){}
	void train_epochBegin(const numel_cnt_t e,const numel_cnt_t n)const noexcept{ vp_lg->put(4); vp_lg->put((float)e); vp_lg->put((float)n); }
	void train_preFprop(const math::smatrix<float>&x)const noexcept{ vp_lg->put(2); vp_lg->put((float)x.batch_size()); vp_lg->rows(x,x.sample_size()); }
	void fprop_preDropout(const math::smatrix<float>&,const float,const math::smatrix<float>&mask)const noexcept{ vp_lg->rows(mask,mask.cols()); }
	template<class Y> void train_preBprop(const math::smatrix<Y>&y)const noexcept{ vp_lg->rows(y,y.sample_size()); } };
template<class EV> struct vp_obs final : public training_observer_stdcout<float,EV> { typedef training_observer_stdcout<float,EV> B;
	template<class T> void on_training_start(const T&,vec_len_t b,vec_len_t m,numel_cnt_t np)noexcept{ vp_lg->put(6); vp_lg->put((float)b); vp_lg->put((float)m); vp_lg->put((float)np); }
	void on_training_fragment_end(const numel_cnt_t e,const float a,const float b,const std::chrono::nanoseconds&)noexcept{ vp_lg->put(1); vp_lg->put((float)e); vp_lg->put(a); vp_lg->put(b); for(int i=0;i<2;++i){ vp_lg->put((float)this->m_classifRes[i].totalElements); vp_lg->put((float)this->m_classifRes[i].correctlyClassif); } }
	void on_training_end(const std::chrono::nanoseconds&)noexcept{ vp_lg->put(7); }
	ll cor(int i)const{ return this->m_classifRes[i].correctlyClassif; } };
struct IFN { typedef float real_t; typedef seq_threads iThreads_t; typedef vp_mm iMemmgr_t; typedef MN iMath_t; typedef lc_rng iRng_t; typedef vp_insp iInspect_t; };
template<class I> struct GWN final : public _grad_works<GWN<I>,I,GW::ILR_dummy,GW::Loss_Addendums_L1L2> { typedef _grad_works<GWN<I>,I,GW::ILR_dummy,GW::Loss_Addendums_L1L2> B; GWN(float lr)noexcept:B(lr){} };
typedef GWN<IFN> GN;
static inline void vp_ext(MD&m,float*p,int n,int k,bool bias,bool row){ if(row) m.useExternalStorage(p,k+bias,n,bias,false,true); else m.useExternalStorage(p,n,k+bias,bias,false,false); }
// hyperparameters of a layer: ic = {optimizer, Nesterov?, frozen?, max-norm with bias?}, fc = {rate, momentum, L1, L2, max-norm}; weights from w, which moves on
template<class L> static bool vp_setup(L&l,float*&w,int r,int c,const int*ic,const float*fc){ auto&g=l.get_gradWorks(); g.set_type((typename GN::GradType)ic[0]); g.numeric_stabilizer(.001f); if(fc[1]>0){ if(ic[1]) g.nesterov_momentum(fc[1]); else g.momentum(fc[1]); } if(fc[2]!=0) g.L1(fc[2]); if(fc[3]!=0) g.L2(fc[3]); if(fc[4]>0) g.max_norm2(fc[4],ic[3]!=0); if(ic[2]) l._setUpdateWeights(false); MD m(w,r,c); w+=(ll)r*c; return l.set_weights(m); }
template<class L> static void vp_get(L&l,float*&w){ const auto&m=l.get_weights(); for(ll i=0;i<(ll)m.numel();++i) *w++=m.data()[i]; }
// nops operations, ops 8 ints each: {0 train: epochs, batch size, inference size, report stride, stop after epoch, last epoch of the divergence check, flags (1 release everything at the end, 2 without penalties in the loss, 8*b inference on the first b test samples after every epoch)}
// {1 inference on the first b test samples} {2 walk over data set d in batches of at most b} {3 loss of data set d}
template<class EV,class NN,class T> static void vp_ops(NN&nn,T&td,float*x2,int n2,int k,int l,bool rx,int nops,const int*ops,float divt){
	auto inf=[&](const int b){ std::vector<float> buf((size_t)b*(k+1)); for(int r=0;r<b;++r) for(int j=0;j<=k;++j) buf[rx?(ll)r*(k+1)+j:(ll)j*b+r]=rx?x2[(ll)r*(k+1)+j]:x2[(ll)j*n2+r]; MD X; vp_ext(X,buf.data(),b,k,true,rx); const int e=(int)nn.fprop(X); vp_lg->put(5); vp_lg->put((float)e); const auto&a=nn.get_layer_pack().output_layer().get_activations(); vp_lg->put((float)a.batch_size()); vp_lg->rows(a,l); };
	for(int i=0;i<nops;++i){ const int*o=ops+8*i; if(o[0]==0){ nnet_train_opts<float,vp_obs<EV>> op((numel_cnt_t)o[1],(numel_cnt_t)o[4]); op.batchSize(o[2]).maxFpropSize(o[3]).divergenceCheckLastEpoch((int16_t)o[6]).divergenceCheckThreshold(divt).ImmediatelyDeinit(o[7]&1).calcFullLossValue(!(o[7]&2)); const int st=o[5];
			const int e=(int)nn.train(td,op,[st,&inf,o](numel_cnt_t ep)noexcept{ if(o[7]>>3) inf(o[7]>>3); return (ll)ep!=(ll)st; }); vp_lg->put(3); vp_lg->put((float)e); }
		else if(o[0]==1) inf(o[1]);
		else if(o[0]==2){ vec_len_t b=o[2]; const int e=(int)nn.init4fixedBatchFprop(td,b); vp_lg->put(8); vp_lg->put((float)e); vp_lg->put((float)b); if(e==0){ const ll nb=td.walk_over_set(o[1],nn.get_const_common_data(),b); for(ll q=0;q<nb;++q){ td.next_subset(q,nn.get_const_common_data()); nn.doFixedBatchFprop(td.batchX()); const auto&a=nn.get_layer_pack().output_layer().get_activations(); vp_lg->put((float)a.batch_size()); vp_lg->rows(a,l); } } }
		else { vp_obs<EV> ob; if(!ob.init(1,td,nn.get_const_common_data())) vp_lg->put(-1); const float v=nn.calcLossAndReport(td,o[1],ob); vp_lg->put(9); vp_lg->put(v); vp_lg->put((float)ob.cor(o[1])); ob.deinit(); }
	} }
#define ARGS float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,float*w,int h,int cut,float dp,const int*ic,const float*fc,float dlo,float dhi,int nops,const int*ops,float divt,float*lg,ll cap
#define TDATA inmem_train_data<float> td; vp_ext(td.train_x_mutable(),x,n,k,true,rx); vp_ext(td.train_y_mutable(),y,n,l,false,false); vp_ext(td.test_x_mutable(),x2,n2,k,true,rx); vp_ext(td.test_y_mutable(),y2,n2,l,false,false); vp_log L{lg,0,cap}; vp_lg=&L; MN m; lc_rng r; vp_insp in; float*p=w;
#define PASS x,y,n,x2,y2,n2,k,l,rx,w,h,cut,dp,ic,fc,dlo,dhi,nops,ops,divt,lg,cap
typedef eval_classification_one_hot_cached<float> EVH; typedef eval_classification_binary_cached<float> EVB; namespace A=activation; typedef weights_init::XavierFour WI;
// the layers of this tree accept only activations that also declare a derivative: the softmax functions with that declaration
struct vp_smx : public A::_i_activation<float,WI,false>, public A::_i_xentropy_loss<float>, public A::type_softmax { typedef A::softmax_xentropy_loss<float,WI> S; typedef float real_t; typedef math::smatrix<float> Mx; typedef math::smatrix_deform<float> MD;
	template<class M> static void f(MD&a,M&m)noexcept{ S::f(a,m); } template<class T,class M> static numel_cnt_t needTempMem(const math::smatrix_td::mtx_size_t&s,M&m)noexcept{ return S::template needTempMem<T>(s,m); } template<class M> static void df(Mx&,M&)noexcept{}
	template<class M> static void dLdZ(const Mx&y,Mx&a,M&m)noexcept{ S::dLdZ(y,a,m); } template<class M> static float loss(const Mx&a,const Mx&y,M&m)noexcept{ return S::loss(a,y,m); } };
