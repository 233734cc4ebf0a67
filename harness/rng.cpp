#include "vp_mathn.h"
#undef W
// the standard library's normal distribution is a dependency: assumed to return mean + deviation * (next standard normal number)
#include <random>
namespace std { template<> class normal_distribution<float> { float m,s; public: explicit normal_distribution(float a=0.f,float b=1.f):m(a),s(b){} template<class G> float operator()(G&g); }; }
#include <nntl/interface/_i_rng.h>
#include <nntl/interface/rng/distr_normal_naive.h>
#include <nntl/weights_init/static.h>
// a generator on an explicit buffer of numbers: uniform numbers of [0,1], standard normal numbers and raw integers are handed out one after another
struct vp_rg final : public rng::rng_helper<float,ptrdiff_t,uint32_t,vp_rg> { typedef rng::rng_helper<float,ptrdiff_t,uint32_t,vp_rg> B; typedef seq_threads iThreads_t; const float*s; unsigned long long lc=7; vp_rg(const float*x):s(x){}
	int_4_random_shuffle_t gen_i(int_4_random_shuffle_t n)noexcept{ lc=lc*6364136223846793005ull+1442695040888963407ull; return int_4_random_shuffle_t((lc>>33)%(unsigned long long)n); } int_4_distribution_t gen_int()noexcept{return 0;} void seed(seed_t)noexcept{}
	template<class T> T gen_f_norm()noexcept{ return *s++; } float nrm(){ return *s++; }
	void gen_vector(float*p,const numel_cnt_t n,const float a)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=a*s[i]; }
	void gen_vector_norm(float*p,const numel_cnt_t n)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=s[i]; }
	template<class T> void gen_vector_gtz(T*p,const numel_cnt_t n,const T a)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=a*s[i]; } };
template<class G> float std::normal_distribution<float>::operator()(G&g){ return m+s*static_cast<vp_rg&>(g).nrm(); }
#define W extern "C" __attribute__((used))
typedef math::smatrix_deform<float> MD; namespace wi=weights_init;
// the generic part of every random number generator
W void w_rng_normal_vector(const float*s,float*p,ll n,float m,float st){ vp_rg g(s); g.normal_vector(p,n,m,st); }
W void w_rng_normal_matrix(const float*s,float*p,int r,int c,float m,float st){ vp_rg g(s); MD a(p,r,c); g.normal_matrix(a,m,st); }
W void w_rng_bernoulli_vector(const float*s,float*p,ll n,float pr,float pv,float nv){ vp_rg g(s); g.bernoulli_vector(p,n,pr,pv,nv); }
W void w_rng_bernoulli_matrix(const float*s,float*p,int r,int c,float pr,float pv,float nv){ vp_rg g(s); MD a(p,r,c); g.bernoulli_matrix(a,pr,pv,nv); }
W void w_rng_binary_vector(const float*s,float*p,ll n,float pr){ vp_rg g(s); g.binary_vector(p,n,pr); }
W void w_rng_binary_matrix(const float*s,float*p,int r,int c,float pr){ vp_rg g(s); MD a(p,r,c); g.binary_matrix(a,pr); }
W float w_rng_gen_f(const float*s,float a){ vp_rg g(s); return g.gen_f(a); }
W void w_rng_gen_matrix(const float*s,float*p,int r,int c,float a){ vp_rg g(s); MD m(p,r,c); g.gen_matrix(m,a); }
W void w_rng_gen_matrix_norm(const float*s,float*p,int r,int c){ vp_rg g(s); MD m(p,r,c); g.gen_matrix_norm(m); }
W void w_rng_gen_matrix_gtz(const float*s,float*p,int r,int c,float a){ vp_rg g(s); MD m(p,r,c); g.gen_matrix_gtz(m,a); }
// matrices with a bias column (c counts it)
W void w_rng_gen_matrix_no_bias(const float*s,float*p,int r,int c,bool b,float a){ vp_rg g(s); MD m(p,r,c,b); g.gen_matrix_no_bias(m,a); }
W void w_rng_gen_matrix_no_bias_norm(const float*s,float*p,int r,int c,bool b){ vp_rg g(s); MD m(p,r,c,b); g.gen_matrix_no_bias_norm(m); }
W void w_rng_gen_matrix_no_bias_gtz(const float*s,float*p,int r,int c,bool b,float a){ vp_rg g(s); MD m(p,r,c,b); g.gen_matrix_no_bias_gtz(m,a); }
W void w_rng_gen_matrixAny(const float*s,float*p,int r,int c,bool b,float a){ vp_rg g(s); MD m(p,r,c,b); g.gen_matrixAny(m,a); }
W void w_rng_gen_matrixAny_row(const float*s,float*p,int r,int c,float a){ vp_rg g(s); MD m(p,r,c,true,false,true); g.gen_matrixAny(m,a); }
// normal numbers over any generator
W void w_dn_gen_vector(const float*s,float*p,ll n,float m,float st){ vp_rg g(s); rng::distr_normal_naive<vp_rg> d(g,m,st); d.gen_vector(p,n); }
W void w_dn_gen_matrix(const float*s,float*p,int r,int c,float m,float st){ vp_rg g(s); rng::distr_normal_naive<vp_rg> d(g,m,st); MD a(p,r,c); d.gen_matrix(a); }
W void w_dn_gen_matrix_no_bias(const float*s,float*p,int r,int c,bool b,float m,float st){ vp_rg g(s); rng::distr_normal_naive<vp_rg> d(g,m,st); MD a(p,r,c,b); d.gen_matrix_no_bias(a); }
// weight initialisation schemes
template<class T> static inline bool vp_wi(const float*s,float*p,int r,int c){ vp_rg g(s); MN m; MD w(p,r,c); return T::make_weights(w,g,m); }
W bool w_wi_Xavier(const float*s,float*p,int r,int c){ return vp_wi<wi::Xavier<>>(s,p,r,c); }
W bool w_wi_XavierFour(const float*s,float*p,int r,int c){ return vp_wi<wi::XavierFour>(s,p,r,c); }
W bool w_wi_He_Zhang(const float*s,float*p,int r,int c){ return vp_wi<wi::He_Zhang<>>(s,p,r,c); }
W bool w_wi_He_Zhang_half(const float*s,float*p,int r,int c){ return vp_wi<wi::He_Zhang<500000>>(s,p,r,c); }
W bool w_wi_He_Zhang2(const float*s,float*p,int r,int c){ return vp_wi<wi::He_Zhang2<>>(s,p,r,c); }
W bool w_wi_SNNInit(const float*s,float*p,int r,int c){ return vp_wi<wi::SNNInit>(s,p,r,c); }
W bool w_wi_Martens_sigm(const float*s,float*p,int r,int c){ return vp_wi<wi::Martens_SI_sigm<3>>(s,p,r,c); }
W bool w_wi_Martens_tanh(const float*s,float*p,int r,int c){ return vp_wi<wi::Martens_SI_tanh<2>>(s,p,r,c); }
