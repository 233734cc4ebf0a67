// The real grad_works and layer classes over the harness's math class; the random number generator is replaced by one that
// hands out the numbers of an explicit buffer (so every contract holds for every sequence of random numbers).
#pragma once
#include "vp_mathn.h"
#undef W
#include <cstring>
#include <nntl/interface/_i_rng.h>
#include <nntl/interface/_i_inspector.h>
#include <nntl/common_nn_data.h>
#include <nntl/grad_works/grad_works.h>
struct vp_rng final : public rng::rng_helper<float,ptrdiff_t,uint32_t,vp_rng> { typedef seq_threads iThreads_t; const float*s; vp_rng(const float*x):s(x){}
	int_4_random_shuffle_t gen_i(int_4_random_shuffle_t)noexcept{return 0;} int_4_distribution_t gen_int()noexcept{return 0;} void seed(seed_t)noexcept{}
	void gen_vector_norm(float*p,const numel_cnt_t n)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=s[i]; }
	void gen_vector(float*p,const numel_cnt_t n,const float a)noexcept{ for(numel_cnt_t i=0;i<n;++i) p[i]=a*s[i]; } };
struct IF { typedef float real_t; typedef seq_threads iThreads_t; typedef vp_mm iMemmgr_t; typedef MNT iMath_t; typedef vp_rng iRng_t; typedef inspector::dummy<float> iInspect_t; };
typedef _impl::common_nn_data<IF> CD;
typedef math::smatrix_deform<float> MD;
struct ENV { MNT m; vp_rng r; inspector::dummy<float> i; bool nl; CD cd; ENV(float*t,ll n,const float*s):m(t,n),r(s),nl(false),cd(m,r,i,nl){} };
#define W extern "C" __attribute__((used))
