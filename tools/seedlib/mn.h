// The real _MathN/_SMath of /repo over a sequential stand-in for the thread pool. The stand-in runs the functor over an
// arbitrary partition of [0,cnt) into at most VP_NT consecutive non-empty ranges; where the partition points lie is chosen by
// vp_split (any value strictly between its arguments), so nothing proved depends on how the work is cut.
#pragma once
#include <vp_shim.h>
#include <ctime>
#include <nntl/math.h>
#include <nntl/common.h>
using namespace nntl; typedef std::int64_t ll;
#include <nntl/interface/_i_threads.h>
#include <nntl/interface/_i_imemmgr.h>
#include <nntl/interface/math/mathn.h>
static unsigned vp_sd=1; static inline ll vp_split(ll lo,ll hi){ vp_sd=vp_sd*1664525u+1013904223u; return lo+1+(ll)((vp_sd>>8)%(unsigned long long)(hi-lo-1)); }
struct seq_threads : public threads::_i_threads<float,numel_cnt_t> {
	typedef threads::_i_threads<float,numel_cnt_t> B; typedef typename B::range_t range_t; typedef typename B::par_range_t par_range_t; typedef typename B::reduce_data_t reduce_data_t;
	static thread_id_t workers_count()noexcept{ return 3; }
	thread_id_t cur_workers_count()const noexcept{ return 3; }
	template<class F> void run(F&& f,const range_t cnt,const thread_id_t useN=0,thread_id_t* used=nullptr)noexcept{
		if(cnt>=3 && (useN==0||useN>=3)){ const range_t a=vp_split(0,cnt-1), b=vp_split(a,cnt); if(used) *used=3;
			f(par_range_t(0,a,0)); f(par_range_t(a,b-a,1)); f(par_range_t(b,cnt-b,2));
		} else if(cnt>=2 && (useN==0||useN==2||useN>=3)){ const range_t a=vp_split(0,cnt); if(used) *used=2; f(par_range_t(0,a,0)); f(par_range_t(a,cnt-a,1)); }
		else { if(used) *used=1; f(par_range_t(0,cnt,0)); }
	}
	template<class F,class FRF> auto reduce(F&& f,FRF&& frf,const range_t cnt,const thread_id_t useN=0)noexcept->decltype(std::forward<FRF>(frf)(static_cast<const reduce_data_t*>(nullptr),range_t(0))){
		reduce_data_t d[3];
		if(cnt>=3 && (useN==0||useN>=3)){ const range_t a=vp_split(0,cnt-1), b=vp_split(a,cnt); d[0]=f(par_range_t(0,a,0)); d[1]=f(par_range_t(a,b-a,1)); d[2]=f(par_range_t(b,cnt-b,2)); return frf(d,range_t(3)); }
		else if(cnt>=2 && (useN==0||useN==2||useN>=3)){ const range_t a=vp_split(0,cnt); d[0]=f(par_range_t(0,a,0)); d[1]=f(par_range_t(a,cnt-a,1)); return frf(d,range_t(2)); }
		d[0]=f(par_range_t(0,cnt,0)); return frf(d,range_t(1));
	}
};
struct vp_mm : public imem::_i_imemmgr { void preinit(numel_cnt_t){} bool init(){return true;} void deinit(){} };
struct MN final : public math::_MathN<float,seq_threads,vp_mm,math::_impl::MATHN_THR<float>,MN> { typedef math::_MathN<float,seq_threads,vp_mm,math::_impl::MATHN_THR<float>,MN> BC; };
// the same class with its internal scratch vector placed on an explicit buffer of n elements
struct MNT final : public math::_MathN<float,seq_threads,vp_mm,math::_impl::MATHN_THR<float>,MNT> {
	typedef math::_MathN<float,seq_threads,vp_mm,math::_impl::MATHN_THR<float>,MNT> BC;
	struct rep{ float*b,*e,*c; };
	MNT(float*t,ll n){ static_assert(sizeof(rep)==sizeof(this->m_threadTempRawStorage),""); rep*v=reinterpret_cast<rep*>(&this->m_threadTempRawStorage); v->b=t; v->e=v->c=t+n; this->m_minTempStorageSize=n; }
	ll used()const{ return this->m_curStorElementsAllocated; }
	~MNT(){ rep*v=reinterpret_cast<rep*>(&this->m_threadTempRawStorage); v->b=v->e=v->c=nullptr; }
};
typedef math::s_elems_range ER; typedef math::s_rowcol_range RCR; typedef math::s_vec_range VR;
typedef math::smatrix<float> M; typedef math::smatrix_deform<float> MD;
#define RUN static int vp_main(); int main(){ return vp_main(); } static int vp_main()
