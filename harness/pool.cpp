// VP_EXECUTED_ONLY
#include "vp_common.h"
#undef W
#include <nntl/interface/_i_threads.h>
#include <nntl/interface/threads/workers.h>
#include <nntl/interface/threads/bgworkers.h>
#include <unistd.h>
#define W extern "C" __attribute__((used))
// The real pools with real threads. The number of hardware threads is a parameter of each history.
extern "C" long vp_live();
static unsigned g_hw=4;
#ifdef VP_NATIVE
unsigned std::thread::hardware_concurrency() noexcept { return g_hw; }
#endif
// Delays at the synchronisation points, so that rare interleavings become frequent
static std::atomic<unsigned> g_noise{1}; static std::atomic<int> g_level{0};
static void vp_noise(){ int l=g_level; if(!l) return; unsigned x=g_noise.fetch_add(2654435769u); x^=x>>15; x*=2246822519u; x^=x>>13; unsigned k=x%16; if(k<8) return; if(k<14){ std::this_thread::yield(); return; } ::usleep((x>>8)%(unsigned)(l*60)+1); }
struct nmutex : std::mutex { void lock(){ vp_noise(); std::mutex::lock(); } void unlock(){ std::mutex::unlock(); vp_noise(); } };
struct nsmutex : std::shared_mutex { typedef std::shared_mutex B; void lock(){ vp_noise(); B::lock(); } void unlock(){ B::unlock(); vp_noise(); } void lock_shared(){ vp_noise(); B::lock_shared(); } void unlock_shared(){ B::unlock_shared(); vp_noise(); } };
struct ncond : std::condition_variable_any { typedef std::condition_variable_any B;
	template<class L,class P> void wait(L& l,P p){ while(!p()){ vp_noise(); B::wait(l); } }
	template<class L,class R,class Q,class P> bool wait_for(L& l,const std::chrono::duration<R,Q>& d,P p){ vp_noise(); return B::wait_for(l,d,p); }
	void notify_one()noexcept{ vp_noise(); B::notify_one(); vp_noise(); } void notify_all()noexcept{ vp_noise(); B::notify_all(); vp_noise(); } };
struct NoisyS : threads::_impl::_sync_base { typedef nmutex mutex_t; typedef nsmutex shared_mutex_t; typedef ncond cond_var_t; typedef ncond cond_var_any_t; typedef nmutex mutex_comp_t; typedef ncond cond_var_comp_t; };
struct NoisySh : NoisyS { typedef nsmutex mutex_t; typedef nsmutex mutex_comp_t; };
typedef threads::Workers<float,numel_cnt_t> WK0; typedef threads::Workers<float,numel_cnt_t,NoisyS> WK1; typedef threads::Workers<float,numel_cnt_t,NoisySh> WK2;
// One job of a history. kind: 0 run with a temporary function, 1 run with a named one, 2.. reduce (2 i64 sum, 3 float sum, 4 number of results, 5 largest double, 6 i32)
// h: how often each index was given out. Result per job (6 numbers): parts, distinct thread ids, thread ids out of range or seen by the wrong thread,
// indices given out not exactly once, threads reported, value
template<class P> static void vp_job(P& p,int kind,ll cnt,int useN,ll* o){
	enum{ MX=64 }; std::vector<std::atomic<int>> h(cnt>0?cnt:1); for(auto&x:h) x=0; std::atomic<int> parts{0}, bad{0}; std::atomic<ll> seen[MX]; for(auto&x:seen) x=0; const auto me=std::this_thread::get_id();
	auto part=[&](const typename P::par_range_t& r){ int t=(int)r.tid(); if(t<0||t>=(int)g_hw) ++bad; else ++seen[t]; if((t==0)!=(std::this_thread::get_id()==me)) ++bad; if(r.end()!=r.offset()+r.cnt()) ++bad; vp_noise(); ll s=0; for(ll i=r.offset();i<r.end();++i){ if(i<0||i>=cnt){ ++bad; continue; } ++h[i]; s+=(i*7)%5+1; } vp_noise(); ++parts; return s; };
	thread_id_t used=-7; o[5]=0;
	typedef typename P::reduce_data_t RD;
	switch(kind){
	case 0: p.run([&](const typename P::par_range_t& r){ part(r); },cnt,useN,&used); break;
	case 1: { auto f=[&](const typename P::par_range_t& r){ part(r); }; p.run(f,cnt,useN,&used); break; }
#define RED(T,EX,FIN) { typedef typename P::template converter_reduce_data_t<T> C; T v=p.reduce([&](const typename P::par_range_t& r)->RD{ ll s=part(r); (void)s; return C::to(EX); },[](const RD* d,const numel_cnt_t n)->T{ T a=C::from(d[0]); for(numel_cnt_t i=1;i<n;++i){ T b=C::from(d[i]); a=FIN; } return a; },cnt,useN); o[5]=(ll)v; used=-1; } break;
	case 2: RED(ll,s,a+b) case 3: RED(float,(float)s,a+b) case 4: RED(ll,(ll)1,a+b) case 5: RED(double,(double)r.end(),(a>b?a:b)) default: RED(int,(int)s,a+b)
#undef RED
	}
	o[0]=parts; int d=0; for(int i=0;i<MX;++i){ d+=seen[i]>0; if(seen[i]>1) ++bad; } o[1]=d; o[2]=bad; ll w=0; for(ll i=0;i<cnt;++i) w+=h[i]!=1; o[3]=w; o[4]=used; }
template<class P> static void vp_hist(int hw,int n,const ll* jobs,int level,ll* o){ g_hw=hw; g_level=level; { P p; o[0]=P::workers_count(); o[1]=p.cur_workers_count(); thread_id_t k=-1; auto it=p.get_worker_threads(k); int j=0; for(int i=0;i<k;++i,++it) j+=it->joinable(); o[2]=k*100+j; o+=3; for(int i=0;i<n;++i,o+=6) vp_job(p,(int)(jobs[3*i]%7),jobs[3*i+1]%34,(int)(jobs[3*i+2]%10),o); } }
// 0: the library's own synchronisation, 1 and 2: an exclusive / a shared mutex with random delays
W ll w_pool_hist(int sync,int hw,int n,const ll* jobs,int level,ll* o){ if(sync==0) vp_hist<WK0>(hw,n,jobs,level,o); else if(sync==1) vp_hist<WK1>(hw,n,jobs,level,o); else vp_hist<WK2>(hw,n,jobs,level,o); return vp_live(); }
// pools that are created and destroyed one after another: each must end
template<class P> static void vp_life(int hw,int n,int level){ g_hw=hw; g_level=level; for(int i=0;i<n;++i){ P p; if(i&1) p.run([](const typename P::par_range_t&){},8); } }
W ll w_pool_life(int sync,int hw,int n,int level){ if(sync==0) vp_life<WK0>(hw,n,level); else if(sync==1) vp_life<WK1>(hw,n,level); else vp_life<WK2>(hw,n,level); return vp_live(); }
W bool w_pool_den(int sync,int hw,ll* o){ g_hw=hw; g_level=0; WK0 p; (void)sync; *o=p.cur_workers_count(); return p.denormalsOnInAnyThread(); }
// background workers: exec runs the function once on every worker; tasks are called until they return false; nothing is called after delete_tasks or after the destructor
typedef threads::BgWorkers<> BG0; typedef threads::BgWorkers<NoisyS> BG1;
template<class P> static void vp_bg(int nt,int n,const ll* ops,int level,ll* o){ g_level=level; std::atomic<ll> calls[4]; std::atomic<ll> left[4]; for(int i=0;i<4;++i) calls[i]=left[i]=0; std::atomic<int> bad{0}; std::atomic<ll> act{0};
	auto task=[&](int k){ return [&,k](const thread_id_t t)->bool{ if(t<0||t>=nt) ++bad; ++act; ++calls[k]; bool more=left[k].fetch_sub(1)>1; vp_noise(); --act; return more; }; };
	auto t0=task(0); auto t1=task(1); auto t2=task(2);
	{ P p(nt,threads::PriorityClass::threads_priority_no_change); p.set_task_wait_timeout(std::chrono::milliseconds(1)); o[0]=p.workers_count(); thread_id_t c=-1; p.get_worker_threads(c); o[1]=c; o+=2; int added=0;
		for(int i=0;i<n;++i,o+=3){ const ll A=ops[2*i+1]%4; ll op=ops[2*i]%3; if(op==1 && added==3) op=0; switch(op){
			case 0: { std::atomic<ll> m{0}; std::atomic<int> e{0}; const auto me=std::this_thread::get_id(); auto f=[&](const thread_id_t t){ if(std::this_thread::get_id()==me) ++bad; if(t<0||t>=nt) ++bad; else { ll b=1LL<<t; if(m.fetch_or(b)&b) ++bad; } vp_noise(); ++e; }; p.exec(f); o[0]=e; o[1]=m; o[2]=(ll)p.tasks_count(); break; }
			case 1: { int k=added%3; left[k]=A; ll c0=calls[k]; if(k==0) p.add_task(t0,3-k); else if(k==1) p.add_task(t1,3-k); else p.add_task(t2,3-k); ++added; ll w=0; while(calls[k]-c0<A && w<40000){ ::usleep(500); ++w; } o[0]=calls[k]-c0>=A; o[1]=(ll)p.tasks_count(); o[2]=w<40000; break; }
			default: { p.delete_tasks(); ll a=act; ll c0=calls[0]+calls[1]+calls[2]; ::usleep((unsigned)A*1000); o[0]=a; o[1]=calls[0]+calls[1]+calls[2]-c0; o[2]=(ll)p.tasks_count(); added=0; } } } }
	ll a=act, c0=calls[0]+calls[1]+calls[2]; ::usleep(500); o[0]=bad; o[1]=a+calls[0]+calls[1]+calls[2]-c0; }
W ll w_bg(int sync,int nt,int n,const ll* ops,int level,ll* o){ if(sync==0) vp_bg<BG0>(nt,n,ops,level,o); else vp_bg<BG1>(nt,n,ops,level,o); return vp_live(); }
