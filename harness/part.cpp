#include "vp_common.h"
#undef W
#include <nntl/interface/_i_threads.h>
#include <nntl/interface/threads/workers.h>
#define W extern "C" __attribute__((used))
typedef threads::Workers<float,numel_cnt_t> WK;
// the pool's own splitting function, run on a pool object without threads whose table of ranges is the given memory
struct WKA : WK { typedef typename WK::par_range_t PR; using WK::m_ranges; using WK::m_workersCnt; using WK::m_workingCnt; using WK::partition_count_to_workers; };
static_assert(sizeof(WKA::PR)==24,"");
static inline WKA* vp_raw(char* b,ll*R,int nw){ WKA*p=(WKA*)b; *const_cast<thread_id_t*>(&p->m_workersCnt)=nw; WKA::PR** v=(WKA::PR**)&p->m_ranges; v[0]=(WKA::PR*)R; v[1]=v[0]+nw; v[2]=v[1]; return p; }
W ll w_part(ll*R,int nw,ll cnt,int useN,ll*o){ alignas(16) char b[sizeof(WKA)]; WKA*p=vp_raw(b,R,nw); ll r=p->partition_count_to_workers(cnt,useN); o[0]=(ll)p->m_workingCnt; return r; }
W ll w_range(ll*R,ll c,ll o,int t,ll*out){ WKA::PR a(c), b(o,c,t); out[0]=a.cnt(); out[1]=a.offset(); out[2]=a.end(); out[3]=a.tid(); out[4]=b.cnt(); out[5]=b.offset(); out[6]=b.end(); out[7]=b.tid(); return b.offset(R[0]).cnt(R[1]).end(); }
