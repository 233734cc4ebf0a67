// Native runtime for replay: every heap block lives on its own pages, flush against a guard page, so that an
// out-of-bounds access, a use after free, a double free or a foreign free stops the process.
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <atomic>
namespace {
std::atomic_flag g_l=ATOMIC_FLAG_INIT;   // units with real threads allocate from several threads
struct Lk { Lk(){ while(g_l.test_and_set(std::memory_order_acquire)){} } ~Lk(){ g_l.clear(std::memory_order_release); } };
struct Blk { char* p; char* base; size_t len; int live; };
Blk g_b[65536]; int g_n=0; long g_live=0; long g_allocs=0; long g_fail_at=-1; long g_bad=0;
void* get(size_t sz,size_t al){
	Lk lk;
	long id=g_allocs++;
	if(g_fail_at>=0 && id>=g_fail_at) return nullptr;
	if(sz>(size_t(1)<<32)) return nullptr;
	if(g_n>=65536) abort();
	size_t pg=4096; size_t body=(sz+pg-1)/pg*pg; if(body==0) body=pg; size_t tot=body+2*pg;
	char* b=(char*)mmap(nullptr,tot,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	if(b==(char*)MAP_FAILED) return nullptr;
	mprotect(b,pg,PROT_NONE); mprotect(b+pg+body,pg,PROT_NONE);
	memset(b+pg,0xA5,body);
	char* p=b+pg+((body-sz)/(al<16?16:al))*(al<16?16:al); if(al<=4) p=b+pg+(body-sz);
	g_b[g_n++]=Blk{p,b,tot,1}; g_live++;
	return p;
}
void put(void* p){
	if(!p) return;
	Lk lk;
	for(int i=g_n-1;i>=0;--i) if(g_b[i].p==p && g_b[i].live){ g_b[i].live=0; g_live--; mprotect(g_b[i].base,g_b[i].len,PROT_NONE); return; }
	g_bad++; abort();
}
}
extern "C" {
void* vp_amalloc(size_t sz,size_t al){ return get(sz,4); }
void vp_afree(void* p){ put(p); }
void vp_print(){}
static unsigned long g_s=88172645463325252UL;
long vp_split(long lo,long hi){ g_s^=g_s<<13; g_s^=g_s>>7; g_s^=g_s<<17; return lo+1+(long)((g_s>>11)%(unsigned long)(hi-lo-1)); }
long vp_live(){ return g_live; }
long vp_allocs(){ return g_allocs; }
void vp_reset(long fail_at){ for(int i=0;i<g_n;++i) munmap(g_b[i].base,g_b[i].len); g_n=0; g_live=0; g_allocs=0; g_fail_at=fail_at; g_bad=0; }
}
void* operator new(size_t s){ void* p=get(s,16); if(!p) abort(); return p; }
void* operator new[](size_t s){ void* p=get(s,16); if(!p) abort(); return p; }
void* operator new(size_t s,const std::nothrow_t&)noexcept{ return get(s,16); }
void* operator new[](size_t s,const std::nothrow_t&)noexcept{ return get(s,16); }
void operator delete(void* p)noexcept{ put(p); }
void operator delete[](void* p)noexcept{ put(p); }
void operator delete(void* p,size_t)noexcept{ put(p); }
void operator delete[](void* p,size_t)noexcept{ put(p); }
// std::type_info::operator== (an inline of libstdc++ that these compiler options leave undefined)
extern "C" __attribute__((weak)) bool vp_ti_eq(const void* a,const void* b) asm("_ZNKSt9type_infoeqERKS_");
extern "C" __attribute__((weak)) bool vp_ti_eq(const void* a,const void* b){ const char*x=((const char*const*)a)[1],*y=((const char*const*)b)[1]; return x==y || (*x!='*' && strcmp(x,y)==0); }
