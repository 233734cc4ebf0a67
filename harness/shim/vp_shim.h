// Compatibility shim: names that the MSVC runtime provides. No nntl behaviour is defined here.
#pragma once
#include <cerrno>
#include <cstdio>
#include <cstddef>
#include <thread>
extern "C" void* vp_amalloc(std::size_t sz, std::size_t al);
extern "C" void vp_afree(void* p);
#define _aligned_malloc vp_amalloc
#define _aligned_free vp_afree
#define _DN_FLUSH 0x01000000
#define _DN_SAVE 0
#define _MCW_DN 0x03000000
inline int _controlfp_s(unsigned int* p, unsigned, unsigned) { if(p)*p=0; return 0; }
constexpr unsigned long long vp_emulu(unsigned a, unsigned b){ return (unsigned long long)a*b; }
constexpr long long vp_emul(int a, int b){ return (long long)a*b; }
#define __emulu vp_emulu
#define __emul vp_emul
#define STRING2(x) #x
#define STRING(x) STRING2(x)
#define _USE_MATH_DEFINES
#define NOMINMAX
#define NNTL_FP_ROUND_TO_ZERO 0
namespace nntl{ namespace threads{ namespace _impl { struct win_srwlock; struct win_condition_var; } } }
#define printf_s printf
#ifdef __cplusplus
template<size_t N,class... A> inline int sprintf_s(char(&b)[N],const char*f,A... a){ return snprintf(b,N,f,a...); }
template<class... A> inline int sprintf_s(char*b,size_t n,const char*f,A... a){ return snprintf(b,n,f,a...); }
#endif
#define strcpy_s(d,n,s) strncpy(d,s,n)
extern "C" void vp_print();
#define STDCOUT(args) vp_print()
#define STDCOUTL(args) vp_print()
