#include "vp_mathn.h"
#undef W
#include <nntl/train_data/inmem_train_data.h>
#include <nntl/utils/dataHolder.h>
#define W extern "C" __attribute__((used))
// training data suppliers. Stand-ins: a counting linear congruential generator as iRng, the common-data accessors they call
struct RNG{ unsigned long long s; int calls; int operator()(int n){ ++calls; s=s*6364136223846793005ull+1442695040888963407ull; return int((s>>33)%(unsigned)n);} };
struct CD{ MN& m; RNG& r; seq_threads& t; int bs; MN& iMath()const{return m;} MN& get_iMath()const{return m;} RNG& iRng()const{return r;} seq_threads& get_iThreads()const{return t;} int input_batch_size()const{return bs;} };
typedef inmem_train_data<float> TD; typedef math::smatrix<float> Mx; typedef math::smatrix_deform<float> MD;
static inline void vp_ext(MD&m,float*p,int n,int k,bool bias,bool row){ if(row) m.useExternalStorage(p,k+bias,n,bias,false,true); else m.useExternalStorage(p,n,k+bias,bias,false,false); }
struct Sets{ TD td; MN m; RNG r; seq_threads t; Sets(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry):r{7,0}{
	vp_ext(td.train_x_mutable(),x,n,k,true,rx); vp_ext(td.train_y_mutable(),y,n,l,false,ry); vp_ext(td.test_x_mutable(),x2,n2,k,true,rx); vp_ext(td.test_y_mutable(),y2,n2,l,false,ry); } };
static inline void vp_out(const Mx&a,float*o,int*s){ s[0]=a.rows(); s[1]=a.cols(); s[2]=a.emulatesBiases(); s[3]=a.bBatchInRow(); const float*p=a.data(); const ll n=a.numel(); for(ll i=0;i<n;++i) o[i]=p[i]; }
// sizes negotiated by initialisation: o = {error code, batch size, initialised?, size reported}
W void w_td_init4inference(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry,int mfs,int*o){ Sets s(x,y,n,x2,y2,n2,k,l,rx,ry); int a=mfs; o[0]=(int)s.td.init4inference(s.m,a); o[1]=a; int q=0; o[2]=s.td.is_initialized4inference(q); o[3]=q; }
W void w_td_init4train(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry,int mfs,int mbs,int*o){ Sets s(x,y,n,x2,y2,n2,k,l,rx,ry); int a=mfs,b=mbs; bool mb=false; o[0]=(int)s.td.init4train(s.m,a,b,&mb); o[1]=a; o[2]=b; o[3]=mb; int q=0,t=0; bool u=false; o[4]=s.td.is_initialized4train(q,t,u); o[5]=q; o[6]=t; }
// one subset while walking over a set
W ll w_td_walk(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry,int mfs,int bs,int ds,ll idx,float*ox,float*oy,int*o){ Sets s(x,y,n,x2,y2,n2,k,l,rx,ry); CD cd{s.m,s.r,s.t,bs}; int a=mfs; s.td.init4inference(s.m,a); ll nb; if(ds) nb=s.td.walk_over_set(1,cd,bs); else nb=s.td.walk_over_set(0,cd,bs); s.td.next_subset(idx,cd); vp_out(s.td.batchX(),ox,o); vp_out(s.td.batchY(),oy,o+4); return nb; }
// a history of nops operations ops[2*i],ops[2*i+1]: type (0/1 walk train/test set, 2 training epoch; +4 without X, +8 without Y) and batch size.
// An operation is performed when the data set says it is initialised for that batch size, else it is logged as -1.
// log of operation i at lg+i*ls: {number of batches, samples, then per sample: x values and bias, y values}
static inline float*vp_rows(const Mx*a,const Mx*b,float*q,int k,int l){ const int n=a?a->batch_size():b->batch_size(); for(int r=0;r<n;++r){ for(int j=0;j<=k;++j) *q++=a?(a->bBatchInRow()?a->get(j,r):a->get(r,j)):0; for(int j=0;j<l;++j) *q++=b?(b->bBatchInRow()?b->get(j,r):b->get(r,j)):0; } return q; }
static inline int vp_hist(Sets&s,int k,int l,int nops,const int*ops,float*lg,int ls){ for(int i=0;i<nops;++i){ const int t=ops[2*i]&3, ex=ops[2*i]>>2, bs=ops[2*i+1]; CD cd{s.m,s.r,s.t,bs}; float*q=lg+i*ls+2; int rows=0; ll nb;
	int fp=t<2?bs:0, tb=bs; bool mb=false; lg[i*ls]=-1; lg[i*ls+1]=0; if(t<2?!s.td.is_initialized4inference(fp):!s.td.is_initialized4train(fp,tb,mb)){ if(fp!=(t<2?bs:0)||tb!=bs) return 6; continue; }
	if(t<2){ nb=s.td.walk_over_set(t,cd,bs,ex); for(ll b=0;b<nb;++b){ s.td.next_subset(b,cd); const Mx*X=ex==1?nullptr:&s.td.batchX(),*Y=ex==2?nullptr:&s.td.batchY(); rows+=X?X->batch_size():Y->batch_size(); if(2+rows*(k+1+l)>ls) return 1; q=vp_rows(X,Y,q,k,l); } }
	else { nb=s.td.on_next_epoch(i,cd,bs); for(ll b=0;b<nb;++b){ s.td.on_next_batch(b,cd); rows+=s.td.batchX().batch_size(); if(s.td.batchX().batch_size()!=bs||s.td.batchY().batch_size()!=bs) return 2; if(2+rows*(k+1+l)>ls) return 1; q=vp_rows(&s.td.batchX(),&s.td.batchY(),q,k,l); } }
	lg[i*ls]=(float)nb; lg[i*ls+1]=(float)rows; } return 0; }
W int w_td_history(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry,int mfs,int mbs,int nops,const int*ops,float*lg,int ls){ Sets s(x,y,n,x2,y2,n2,k,l,rx,ry); int a=mfs,b=mbs; bool mb=false; if((int)s.td.init4train(s.m,a,b,&mb)!=0) return 3; return vp_hist(s,k,l,nops,ops,lg,ls); }
W int w_td_history_inference(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int l,bool rx,bool ry,int mfs,int mbs,int nops,const int*ops,float*lg,int ls){ Sets s(x,y,n,x2,y2,n2,k,l,rx,ry); int a=mfs; if((int)s.td.init4inference(s.m,a)!=0) return 3; return vp_hist(s,k,l,nops,ops,lg,ls); }
// dataHolder: nb mini-batches with the given sizes; per batch log {rows, full batch?, rng calls before the batch, alias?} and per sample its data-row index, x with bias, y
W int w_dh(const float*x,const float*y,int n,int k,int l,bool hasY,int mx,int nb,const int*sz,float*lg,int ls){ Mx X(const_cast<float*>(x),n,k+1,true),Y(const_cast<float*>(y),n,l,false); MN m; RNG r{11,0}; utils::dataHolder<float> d; d.init(mx,X,hasY?&Y:nullptr); if(d.samplesCount()!=n) return 4;
	for(int i=0;i<nb;++i){ if(sz[i]) d.prepareToBatchSize(sz[i]); const int c0=r.calls; d.nextBatch(r,m); float*q=lg+i*ls; const int R=d.batchX().rows(); q[0]=(float)R; q[1]=d.isFullBatch(); q[2]=(float)(r.calls-c0); q[3]=d.isBatchAliasToData(); if(R!=d.curBatchSize()) return 5; if(4+R*(k+2+l)>ls) return 1; if(hasY&&d.batchY().rows()!=R) return 2; q+=4;
		for(int s=0;s<R;++s){ *q++=d.isFullBatch()?(float)s:(float)d.curBatchIdxs()[s]; for(int j=0;j<=k;++j) *q++=d.batchX().get(s,j); for(int j=0;j<l;++j) *q++=hasY?d.batchY().get(s,j):0; } } return 0; }
