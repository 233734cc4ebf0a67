#include "vp_mathn.h"
#undef W
#include <nntl/train_data/inmem_train_data.h>
#define W extern "C" __attribute__((used))
// data normalisation
struct RNG{ int operator()(int){ return 0;} };
struct CD{ MN& m; RNG& r; seq_threads& t; int bs; MN& iMath()const{return m;} MN& get_iMath()const{return m;} RNG& iRng()const{return r;} seq_threads& get_iThreads()const{return t;} int input_batch_size()const{return bs;} };
typedef inmem_train_data<float> TD; namespace mn=utils::mtx2Normal; typedef mn::ScaleCentralData<float> SF; typedef mn::ScaleCentralData<double> SD; typedef mn::upd_mtx_scale_central UP;
// bookkeeping of the transformation x -> sc*x+ofs (parts not marked in use are neutral)
#define FIN o[0]=d.sc; o[1]=d.ofs; f[0]=d.bScale; f[1]=d.bOffset
W void w_sc_upd_scale(float sc,float of,bool bs,bool bo,float v,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_scale(v); FIN; }
W void w_sc_upd_ofs(float sc,float of,bool bs,bool bo,float v,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_ofs(v); FIN; }
W void w_sc_upd_both(float sc,float of,bool bs,bool bo,float v,float w,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_both(v,w); FIN; }
W void w_sc_upd_typed(float sc,float of,bool bs,bool bo,float v,float w,bool us,bool uo,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_all_typed(v,w,us,uo); FIN; }
W void w_sc_upd_typed2(float sc,float of,bool bs,bool bo,double v,double w,bool us,bool uo,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_all_typed(v,w,us,uo); FIN; }
W void w_sc_upd_typed3(float sc,float of,bool bs,bool bo,double v,double w,bool us,bool uo,float*o,int*f){ SF d(sc,of,bs,bo); d._upd_all_typed(SD(v,w,us,uo)); FIN; }
W void w_sc_as_type(double sc,double of,bool bs,bool bo,float*o,int*f){ const SD e(sc,of,bs,bo); const SF d=e.as_type<float>(); FIN; }
W void w_sc_as_type_same(float sc,float of,bool bs,bool bo,float*o,int*f){ const SF e(sc,of,bs,bo); const SF&d=e.as_type<float>(); FIN; }
W void w_sc_reset(float sc,float of,bool bs,bool bo,float*o,int*f){ SF d(sc,of,bs,bo); d.reset(); FIN; }
W void w_sc_init(float*o,int*f){ SF d; FIN; }
// application to a matrix
W void w_upd_whole(float*p,int r,int c,bool bias,bool bir,float sc,float of,bool bs,bool bo){ M m(p,bir?r+bias:r,bir?c:c+bias,bias,false,bir); MN iM; UP::whole(iM,m,SF(sc,of,bs,bo)); }
W void w_upd_whole_d(float*p,int r,int c,bool bias,bool bir,double sc,double of,bool bs,bool bo){ M m(p,bir?r+bias:r,bir?c:c+bias,bias,false,bir); MN iM; UP::whole(iM,m,SD(sc,of,bs,bo)); }
// the same with a bias row (r counts it)
W void w_upd_row(float*p,int r,int c,float sc,float of,bool bs,bool bo){ M m(p,r,c,true,false,true); MN iM; UP::whole(iM,m,SF(sc,of,bs,bo)); }
W void w_upd_row_d(float*p,int r,int c,double sc,double of,bool bs,bool bo){ M m(p,r,c,true,false,true); MN iM; UP::whole(iM,m,SD(sc,of,bs,bo)); }
struct UPs:public UP{ using UP::batchwise_st; };
template<typename T> static inline std::vector<mn::ScaleCentralData<T>> vp_vec(const T*s,const T*o,const bool*bs,const bool*bo,int c){ std::vector<mn::ScaleCentralData<T>> v(c); for(int i=0;i<c;++i) v[i]=mn::ScaleCentralData<T>(s[i],o[i],bs[i],bo[i]); return v; }
W void w_upd_batchwise(float*p,int r,int c,bool bias,const float*s,const float*o,const bool*bs,const bool*bo){ M m(p,r,c+bias,bias); MN iM; UP::batchwise(iM,m,vp_vec(s,o,bs,bo,c)); }
W void w_upd_batchwise_st(float*p,int r,int c,bool bias,const double*s,const double*o,const bool*bs,const bool*bo,int a,int b){ M m(p,r,c+bias,bias); MN iM; UPs::batchwise_st(iM,m,VR(a,b),vp_vec(s,o,bs,bo,c)); }
// normalisation of the data sets of an initialised training data object
template<typename ST> static inline bool vp_norm(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int mfs,int bs,bool cw,bool bS,bool bC,float tS,float tC,float eS,float eC){ TD td; MN m; RNG r; seq_threads t; td.train_x_mutable().useExternalStorage(x,n,k+1,true); td.train_y_mutable().useExternalStorage(y,n,1); td.test_x_mutable().useExternalStorage(x2,n2,k+1,true); td.test_y_mutable().useExternalStorage(y2,n2,1);
	int a=mfs; if((int)td.init4inference(m,a)!=0) return false; CD cd{m,r,t,bs>0?bs:a}; TDNormSettings<float,ST> s; s.batchSize=bs; s.bColumnwise=cw; s.bScaleNormalize=bS; s.bCentralNormalize=bC; s.targetScale=tS; s.targetCentral=tC; s.ScaleTolerance=eS; s.CentralTolerance=eC; return td.template normalize_data<ST>(cd,s); }
W bool w_normalize(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int mfs,int bs,bool cw,bool bS,bool bC,float tS,float tC,float eS,float eC){ return vp_norm<float>(x,y,n,x2,y2,n2,k,mfs,bs,cw,bS,bC,tS,tC,eS,eC); }
W bool w_normalize_d(float*x,float*y,int n,float*x2,float*y2,int n2,int k,int mfs,int bs,bool cw,bool bS,bool bC,float tS,float tC,float eS,float eC){ return vp_norm<double>(x,y,n,x2,y2,n2,k,mfs,bs,cw,bS,bC,tS,tC,eS,eC); }
