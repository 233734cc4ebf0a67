#include "vp_mathn.h"
#include <nntl/utils/confusion_mtx.h>
// confusion matrix: counters as an array {tn,fn,fp,tp} in the order of the accessors
typedef utils::ConfusionMtx<float> CM;
static inline void cmset(CM&m,const int*v){ m.clear(); m.trueNegCnt()=v[0]; m.falseNegCnt()=v[1]; m.falsePosCnt()=v[2]; m.truePosCnt()=v[3]; }
static inline void cmget(const CM&m,int*v){ v[0]=m.trueNegCnt(); v[1]=m.falseNegCnt(); v[2]=m.falsePosCnt(); v[3]=m.truePosCnt(); }
W void w_cm_update(int*v,bool g,bool p){ CM m; cmset(m,v); if(g){ if(p) m.update(true,true); else m.update(true,false); } else { if(p) m.update(false,true); else m.update(false,false); } cmget(m,v); }
W void w_cm_counts(const int*v,ll*o){ CM m; cmset(m,v); const CM&k=m; o[0]=k.TP(); o[1]=k.FP(); o[2]=k.TN(); o[3]=k.FN(); o[4]=k.TotalPosCnt(); o[5]=k.TotalNegCnt(); o[6]=k.DataPosCnt(); o[7]=k.DataNegCnt(); o[8]=k.AllCnt(); }
//@for F in Sensitivity Recall TPR Specificity TNR Precision PPV NPV Accuracy Informedness Markedness MCC Jaccard F1Score: W float w_cm_$F(const int*v){ CM m; cmset(m,v); return m.$F(); }
W float w_cm_FBetaScore(const int*v,float b){ CM m; cmset(m,v); return m.FBetaScore(b); }
W void w_cm_clear(int*v){ CM m; m.clear(); cmget(m,v); }
W bool w_cm_eq(const int*a,const int*b){ CM x,y; cmset(x,a); cmset(y,b); return x==y; }
W void w_cm_asg(int*a,const int*b){ CM x,y; cmset(x,a); cmset(y,b); x=y; cmget(x,a); }
W void w_cm_add(int*a,const int*b){ CM x,y; cmset(x,a); cmset(y,b); x+=y; cmget(x,a); }
W void w_cm_reduce(int*a,const CM*p,int n){ CM x; cmset(x,a); x.reduce(p,n); cmget(x,a); }
