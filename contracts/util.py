"""C20: confusion matrix"""
from dsl import *
use_tu('util')
P='C20'; CM='ConfusionMtx::'
CD=lambda r:r.choice([0,0,1,2,r.randint(0,50),r.randint(0,1000),r.randint(0,60000)])
def cnts(c,nm='v',const=True,hi=1<<21):
    v=c.buf(nm,4,'i32',const=const,dom=CD); 
    c.forall(v,lambda q:land(q.old>=0,q.old<=hi)); return v
@unit(P,'w_cm_update',[CM+'update'],views=('1d',))
def _(c):
    v=cnts(c,const=False,hi=(1<<31)-2); g=c.bool('g'); p=c.bool('p'); c.args(v,g,p); c.post(v,lambda q:q.old+ite(q.i==toi(p)*2+toi(g),1,0)); c.call()
@unit(P,'w_cm_counts',[CM+x for x in('TP','FP','TN','FN','TotalPosCnt','TotalNegCnt','DataPosCnt','DataNegCnt','AllCnt')],views=('1d',))
def _(c):
    v=cnts(c,hi=1<<29); o=c.buf('o',9,'i64'); tn,fn,fp,tp=[v(i) for i in range(4)]; c.args(v,o); c.outs(o,[tp,fp,tn,fn,tp+fp,tn+fn,tp+fn,tn+fp,tp+fp+tn+fn]); c.require(tp+fp+tn+fn<(1<<31)); c.call()
MET=dict(Sensitivity=lambda tn,fn,fp,tp:(tp,tp+fn),Specificity=lambda tn,fn,fp,tp:(tn,tn+fp),Precision=lambda tn,fn,fp,tp:(tp,tp+fp),NPV=lambda tn,fn,fp,tp:(tn,tn+fn),
 Accuracy=lambda tn,fn,fp,tp:(tp+tn,tp+tn+fp+fn),Jaccard=lambda tn,fn,fp,tp:(tp,tp+fp+fn),F1Score=lambda tn,fn,fp,tp:(2*tp,2*tp+fp+fn))
MET['Recall']=MET['TPR']=MET['Sensitivity']; MET['TNR']=MET['Specificity']; MET['PPV']=MET['Precision']
q=lambda ab:rdiv(tor(ab[0]),tor(ab[1]))
for F,f in sorted(MET.items()):
    @unit(P,'w_cm_'+F,[CM+F],views=('1d',))
    def _(c,f=f):
        v=cnts(c); n,d=f(*[v(i) for i in range(4)]); c.require(d>0); c.args(v); c.returns(lambda:q((n,d))); c.call()
for F,a,b in (('Informedness','TPR','TNR'),('Markedness','PPV','NPV')):
    @unit(P,'w_cm_'+F,[CM+F],views=('1d',))
    def _(c,a=a,b=b):
        v=cnts(c); x=MET[a](*[v(i) for i in range(4)]); y=MET[b](*[v(i) for i in range(4)]); c.require(x[1]>0); c.require(y[1]>0); c.args(v); c.returns(lambda:q(x)+q(y)-1); c.call()
@unit(P,'w_cm_MCC',[CM+'MCC'],views=('1d',))
def _(c):
    v=cnts(c); tn,fn,fp,tp=[tor(v(i)) for i in range(4)]; den=(tp+fp)*(tp+fn)*(tn+fp)*(tn+fn); c.args(v); c.returns(lambda:ite(den==0,0.0,rdiv(tp*tn-fp*fn,sqrt(den)))); c.call()
@unit(P,'w_cm_FBetaScore',[CM+'FBetaScore'],views=('1d',))
def _(c):
    v=cnts(c); b=c.real('b',vals=[.5,2.0,1.0]); tn,fn,fp,tp=[tor(v(i)) for i in range(4)]; den=(1+b*b)*tp+fp+b*b*fn; c.require(den>0); c.args(v,b); c.returns(lambda:rdiv((1+b*b)*tp,den)); c.call()
@unit(P,'w_cm_clear',[CM+'clear'],views=('1d',))
def _(c): v=c.buf('v',4,'i32'); c.args(v); c.post(v,lambda q:0); c.call()
@unit(P,'w_cm_eq',[CM+'operator=='],views=('1d',))
def _(c):
    a=cnts(c,'a'); b=cnts(c,'b'); c.args(a,b); c.returns(lambda:land(*[a(i)==b(i) for i in range(4)])); c.call()
@unit(P,'w_cm_asg',[CM+'operator='],views=('1d',))
def _(c): a=cnts(c,'a',False); b=cnts(c,'b'); c.args(a,b); c.post(a,lambda q:b(q.i)); c.call()
@unit(P,'w_cm_add',[CM+'operator+='],views=('1d',))
def _(c): a=cnts(c,'a',False); b=cnts(c,'b'); c.args(a,b); c.post(a,lambda q:q.old+b(q.i)); c.call()
@unit(P,'w_cm_reduce',[CM+'reduce'],views=('1d',))
def _(c):
    a=c.buf('a',4,'i32'); n=c.int('n',1,1<<9,small=(1,6)); b=c.buf('b',4*n,'i32',const=True,dom=CD); c.forall(b,lambda q:land(q.old>=0,q.old<=(1<<21)))
    S=[c.fold('S%d'%r,0,lambda:0,lambda t,acc,r=r:acc+b(4*t+r),sort='int',bound=lambda t,v:land(v>=0,v<=t*(1<<21))) for r in range(4)]
    c.args(a,b,n); c.post(a,lambda q:ite(q.i==0,S[0](n),ite(q.i==1,S[1](n),ite(q.i==2,S[2](n),S[3](n))))); c.call()
