from dsl import *
use_tu('part')
# three callers' cases: the requested number of threads is used, all threads are used, fewer items than threads
for tag in ('few','all','asked'):
    @unit('C26','w_part',['Workers::partition_count_to_workers'],views=('2d',),leak_ok=True,tag=tag)
    def _(c,tag=tag):
        nw=c.int('nw',0,1<<20,small=(0,9)); cnt=c.int('cnt',2,1<<60,small=(2,40),bits=64); 
        if tag=='asked': w1=c.int('w',1,1<<20,small=(1,9)); c.require(w1<=nw); u=w1+1
        else: u=c.int('useN',small=(0,11))
        R=c.mat('R',3,nw,elem='i64'); o=c.buf('o',1,elem='i64'); c.args(R,nw,cnt,u,o)
        ask=land(u>1,u<=nw+1); w0=ite(ask,u-1,nw)
        if tag=='few': c.require(cnt<=w0); w=cnt-1
        else:
            c.require(cnt>w0); c.require(ask if tag=='asked' else lnot(ask)); w=w1 if tag=='asked' else nw
        each=idiv(cnt,w+1); res=imod(cnt,w+1); n=lambda i: each+ite(i<res,1,0)
        S=lambda k: each*k+vmin(k,res)   # the sum of n(i) over i<k
        c.scalar(lambda k:ite(k<w,S(k),S(w)))
        c.post(R,lambda q: ite(q.row==0,ite(q.col<w,n(q.col),0),ite(land(q.row==1,q.col<w),S(q.col),q.old)))
        c.outs(o,[w]); c.returns(lambda:S(w)); c.ret_sat(lambda r:land(r>=0,r<cnt),"the main thread gets a part that is not empty"); c.call()

@unit('C26','w_range',['parallel_range (both constructors, offset, cnt, end, tid, setters)'],views=('1d',))
def _(c):
    R=c.buf('R',2,elem='i64',const=True); o=c.buf('o',8,elem='i64'); L=1<<60
    n=c.int('c',0,L,bits=64); b=c.int('o_',0,L,bits=64); t=c.int('t',0,1<<20)
    c.require(land(R(0)>=0,R(0)<=L,R(1)>=0,R(1)<=L)); c.args(R,n,b,t,o); c.outs(o,[n,0,n,0,n,b,b+n,t]); c.returns(lambda:R(0)+R(1)); c.call()
