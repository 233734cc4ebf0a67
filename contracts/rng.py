"""C25: random fills and weight initialisation"""
from dsl import *
use_tu('rng')
P='C25'; RH='rng_helper::'; DN='distr_normal_naive::'; WI='weights_init::'
def unit_iv(b): c_=b
def src(c,n): return c.buf('s',n,const=True)
def u01(r): return r.randint(0,8)/8
def vec(name,cov,val,extra,dom=None):
    @unit(P,name,[cov],views=('1d',))
    def _(c):
        n=c.int('n',0); s=c.buf('s',n,const=True,**({'dom':dom} if dom else {})); p=c.buf('p',n); a=extra(c); c.args(s,p,n,*a); c.post(p,lambda q:val(s(q.i),*a)); c.call()
def mtx(name,cov,val,extra,dom=None):
    @unit(P,name,[cov],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',1); s=c.buf('s',r*k,const=True,**({'dom':dom} if dom else {})); p=c.mat('p',r,k); a=extra(c); c.args(s,p,r,k,*a); c.post(p,lambda q:val(s(q.i),*a)); c.call()
nrm=lambda c:(c.real('m'),c.real('st')); nv=lambda x,m,st:m+st*x
vec('w_rng_normal_vector',RH+'normal_vector',nv,nrm); mtx('w_rng_normal_matrix',RH+'normal_matrix',nv,nrm); vec('w_dn_gen_vector',DN+'gen_vector',nv,nrm); mtx('w_dn_gen_matrix',DN+'gen_matrix',nv,nrm)
be=lambda c:(c.real('pr',vals=[.25,.5,.75]),c.real('pv'),c.real('nv')); bv=lambda x,p,a,b:ite(x<p,a,b)
vec('w_rng_bernoulli_vector',RH+'bernoulli_vector',bv,be,u01); mtx('w_rng_bernoulli_matrix',RH+'bernoulli_matrix',bv,be,u01)
bi=lambda c:(c.real('pr',vals=[.25,.5,.75]),); bw=lambda x,p:ite(x<p,1.0,0.0)
vec('w_rng_binary_vector',RH+'binary_vector',bw,bi,u01); mtx('w_rng_binary_matrix',RH+'binary_matrix',bw,bi,u01)
@unit(P,'w_rng_gen_f',[RH+'gen_f'],views=('1d',))
def _(c): s=c.buf('s',1,const=True); a=c.real('a'); c.args(s,a); c.returns(lambda:a*s(0)); c.call()
one=lambda c:(c.real('a'),); mul=lambda x,a:a*x
mtx('w_rng_gen_matrix',RH+'gen_matrix',mul,one); mtx('w_rng_gen_matrix_norm',RH+'gen_matrix_norm',lambda x:x,lambda c:()); mtx('w_rng_gen_matrix_gtz',RH+'gen_matrix_gtz',mul,one)
def nob(name,cov,val,extra):
    @unit(P,name,[cov],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',2); b=c.bool('b'); m=r*(k-toi(b)); s=c.buf('s',r*k,const=True); p=c.mat('p',r,k); a=extra(c); c.args(s,p,r,k,b,*a)
        c.post(p,lambda q:ite(q.i<m,val(s(q.i),*a),q.old)); c.call()
nob('w_rng_gen_matrix_no_bias',RH+'gen_matrix_no_bias',mul,one); nob('w_rng_gen_matrix_no_bias_norm',RH+'gen_matrix_no_bias_norm',lambda x:x,lambda c:()); nob('w_rng_gen_matrix_no_bias_gtz',RH+'gen_matrix_no_bias_gtz',mul,one); nob('w_dn_gen_matrix_no_bias',DN+'gen_matrix_no_bias',nv,nrm)
nob('w_rng_gen_matrixAny',RH+'gen_matrixAny',mul,one)
@unit(P,'w_rng_gen_matrixAny_row',[RH+'gen_matrixAny'],prove=False)
def _(c):
    r=c.int('r',2); k=c.int('c',1); s=c.mat('s',r,k,const=True); p=c.mat('p',r,k); a=c.real('a'); c.args(s,p,r,k,a)
    c.post(p,lambda q:ite(q.row==r-1,1.0,a*s(q.col,q.row))); c.call()
def xav(name,co):
    @unit(P,name,[WI+'Xavier::make_weights'],views=('1d',))
    def _(c):
        r=c.int('r',1,hi=1<<30); k=c.int('c',2,hi=1<<30); s=src(c,r*k); p=c.mat('p',r,k); c.args(s,p,r,k); c.post(p,lambda q:co*sqrt(rdiv(6.0,tor(r+k)))*s(q.i)); c.returns(lambda:True); c.call()
xav('w_wi_Xavier',1.0); xav('w_wi_XavierFour',4.0)
def hz(name,cov,var,tol=1e-6):
    @unit(P,name,[WI+cov+'::make_weights'],views=('1d',))
    def _(c):
        r=c.int('r',1); k=c.int('c',2); s=src(c,r*(k-1)); p=c.mat('p',r,k); c.args(s,p,r,k); c.post(p,lambda q:ite(q.i<r*(k-1),var(k)*s(q.i),0.0)); c.returns(lambda:True); c.call()
hz('w_wi_He_Zhang','He_Zhang',lambda k:sqrt(rdiv(2.0,tor(k-1)))); hz('w_wi_He_Zhang_half','He_Zhang',lambda k:.5*sqrt(rdiv(2.0,tor(k-1)))); hz('w_wi_He_Zhang2','He_Zhang2',lambda k:sqrt(rdiv(2.0,tor(k-1)))); hz('w_wi_SNNInit','He_Zhang2',lambda k:sqrt(rdiv(1.0,tor(k-1))))
def mart(name,nz,sd,bias):
    @unit(P,name,[WI+'Martens_SI::make_weights'],prove=False)
    def _(c):
        r=c.int('r',1); k=c.int('c',nz+1); s=c.buf('s',r*nz,const=True,dom=lambda q:q.choice([-1,1])*q.randint(1,64)/16); p=c.mat('p',r,k); c.args(s,p,r,k); c.anypost(p); c.returns(lambda:True)
        def chk(rd,ret):
            for i in range(r):
                row=[rd(p,j*r+i) for j in range(k)]
                if row[-1]!=bias: return False
                if sorted(v for v in row[:-1] if v!=0)!=sorted(sd*s(i*nz+z) for z in range(nz)): return False
            return True
        c.final_sat(chk,'every unit has exactly the drawn connections'); c.call()
mart('w_wi_Martens_sigm',3,1.0,0.0); mart('w_wi_Martens_tanh',2,.25,.5)
