#pragma once
// The BLAS routines are a dependency: the definitions below are their assumed contract
// (reference semantics and the argument checks of the BLAS standard: a bad leading dimension aborts, as xerbla would)
static inline void vp_blas_req(bool ok){ if(!ok) abort(); }
#define GEMM(AE,BE) for(ll j=0;j<N;++j) for(ll i=0;i<M_;++i){ float s=0; for(ll t=0;t<K;++t) s+=(AE)*(BE); if(beta==0.f) C[i+j*lc]=alpha*s; else C[i+j*lc]=alpha*s+beta*C[i+j*lc]; }
extern "C" void cblas_sgemm(const CBLAS_ORDER o,const CBLAS_TRANSPOSE TA,const CBLAS_TRANSPOSE TB,const blasint M_,const blasint N,const blasint K,const float alpha,const float*A,const blasint lda,const float*B,const blasint ldb,const float beta,float*C,const blasint ldc){
	vp_blas_req(o==CblasColMajor); vp_blas_req(M_>=0&&N>=0&&K>=0); const ll la=lda,lb=ldb,lc=ldc;
	if(TA==CblasNoTrans) vp_blas_req(lda>=1&&lda>=M_); else vp_blas_req(lda>=1&&lda>=K);
	if(TB==CblasNoTrans) vp_blas_req(ldb>=1&&ldb>=K); else vp_blas_req(ldb>=1&&ldb>=N);
	vp_blas_req(ldc>=1&&ldc>=M_);
	if(TA==CblasNoTrans){ if(TB==CblasNoTrans) GEMM(A[i+t*la],B[t+j*lb]) else GEMM(A[i+t*la],B[j+t*lb]) }
	else { if(TB==CblasNoTrans) GEMM(A[t+i*la],B[t+j*lb]) else GEMM(A[t+i*la],B[j+t*lb]) }
}
extern "C" void cblas_ssyrk(const CBLAS_ORDER o,const CBLAS_UPLO U,const CBLAS_TRANSPOSE T,const blasint N,const blasint K,const float alpha,const float*A,const blasint lda,const float beta,float*C,const blasint ldc){
	vp_blas_req(o==CblasColMajor); vp_blas_req(N>=0&&K>=0); if(T==CblasNoTrans) vp_blas_req(lda>=1&&lda>=N); else vp_blas_req(lda>=1&&lda>=K); vp_blas_req(ldc>=1&&ldc>=N); vp_blas_req(beta==0.f); const ll la=lda,lc=ldc;
#define SYRK(LO,HI,AE,BE) for(ll j=0;j<N;++j) for(ll i=LO;i<HI;++i){ float s=0; for(ll t=0;t<K;++t) s+=(AE)*(BE); C[i+j*lc]=alpha*s; }
	if(U==CblasLower){ if(T==CblasNoTrans) SYRK(j,N,A[i+t*la],A[j+t*la]) else SYRK(j,N,A[t+i*la],A[t+j*la]) }
	else { if(T==CblasNoTrans) SYRK(0,j+1,A[i+t*la],A[j+t*la]) else SYRK(0,j+1,A[t+i*la],A[t+j*la]) }
}
extern "C" void cblas_ssymm(const CBLAS_ORDER o,const CBLAS_SIDE S,const CBLAS_UPLO U,const blasint M_,const blasint N,const float alpha,const float*A,const blasint lda,const float*B,const blasint ldb,const float beta,float*C,const blasint ldc){
	vp_blas_req(o==CblasColMajor); vp_blas_req(M_>=0&&N>=0&&lda>=1&&ldb>=1&&ldc>=1&&ldb>=M_&&ldc>=M_&&lda>=(S==CblasLeft?M_:N)); const ll la=lda,lb=ldb,lc=ldc;
	for(ll j=0;j<N;++j) for(ll i=0;i<M_;++i){ float s=0;
		if(S==CblasLeft) for(ll t=0;t<M_;++t){ const bool lo=(U==CblasLower)==(i>=t); s+=(lo?A[i+t*la]:A[t+i*la])*B[t+j*lb]; }
		else for(ll t=0;t<N;++t){ const bool lo=(U==CblasLower)==(t>=j); s+=B[i+t*lb]*(lo?A[t+j*la]:A[j+t*la]); }
		C[i+j*lc]=alpha*s+beta*C[i+j*lc]; }
}
extern "C" void cblas_simatcopy(const CBLAS_ORDER o,const CBLAS_TRANSPOSE T,const blasint r,const blasint c,const float alpha,float*A,const blasint lda,const blasint ldb){
	vp_blas_req(o==CblasColMajor&&T==CblasTrans&&r>=1&&c>=1&&lda==r&&ldb==c); float*t=static_cast<float*>(malloc(sizeof(float)*ll(r)*ll(c))); vp_blas_req(t!=nullptr);
	for(ll j=0;j<c;++j) for(ll i=0;i<r;++i) t[i*c+j]=alpha*A[i+j*ll(r)];
	for(ll k=0;k<ll(r)*ll(c);++k) A[k]=t[k];
	free(t);
}
